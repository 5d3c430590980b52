//! C05 analog inputs

use crate::nd;
use crate::scale::*;
use ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData;
use ur20::{AnalogIRange, AnalogUIRange, ChannelValue, DataFormat, Error};
use ur20::{
    ur20_4ai_ui_16_diag as aid, ur20_8ai_i_16_diag_hd as ai8,
    ur20_ai_ui_generic::{self as aig, UR20_4AI_UI_12, UR20_4AI_UI_16},
};

/// A module with `N` analog input channels.
pub trait Ai<const N: usize>: ProcessModbusTcpData + Default {
    type Range: Scale;
    fn set(&mut self, ch: usize, range: Self::Range, format: DataFormat);
    /// settings that must not matter
    fn noise(&mut self) {}
    fn drop_channel(&mut self);
}

macro_rules! generic {
    ($v:ident) => {
        impl Ai<4> for aig::Mod<$v> {
            type Range = AnalogUIRange;
            fn set(&mut self, ch: usize, range: AnalogUIRange, format: DataFormat) {
                self.ch_params[ch].measurement_range = range;
                self.ch_params[ch].data_format = format;
            }
            fn drop_channel(&mut self) {
                self.ch_params.pop();
            }
        }
    };
}
generic!(UR20_4AI_UI_12);
generic!(UR20_4AI_UI_16);

impl Ai<4> for aid::Mod {
    type Range = AnalogUIRange;
    fn set(&mut self, ch: usize, range: AnalogUIRange, format: DataFormat) {
        self.ch_params[ch].measurement_range = range;
        self.ch_params[ch].data_format = format;
    }
    fn noise(&mut self) {
        for p in &mut self.ch_params {
            p.channel_diagnostics = nd::bool();
            p.diag_short_circuit = nd::bool();
            p.diag_line_break = nd::bool();
        }
    }
    fn drop_channel(&mut self) {
        self.ch_params.pop();
    }
}

impl Ai<8> for ai8::Mod {
    type Range = AnalogIRange;
    fn set(&mut self, ch: usize, range: AnalogIRange, format: DataFormat) {
        self.ch_params[ch].measurement_range = range;
        self.ch_params[ch].data_format = format;
    }
    fn noise(&mut self) {
        for p in &mut self.ch_params {
            p.channel_diagnostics = nd::bool();
            p.diag_short_circuit = nd::bool();
        }
    }
    fn drop_channel(&mut self) {
        self.ch_params.pop();
    }
}

/// What a channel reports.
pub fn reports(v: &ChannelValue, raw: u16, span: Option<(i64, i64)>, nominal: i64) -> bool {
    match (v, span) {
        (ChannelValue::Disabled, None) => true,
        (ChannelValue::Decimal32(v), Some(s)) => is_scaled(*v, raw as i16 as i64, s, nominal),
        _ => false,
    }
}

/// one range and format, every raw value, on one channel
fn convert<const N: usize, M: Ai<N>>(ch: usize, range: M::Range, format: DataFormat) {
    let mut m = M::default();
    let (span, nominal) = (range.span(), nominal(&format));
    m.set(ch, range, format);
    let raw = nd::u16();
    let mut d = [0u16; N];
    d[ch] = raw;
    let r = m.process_input_data(&d);
    match &r {
        Ok(v) => {
            assert!(v.len() == N, "one value per channel");
            assert!(reports(&v[ch], raw, span, nominal), "value of the channel");
            for i in 0..N {
                assert!(i == ch || v[i] == ChannelValue::Disabled, "channels that are not in use");
            }
        }
        Err(_) => panic!("register content is rejected"),
    }
    nd::forget(r);
    nd::forget(m);
}

/// every setting of every channel, and raw values from a table
fn routing<const N: usize, M: Ai<N>>() {
    let mut m = M::default();
    m.noise();
    let mut d = [0u16; N];
    let mut want = [(None, 0i64); N];
    for i in 0..N {
        d[i] = if nd::steered() { nd::u16() } else { sample() };
        let (range, format) = (M::Range::any(), format());
        want[i] = (range.span(), nominal(&format));
        m.set(i, range, format);
    }
    let r = m.process_input_data(&d);
    match &r {
        Ok(v) => {
            assert!(v.len() == N, "one value per channel");
            for i in 0..N {
                assert!(reports(&v[i], d[i], want[i].0, want[i].1), "value of the channel");
            }
        }
        Err(_) => panic!("register content is rejected"),
    }
    nd::forget(r);
    nd::forget(m);
}

/// wrong numbers of registers or channels
fn lengths<const N: usize, const L: usize, M: Ai<N>>(channels_missing: bool) {
    let mut m = M::default();
    if channels_missing {
        m.drop_channel();
    }
    let d: [u16; L] = nd::u16s();
    let len = nd::upto(L);
    let r = m.process_input_data(&d[..len]);
    match &r {
        Ok(v) => {
            assert!(len == N && !channels_missing, "a wrong number is accepted");
            assert!(v.len() == N, "one value per channel");
        }
        Err(Error::BufferLength) => assert!(len != N, "register count"),
        Err(Error::ChannelParameter) => assert!(channels_missing, "channel count"),
        Err(_) => panic!("error kind"),
    }
    assert!(m.process_input_byte_count() == 2 * N && m.process_output_byte_count() == 0, "data size");
    nd::forget(r);
    nd::forget(m);
}

macro_rules! conversions {
    ($($n:ident: $m:ty, $ch:literal, $range:expr, $format:ident;)*) => {
        harnesses! { $(
            #[kani::unwind(10)]
            fn $n() { convert::<{ CH }, $m>($ch, $range, DataFormat::$format); }
        )* }
    };
}

pub mod ui16 {
    use super::*;
    use AnalogUIRange::*;
    const CH: usize = 4;
    type M = aig::Mod<UR20_4AI_UI_16>;
    conversions! {
        c05_ui16_ma0to20_s7: M, 0, mA0To20, S7;
        c05_ui16_ma0to20_s5: M, 1, mA0To20, S5;
        c05_ui16_ma4to20_s7: M, 2, mA4To20, S7;
        c05_ui16_ma4to20_s5: M, 3, mA4To20, S5;
        c05_ui16_v0to10_s7: M, 0, V0To10, S7;
        c05_ui16_v0to10_s5: M, 1, V0To10, S5;
        c05_ui16_vminus10to10_s7: M, 2, VMinus10To10, S7;
        c05_ui16_vminus10to10_s5: M, 3, VMinus10To10, S5;
        c05_ui16_v0to5_s7: M, 0, V0To5, S7;
        c05_ui16_v0to5_s5: M, 1, V0To5, S5;
        c05_ui16_vminus5to5_s7: M, 2, VMinus5To5, S7;
        c05_ui16_vminus5to5_s5: M, 3, VMinus5To5, S5;
        c05_ui16_v1to5_s7: M, 0, V1To5, S7;
        c05_ui16_v1to5_s5: M, 1, V1To5, S5;
        c05_ui16_v2to10_s7: M, 2, V2To10, S7;
        c05_ui16_v2to10_s5: M, 3, V2To10, S5;
    }
}

pub mod ui12 {
    use super::*;
    use AnalogUIRange::*;
    const CH: usize = 4;
    type M = aig::Mod<UR20_4AI_UI_12>;
    conversions! {
        c05_ui12_ma0to20_s7: M, 1, mA0To20, S7;
        c05_ui12_ma0to20_s5: M, 2, mA0To20, S5;
        c05_ui12_ma4to20_s7: M, 3, mA4To20, S7;
        c05_ui12_ma4to20_s5: M, 0, mA4To20, S5;
        c05_ui12_v0to10_s7: M, 1, V0To10, S7;
        c05_ui12_v0to10_s5: M, 2, V0To10, S5;
        c05_ui12_vminus10to10_s7: M, 3, VMinus10To10, S7;
        c05_ui12_vminus10to10_s5: M, 0, VMinus10To10, S5;
        c05_ui12_v0to5_s7: M, 1, V0To5, S7;
        c05_ui12_v0to5_s5: M, 2, V0To5, S5;
        c05_ui12_vminus5to5_s7: M, 3, VMinus5To5, S7;
        c05_ui12_vminus5to5_s5: M, 0, VMinus5To5, S5;
        c05_ui12_v1to5_s7: M, 1, V1To5, S7;
        c05_ui12_v1to5_s5: M, 2, V1To5, S5;
        c05_ui12_v2to10_s7: M, 3, V2To10, S7;
        c05_ui12_v2to10_s5: M, 0, V2To10, S5;
    }
}

pub mod diag {
    use super::*;
    use AnalogUIRange::*;
    const CH: usize = 4;
    type M = aid::Mod;
    conversions! {
        c05_diag_ma0to20_s7: M, 2, mA0To20, S7;
        c05_diag_ma0to20_s5: M, 3, mA0To20, S5;
        c05_diag_ma4to20_s7: M, 0, mA4To20, S7;
        c05_diag_ma4to20_s5: M, 1, mA4To20, S5;
        c05_diag_v0to10_s7: M, 2, V0To10, S7;
        c05_diag_v0to10_s5: M, 3, V0To10, S5;
        c05_diag_vminus10to10_s7: M, 0, VMinus10To10, S7;
        c05_diag_vminus10to10_s5: M, 1, VMinus10To10, S5;
        c05_diag_v0to5_s7: M, 2, V0To5, S7;
        c05_diag_v0to5_s5: M, 3, V0To5, S5;
        c05_diag_vminus5to5_s7: M, 0, VMinus5To5, S7;
        c05_diag_vminus5to5_s5: M, 1, VMinus5To5, S5;
        c05_diag_v1to5_s7: M, 2, V1To5, S7;
        c05_diag_v1to5_s5: M, 3, V1To5, S5;
        c05_diag_v2to10_s7: M, 0, V2To10, S7;
        c05_diag_v2to10_s5: M, 1, V2To10, S5;
    }
}

pub mod i8 {
    use super::*;
    use AnalogIRange::*;
    const CH: usize = 8;
    type M = ai8::Mod;
    conversions! {
        c05_i8_ma0to20_s7: M, 3, mA0To20, S7;
        c05_i8_ma0to20_s5: M, 4, mA0To20, S5;
        c05_i8_ma4to20_s7: M, 5, mA4To20, S7;
        c05_i8_ma4to20_s5: M, 6, mA4To20, S5;
    }
}

harnesses! {
    #[kani::unwind(10)]
    fn c05_routing_ui12() { routing::<4, aig::Mod<UR20_4AI_UI_12>>(); }
    #[kani::unwind(10)]
    fn c05_routing_diag() { routing::<4, aid::Mod>(); }
    #[kani::unwind(10)]
    fn c05_routing_i8() { routing::<8, ai8::Mod>(); }
    #[kani::unwind(10)]
    fn c05_routing_ui16() { routing::<4, aig::Mod<UR20_4AI_UI_16>>(); }
    #[kani::unwind(10)]
    fn c05_lengths_ui16() { lengths::<4, 6, aig::Mod<UR20_4AI_UI_16>>(false); }
    #[kani::unwind(10)]
    fn c05_channels_ui16() { lengths::<4, 6, aig::Mod<UR20_4AI_UI_16>>(true); }
    #[kani::unwind(10)]
    fn c05_lengths_ui12() { lengths::<4, 6, aig::Mod<UR20_4AI_UI_12>>(false); }
    #[kani::unwind(10)]
    fn c05_channels_ui12() { lengths::<4, 6, aig::Mod<UR20_4AI_UI_12>>(true); }
    #[kani::unwind(10)]
    fn c05_lengths_i8() { lengths::<8, 10, ai8::Mod>(false); }
    #[kani::unwind(10)]
    fn c05_channels_i8() { lengths::<8, 10, ai8::Mod>(true); }
    #[kani::unwind(10)]
    fn c05_lengths_diag() { lengths::<4, 6, aid::Mod>(false); }
    #[kani::unwind(10)]
    fn c05_channels_diag() { lengths::<4, 6, aid::Mod>(true); }
}

searches! {
    fn c05_any_length() {
        lengths::<4, 250, aig::Mod<UR20_4AI_UI_16>>(nd::bool());
        lengths::<4, 250, aig::Mod<UR20_4AI_UI_12>>(nd::bool());
        lengths::<8, 250, ai8::Mod>(nd::bool());
        lengths::<4, 250, aid::Mod>(nd::bool());
    }
}
