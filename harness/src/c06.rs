//! C06 analog outputs

use crate::c05::reports;
use crate::nd;
use crate::scale::*;
use ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData;
use ur20::{AnalogUIRange, ChannelValue, DataFormat, Error};
use ur20::{ur20_4ao_ui_16 as ao, ur20_4ao_ui_16_diag as aod};

pub trait Ao: ProcessModbusTcpData + Default {
    fn set(&mut self, ch: usize, range: AnalogUIRange, format: DataFormat);
    /// settings that must not matter
    fn noise(&mut self);
    fn drop_channel(&mut self);
}

impl Ao for ao::Mod {
    fn set(&mut self, ch: usize, range: AnalogUIRange, format: DataFormat) {
        self.ch_params[ch].output_range = range;
        self.ch_params[ch].data_format = format;
    }
    fn noise(&mut self) {
        for p in &mut self.ch_params {
            p.substitute_value = nd::f32();
        }
    }
    fn drop_channel(&mut self) {
        self.ch_params.pop();
    }
}

impl Ao for aod::Mod {
    fn set(&mut self, ch: usize, range: AnalogUIRange, format: DataFormat) {
        self.ch_params[ch].output_range = range;
        self.ch_params[ch].data_format = format;
    }
    fn noise(&mut self) {
        for p in &mut self.ch_params {
            p.substitute_value = nd::f32();
            p.channel_diagnostics = nd::bool();
        }
    }
    fn drop_channel(&mut self) {
        self.ch_params.pop();
    }
}

/// one range and format, every f32 value, on one channel
fn encode<M: Ao>(ch: usize, range: AnalogUIRange, format: DataFormat) {
    let mut m = M::default();
    let (span, nominal) = (range.span(), nominal(&format));
    m.set(ch, range, format);
    let x = nd::f32();
    let v: [ChannelValue; 4] = std::array::from_fn(|i| {
        if i == ch {
            ChannelValue::Decimal32(x)
        } else {
            ChannelValue::Disabled
        }
    });
    let r = m.process_output_values(&v);
    match &r {
        Ok(w) => {
            assert!(w.len() == 4, "one register per channel");
            for i in 0..4 {
                if i == ch {
                    match span {
                        Some(s) => {
                            assert!(is_nearest(w[i], x, s, nominal), "nearest register value")
                        }
                        None => assert!(w[i] == 0, "a channel that is not in use"),
                    }
                } else {
                    assert!(w[i] == 0, "a disabled channel");
                }
            }
        }
        Err(_) => panic!("a valid list is rejected"),
    }
    nd::forget(r);
    nd::forget(v);
    nd::forget(m);
}

/// one range and format, every register value: decoded by the documented
/// conversion, and written back unchanged
fn round_trip<M: Ao>(ch: usize, range: AnalogUIRange, format: DataFormat) {
    let mut m = M::default();
    let (span, nominal) = (range.span(), nominal(&format));
    m.set(ch, range, format);
    let raw = nd::u16();
    let mut d = [0u16; 4];
    d[ch] = raw;
    let v = match m.process_output_data(&d) {
        Ok(v) => v,
        Err(_) => panic!("register content is rejected"),
    };
    assert!(v.len() == 4, "one value per channel");
    assert!(reports(&v[ch], raw, span, nominal), "value of the channel");
    match m.process_output_values(&v) {
        Ok(w) => {
            assert!(w.len() == 4, "one register per channel");
            for i in 0..4 {
                let back = if i == ch && span.is_some() { raw } else { 0 };
                assert!(w[i] == back, "written back unchanged");
            }
            nd::forget(w);
        }
        Err(_) => panic!("decoded values are rejected"),
    }
    nd::forget(v);
    nd::forget(m);
}

/// every setting of every channel, and raw values from a table
fn routing_dec<M: Ao>() {
    let mut m = M::default();
    m.noise();
    let mut want = [(None, 0i64); 4];
    for i in 0..4 {
        let (range, format) = (AnalogUIRange::any(), format());
        want[i] = (range.span(), nominal(&format));
        m.set(i, range, format);
    }
    let d: [u16; 4] = std::array::from_fn(|_| if nd::steered() { nd::u16() } else { sample() });
    let r = m.process_output_data(&d);
    match &r {
        Ok(v) => {
            assert!(v.len() == 4, "one value per channel");
            for i in 0..4 {
                assert!(
                    reports(&v[i], d[i], want[i].0, want[i].1),
                    "value of the channel"
                );
            }
        }
        Err(_) => panic!("register content is rejected"),
    }
    nd::forget(r);
    nd::forget(m);
}

/// different settings of the channels, and values from a table
fn routing_enc<M: Ao>(ranges: [AnalogUIRange; 4], formats: [DataFormat; 4], disabled: usize) {
    let mut m = M::default();
    m.noise();
    let mut want = [(None, 0i64); 4];
    for (i, (mut r, mut f)) in ranges.into_iter().zip(formats).enumerate() {
        if nd::steered() {
            (r, f) = (AnalogUIRange::any(), format());
        }
        want[i] = (r.span(), nominal(&f));
        m.set(i, r, f);
    }
    let x: [f32; 4] = std::array::from_fn(|_| {
        if nd::steered() {
            nd::f32()
        } else {
            sample_value()
        }
    });
    let off: [bool; 4] = std::array::from_fn(|i| {
        if nd::steered() {
            nd::bool()
        } else {
            i == disabled
        }
    });
    let v: [ChannelValue; 4] = std::array::from_fn(|i| {
        if off[i] {
            ChannelValue::Disabled
        } else {
            ChannelValue::Decimal32(x[i])
        }
    });
    let r = m.process_output_values(&v);
    match &r {
        Ok(w) => {
            assert!(w.len() == 4, "one register per channel");
            for i in 0..4 {
                match (off[i], want[i].0) {
                    (false, Some(s)) => {
                        assert!(
                            is_nearest(w[i], x[i], s, want[i].1),
                            "nearest register value"
                        )
                    }
                    _ => assert!(w[i] == 0, "a disabled channel"),
                }
            }
        }
        Err(_) => panic!("a valid list is rejected"),
    }
    nd::forget(r);
    nd::forget(v);
    nd::forget(m);
}

fn sample_value() -> f32 {
    match nd::upto(3) {
        0 => 0.0,
        1 => 1.5,
        2 => 20.0,
        _ => -5.0,
    }
}

/// wrong numbers of values, registers or channels
fn lengths<M: Ao>(channels_missing: bool) {
    let mut m = M::default();
    if channels_missing {
        m.drop_channel();
    }
    // every length, one by one
    for len in 0..6 {
        let v: [ChannelValue; 6] = std::array::from_fn(|_| ChannelValue::Disabled);
        let r = m.process_output_values(&v[..len]);
        match &r {
            Ok(w) => {
                assert!(len == 4 && !channels_missing, "a wrong list is accepted");
                assert!(w.len() == 4, "one register per channel");
            }
            Err(Error::ChannelValue) => assert!(len != 4, "a valid list is rejected"),
            Err(Error::ChannelParameter) => assert!(channels_missing, "channel count"),
            Err(_) => panic!("error kind"),
        }
        nd::forget(r);
        nd::forget(v);
        let d: [u16; 6] = nd::u16s();
        let r = m.process_output_data(&d[..len]);
        match &r {
            Ok(v) => {
                assert!(len == 4 && !channels_missing, "a wrong number is accepted");
                assert!(v.len() == 4, "one value per channel");
            }
            Err(Error::BufferLength) => assert!(len != 4, "register count"),
            Err(Error::ChannelParameter) => assert!(channels_missing, "channel count"),
            Err(_) => panic!("error kind"),
        }
        nd::forget(r);
    }
    assert!(
        m.process_output_byte_count() == 8 && m.process_input_byte_count() == 0,
        "data size"
    );
    nd::forget(m);
}

/// a value of another kind, on any of the channels
fn kinds<M: Ao>() {
    let mut m = M::default();
    m.noise();
    {
        let (at, kind) = (nd::upto(3), nd::upto(4));
        let on = nd::bool();
        let v: [ChannelValue; 4] = std::array::from_fn(|i| {
            if i != at {
                return ChannelValue::Disabled;
            }
            match kind {
                0 => ChannelValue::Bit(on),
                1 => ChannelValue::None,
                2 => ChannelValue::Bytes(vec![]),
                3 => ChannelValue::ComRsIn(Default::default()),
                _ => ChannelValue::FcntOut(Default::default()),
            }
        });
        let r = m.process_output_values(&v);
        assert!(
            matches!(r, Err(Error::ChannelValue)),
            "a value of another kind is accepted"
        );
        nd::forget(r);
        nd::forget(v);
    }
    nd::forget(m);
}

macro_rules! conversions {
    ($($e:ident, $r:ident: $m:ty, $ch:literal, $range:ident, $format:ident;)*) => {
        harnesses! { $(
            #[kani::unwind(10)]
            fn $e() { encode::<$m>($ch, AnalogUIRange::$range, DataFormat::$format); }
            #[kani::unwind(10)]
            fn $r() { round_trip::<$m>($ch, AnalogUIRange::$range, DataFormat::$format); }
        )* }
    };
}

pub mod aos {
    use super::*;
    conversions! {
        c06_ao_enc_ma0to20_s7, c06_ao_rt_ma0to20_s7: ao::Mod, 0, mA0To20, S7;
        c06_ao_enc_ma0to20_s5, c06_ao_rt_ma0to20_s5: ao::Mod, 1, mA0To20, S5;
        c06_ao_enc_ma4to20_s7, c06_ao_rt_ma4to20_s7: ao::Mod, 2, mA4To20, S7;
        c06_ao_enc_ma4to20_s5, c06_ao_rt_ma4to20_s5: ao::Mod, 3, mA4To20, S5;
        c06_ao_enc_v0to10_s7, c06_ao_rt_v0to10_s7: ao::Mod, 0, V0To10, S7;
        c06_ao_enc_v0to10_s5, c06_ao_rt_v0to10_s5: ao::Mod, 1, V0To10, S5;
        c06_ao_enc_vminus10to10_s7, c06_ao_rt_vminus10to10_s7: ao::Mod, 2, VMinus10To10, S7;
        c06_ao_enc_vminus10to10_s5, c06_ao_rt_vminus10to10_s5: ao::Mod, 3, VMinus10To10, S5;
        c06_ao_enc_v0to5_s7, c06_ao_rt_v0to5_s7: ao::Mod, 0, V0To5, S7;
        c06_ao_enc_v0to5_s5, c06_ao_rt_v0to5_s5: ao::Mod, 1, V0To5, S5;
        c06_ao_enc_vminus5to5_s7, c06_ao_rt_vminus5to5_s7: ao::Mod, 2, VMinus5To5, S7;
        c06_ao_enc_vminus5to5_s5, c06_ao_rt_vminus5to5_s5: ao::Mod, 3, VMinus5To5, S5;
        c06_ao_enc_v1to5_s7, c06_ao_rt_v1to5_s7: ao::Mod, 0, V1To5, S7;
        c06_ao_enc_v1to5_s5, c06_ao_rt_v1to5_s5: ao::Mod, 1, V1To5, S5;
        c06_ao_enc_v2to10_s7, c06_ao_rt_v2to10_s7: ao::Mod, 2, V2To10, S7;
        c06_ao_enc_v2to10_s5, c06_ao_rt_v2to10_s5: ao::Mod, 3, V2To10, S5;
    }
}

pub mod aods {
    use super::*;
    conversions! {
        c06_aod_enc_ma0to20_s7, c06_aod_rt_ma0to20_s7: aod::Mod, 1, mA0To20, S7;
        c06_aod_enc_ma0to20_s5, c06_aod_rt_ma0to20_s5: aod::Mod, 2, mA0To20, S5;
        c06_aod_enc_ma4to20_s7, c06_aod_rt_ma4to20_s7: aod::Mod, 3, mA4To20, S7;
        c06_aod_enc_ma4to20_s5, c06_aod_rt_ma4to20_s5: aod::Mod, 0, mA4To20, S5;
        c06_aod_enc_v0to10_s7, c06_aod_rt_v0to10_s7: aod::Mod, 1, V0To10, S7;
        c06_aod_enc_v0to10_s5, c06_aod_rt_v0to10_s5: aod::Mod, 2, V0To10, S5;
        c06_aod_enc_vminus10to10_s7, c06_aod_rt_vminus10to10_s7: aod::Mod, 3, VMinus10To10, S7;
        c06_aod_enc_vminus10to10_s5, c06_aod_rt_vminus10to10_s5: aod::Mod, 0, VMinus10To10, S5;
        c06_aod_enc_v0to5_s7, c06_aod_rt_v0to5_s7: aod::Mod, 1, V0To5, S7;
        c06_aod_enc_v0to5_s5, c06_aod_rt_v0to5_s5: aod::Mod, 2, V0To5, S5;
        c06_aod_enc_vminus5to5_s7, c06_aod_rt_vminus5to5_s7: aod::Mod, 3, VMinus5To5, S7;
        c06_aod_enc_vminus5to5_s5, c06_aod_rt_vminus5to5_s5: aod::Mod, 0, VMinus5To5, S5;
        c06_aod_enc_v1to5_s7, c06_aod_rt_v1to5_s7: aod::Mod, 1, V1To5, S7;
        c06_aod_enc_v1to5_s5, c06_aod_rt_v1to5_s5: aod::Mod, 2, V1To5, S5;
        c06_aod_enc_v2to10_s7, c06_aod_rt_v2to10_s7: aod::Mod, 3, V2To10, S7;
        c06_aod_enc_v2to10_s5, c06_aod_rt_v2to10_s5: aod::Mod, 0, V2To10, S5;
    }
}

use AnalogUIRange::*;
use DataFormat::*;

harnesses! {
    #[kani::unwind(10)]
    fn c06_routing_enc_a() {
        routing_enc::<ao::Mod>([mA0To20, mA4To20, V0To5, Disabled], [S7, S5, S7, S7], 4);
    }
    #[kani::unwind(10)]
    fn c06_routing_enc_b() {
        routing_enc::<ao::Mod>([V2To10, Disabled, VMinus10To10, V1To5], [S5, S5, S7, S7], 2);
    }
    #[kani::unwind(10)]
    fn c06_routing_enc_diag_a() {
        routing_enc::<aod::Mod>([mA0To20, mA4To20, V0To5, Disabled], [S7, S5, S7, S7], 4);
    }
    #[kani::unwind(10)]
    fn c06_routing_enc_diag_b() {
        routing_enc::<aod::Mod>([V2To10, Disabled, VMinus10To10, V1To5], [S5, S5, S7, S7], 2);
    }
    #[kani::unwind(10)]
    fn c06_routing_dec() { routing_dec::<ao::Mod>(); }
    #[kani::unwind(10)]
    fn c06_routing_dec_diag() { routing_dec::<aod::Mod>(); }
    #[kani::unwind(10)]
    fn c06_lengths() { lengths::<ao::Mod>(false); }
    #[kani::unwind(10)]
    fn c06_channels() { lengths::<ao::Mod>(true); }
    #[kani::unwind(10)]
    fn c06_kinds() { kinds::<ao::Mod>(); }
    #[kani::unwind(10)]
    fn c06_lengths_diag() { lengths::<aod::Mod>(false); }
    #[kani::unwind(10)]
    fn c06_channels_diag() { lengths::<aod::Mod>(true); }
    #[kani::unwind(10)]
    fn c06_kinds_diag() { kinds::<aod::Mod>(); }
}

fn any_length<M: Ao>() {
    let mut m = M::default();
    let missing = nd::bool();
    if missing {
        m.drop_channel();
    }
    let d: Vec<u16> = (0..nd::count(80, 700)).map(|_| nd::u16()).collect();
    assert!(m.process_output_data(&d).is_ok() == (d.len() == 4 && !missing), "register or channel count");
    let v: Vec<_> = (0..nd::count(80, 700)).map(|_| ChannelValue::Decimal32(nd::f32())).collect();
    assert!(m.process_output_values(&v).is_ok() == (v.len() == 4 && !missing), "value or channel count");
}

searches! {
    fn c06_any_length() {
        any_length::<ao::Mod>();
        any_length::<aod::Mod>();
    }
}
