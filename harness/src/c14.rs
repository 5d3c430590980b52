//! C14 module parameters
//!
//! The loops of the contracts stay within the number of channels: a failing
//! code of one channel makes every later iteration conditional, and the
//! verifier unrolls those up to the bound given.

use crate::nd;
use crate::scale::{is_scaled, nominal, Scale};
use ur20::ur20_fbc_mod_tcp::{FromModbusParameterData, ProcessModbusTcpData};
use ur20::*;

const ANY: u32 = 65536;

/// A module's parameter block of `N` registers.
pub trait Block<const N: usize>: FromModbusParameterData + ProcessModbusTcpData {
    /// register `i` holds a code below this
    fn bound(i: usize) -> u32;
    /// each setting is the one encoded in its register
    fn holds(&self, d: &[u16; N]);
}

macro_rules! code {
    ($v:expr, $($p:path = $c:expr),* $(,)?) => {
        match $v { $( $p => $c, )* }
    };
}

fn rtd_range(v: &RtdRange) -> u16 {
    use RtdRange::*;
    code!(v, PT100 = 0, PT200 = 1, PT500 = 2, PT1000 = 3, NI100 = 4, NI120 = 5, NI200 = 6, NI500 = 7,
        NI1000 = 8, Cu10 = 9, R40 = 10, R80 = 11, R150 = 12, R300 = 13, R500 = 14, R1000 = 15,
        R2000 = 16, R4000 = 17, Disabled = 18)
}
fn tc_range(v: &ur20_4ai_tc_diag::MeasurementRange) -> u16 {
    use ur20_4ai_tc_diag::MeasurementRange::*;
    code!(v, TC_Type_J = 0, TC_Type_K = 1, TC_Type_N = 2, TC_Type_R = 3, TC_Type_S = 4, TC_Type_T = 5,
        TC_Type_B = 6, TC_Type_C = 7, TC_Type_E = 8, TC_Type_L = 9, TC_Type_U = 10,
        uVPlusMinus15625 = 11, uVPlusMinus31250 = 12, uVPlusMinus62500 = 13, mVPlusMinus125 = 14,
        mVPlusMinus250 = 15, mVPlusMinus500 = 16, VPlusMinus1 = 17, VPlusMinus2 = 18, Disabled = 19)
}
fn junction(v: &ur20_4ai_tc_diag::ColdJunctionCompensation) -> u16 {
    use ur20_4ai_tc_diag::ColdJunctionCompensation::*;
    code!(v, Internal = 0, ExternalChannel0 = 1, ExternalChannel1 = 2, ExternalChannel2 = 3, ExternalChannel3 = 4)
}
fn unit(v: &TemperatureUnit) -> u16 {
    use TemperatureUnit::*;
    code!(v, Celsius = 0, Fahrenheit = 1, Kelvin = 2)
}
fn connection(v: &ConnectionType) -> u16 {
    use ConnectionType::*;
    code!(v, TwoWire = 0, ThreeWire = 1, FourWire = 2)
}
fn conversion(v: &ConversionTime) -> u16 {
    use ConversionTime::*;
    code!(v, ms240 = 0, ms130 = 1, ms80 = 2, ms55 = 3, ms43 = 4, ms36 = 5)
}
fn frequency(v: &FrequencySuppression) -> u16 {
    use FrequencySuppression::*;
    code!(v, Disabled = 0, Hz50 = 1, Hz60 = 2, Average16 = 3)
}
fn format(v: &DataFormat) -> u16 {
    code!(v, DataFormat::S5 = 0, DataFormat::S7 = 1)
}
fn ui_range(v: &AnalogUIRange) -> u16 {
    use AnalogUIRange::*;
    code!(v, mA0To20 = 0, mA4To20 = 1, V0To10 = 2, VMinus10To10 = 3, V0To5 = 4, VMinus5To5 = 5, V1To5 = 6,
        V2To10 = 7, Disabled = 8)
}
fn i_range(v: &AnalogIRange) -> u16 {
    use AnalogIRange::*;
    code!(v, mA0To20 = 0, mA4To20 = 1, Disabled = 2)
}
fn delay(v: &InputDelay) -> u16 {
    use InputDelay::*;
    code!(v, no = 0, us300 = 1, ms3 = 2, ms10 = 3, ms20 = 4, ms40 = 5)
}
fn filter(v: &InputFilter) -> u16 {
    use InputFilter::*;
    code!(v, us5 = 0, us11 = 1, us21 = 2, us43 = 3, us83 = 4, us167 = 5, us333 = 6, us667 = 7, ms1 = 8,
        ms3 = 9, ms5 = 10, ms11 = 11, ms22 = 12, ms43 = 13, ms91 = 14, ms167 = 15, ms333 = 16)
}

impl Block<29> for ur20_4ai_rtd_diag::Mod {
    fn bound(i: usize) -> u32 {
        if i == 0 { 3 } else { [19, 3, 6, 2, 2, ANY, ANY][(i - 1) % 7] }
    }
    fn holds(&self, d: &[u16; 29]) {
        assert!(unit(&self.mod_params.temperature_unit) == d[0], "temperature unit");
        assert!(self.ch_params.len() == 4, "channels");
        for c in 0..4 {
            let p = &self.ch_params[c];
            let r = &d[1 + 7 * c..8 + 7 * c];
            assert!(rtd_range(&p.measurement_range) == r[0], "measuring range");
            assert!(connection(&p.connection_type) == r[1], "connection type");
            assert!(conversion(&p.conversion_time) == r[2], "conversion time");
            assert!(p.channel_diagnostics as u16 == r[3], "channel diagnostics");
            assert!(p.limit_value_monitoring as u16 == r[4], "limit value monitoring");
            assert!(p.high_limit_value as u16 == r[5], "high limit");
            assert!(p.low_limit_value as u16 == r[6], "low limit");
        }
    }
}

impl Block<29> for ur20_4ai_tc_diag::Mod {
    fn bound(i: usize) -> u32 {
        if i == 0 { 3 } else { [20, 5, 6, 2, 2, ANY, ANY][(i - 1) % 7] }
    }
    fn holds(&self, d: &[u16; 29]) {
        assert!(unit(&self.mod_params.temperature_unit) == d[0], "temperature unit");
        for c in 0..4 {
            let p = &self.ch_params[c];
            let r = &d[1 + 7 * c..8 + 7 * c];
            assert!(tc_range(&p.measurement_range) == r[0], "measuring range");
            assert!(junction(&p.cold_junction_compensation) == r[1], "cold junction compensation");
            assert!(conversion(&p.conversion_time) == r[2], "conversion time");
            assert!(p.channel_diagnostics as u16 == r[3], "channel diagnostics");
            assert!(p.limit_value_monitoring as u16 == r[4], "limit value monitoring");
            assert!(p.high_limit_value as u16 == r[5], "high limit");
            assert!(p.low_limit_value as u16 == r[6], "low limit");
        }
    }
}

impl Block<21> for ur20_4ai_ui_16_diag::Mod {
    fn bound(i: usize) -> u32 {
        if i == 0 { 4 } else { [2, 2, 2, 2, 9][(i - 1) % 5] }
    }
    fn holds(&self, d: &[u16; 21]) {
        assert!(frequency(&self.mod_params.frequency_suppression) == d[0], "frequency suppression");
        assert!(self.ch_params.len() == 4, "channels");
        for c in 0..4 {
            let p = &self.ch_params[c];
            let r = &d[1 + 5 * c..6 + 5 * c];
            assert!(p.channel_diagnostics as u16 == r[0], "channel diagnostics");
            assert!(p.diag_short_circuit as u16 == r[1], "short circuit diagnostics");
            assert!(p.diag_line_break as u16 == r[2], "line break diagnostics");
            assert!(format(&p.data_format) == r[3], "data format");
            assert!(ui_range(&p.measurement_range) == r[4], "measuring range");
        }
    }
}

macro_rules! generic_ai {
    ($($v:ty),*) => {$(
        impl Block<9> for ur20_ai_ui_generic::Mod<$v> {
            fn bound(i: usize) -> u32 {
                if i == 0 { 4 } else { [2, 9][(i - 1) % 2] }
            }
            fn holds(&self, d: &[u16; 9]) {
                assert!(frequency(&self.mod_params.frequency_suppression) == d[0], "frequency suppression");
                assert!(self.ch_params.len() == 4, "channels");
                for c in 0..4 {
                    let p = &self.ch_params[c];
                    assert!(format(&p.data_format) == d[1 + 2 * c], "data format");
                    assert!(ui_range(&p.measurement_range) == d[2 + 2 * c], "measuring range");
                }
            }
        }
    )*};
}
generic_ai!(ur20_ai_ui_generic::UR20_4AI_UI_16, ur20_ai_ui_generic::UR20_4AI_UI_12);

impl Block<33> for ur20_8ai_i_16_diag_hd::Mod {
    fn bound(i: usize) -> u32 {
        if i == 0 { 4 } else { [2, 2, 2, 3][(i - 1) % 4] }
    }
    fn holds(&self, d: &[u16; 33]) {
        assert!(frequency(&self.mod_params.frequency_suppression) == d[0], "frequency suppression");
        assert!(self.ch_params.len() == 8, "channels");
        for c in 0..8 {
            let p = &self.ch_params[c];
            let r = &d[1 + 4 * c..5 + 4 * c];
            assert!(p.channel_diagnostics as u16 == r[0], "channel diagnostics");
            assert!(p.diag_short_circuit as u16 == r[1], "short circuit diagnostics");
            assert!(format(&p.data_format) == r[2], "data format");
            assert!(i_range(&p.measurement_range) == r[3], "measuring range");
        }
    }
}

impl Block<12> for ur20_4ao_ui_16::Mod {
    fn bound(i: usize) -> u32 {
        [2, 9, ANY][i % 3]
    }
    fn holds(&self, d: &[u16; 12]) {
        assert!(self.ch_params.len() == 4, "channels");
        for c in 0..4 {
            let p = &self.ch_params[c];
            assert!(format(&p.data_format) == d[3 * c], "data format");
            assert!(ui_range(&p.output_range) == d[3 * c + 1], "output range");
        }
    }
}

impl Block<16> for ur20_4ao_ui_16_diag::Mod {
    fn bound(i: usize) -> u32 {
        [2, 9, ANY, 2][i % 4]
    }
    fn holds(&self, d: &[u16; 16]) {
        assert!(self.ch_params.len() == 4, "channels");
        for c in 0..4 {
            let p = &self.ch_params[c];
            assert!(format(&p.data_format) == d[4 * c], "data format");
            assert!(ui_range(&p.output_range) == d[4 * c + 1], "output range");
            assert!(p.channel_diagnostics as u16 == d[4 * c + 3], "channel diagnostics");
        }
    }
}

macro_rules! di {
    ($($v:ty, $n:literal);*) => {$(
        impl Block<$n> for ur20_di_generic::Mod<$v> {
            fn bound(_: usize) -> u32 {
                6
            }
            fn holds(&self, d: &[u16; $n]) {
                assert!(self.ch_params.len() == $n, "channels");
                for c in 0..$n {
                    assert!(delay(&self.ch_params[c].input_delay) == d[c], "input delay");
                }
            }
        }
    )*};
}
di!(ur20_di_generic::UR20_4DI_P, 4; ur20_di_generic::UR20_8DI_P_2W, 8);

macro_rules! digital_out {
    ($($m:ty, $n:literal);*) => {$(
        impl Block<$n> for $m {
            fn bound(_: usize) -> u32 {
                2
            }
            fn holds(&self, d: &[u16; $n]) {
                assert!(self.ch_params.len() == $n, "channels");
                for c in 0..$n {
                    assert!(self.ch_params[c].substitute_value as u16 == d[c], "substitute value");
                }
            }
        }
    )*};
}
digital_out!(
    ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>, 4;
    ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>, 4;
    ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>, 8;
    ur20_4ro_co_255::Mod, 4
);

impl Block<2> for ur20_2fcnt_100::Mod {
    fn bound(_: usize) -> u32 {
        17
    }
    fn holds(&self, d: &[u16; 2]) {
        assert!(self.ch_params.len() == 2, "channels");
        assert!(filter(&self.ch_params[0].input_filter) == d[0], "input filter of channel 0");
        assert!(filter(&self.ch_params[1].input_filter) == d[1], "input filter of channel 1");
    }
}

impl Block<10> for ur20_1com_232_485_422::Mod {
    fn bound(i: usize) -> u32 {
        [2, 4, 12, 2, 3, 3, 2, 2, 256, 256][i]
    }
    fn holds(&self, d: &[u16; 10]) {
        use ur20_1com_232_485_422::*;
        assert!(
            code!(self.mod_params.process_data_len, ProcessDataLength::EightBytes = 0, ProcessDataLength::SixteenBytes = 1)
                == d[0],
            "process data length"
        );
        assert!(self.ch_params.len() == 1, "channels");
        let p = &self.ch_params[0];
        {
            use OperatingMode::*;
            assert!(code!(p.operating_mode, Disabled = 0, RS232 = 1, RS485 = 2, RS422 = 3) == d[1], "operating mode");
        }
        {
            use BaudRate::*;
            let b = code!(p.baud_rate, Baud_300 = 0, Baud_600 = 1, Baud_1200 = 2, Baud_2400 = 3, Baud_4800 = 4,
                Baud_9600 = 5, Baud_14400 = 6, Baud_19200 = 7, Baud_28800 = 8, Baud_38400 = 9, Baud_57600 = 10,
                Baud_115200 = 11);
            assert!(b == d[2], "baud rate");
        }
        assert!(code!(p.stop_bit, StopBit::OneBit = 0, StopBit::TwoBits = 1) == d[3], "stop bits");
        assert!(code!(p.parity, Parity::None = 0, Parity::Even = 1, Parity::Odd = 2) == d[4], "parity");
        assert!(
            code!(p.flow_control, FlowControl::None = 0, FlowControl::CTS_RTS = 1, FlowControl::XON_XOFF = 2) == d[5],
            "flow control"
        );
        assert!(code!(p.data_bits, DataBits::SevenBits = 0, DataBits::EightBits = 1) == d[6], "data bits");
        assert!(p.terminating_resistor as u16 == d[7], "terminating resistor");
        assert!(p.XON_char as u32 == d[8] as u32, "XON character");
        assert!(p.XOFF_char as u32 == d[9] as u32, "XOFF character");
    }
}

/// registers in `0..N`, by loops of few iterations
fn valid<const N: usize, B: Block<N>>(d: &[u16; N]) -> bool {
    let mut ok = true;
    for a in 0..4 {
        for b in 0..3 {
            for c in 0..3 {
                let i = 9 * a + 3 * b + c;
                if i < N {
                    ok &= (d[i] as u32) < B::bound(i);
                }
            }
        }
    }
    ok
}

/// arbitrary registers; when searching, codes are mostly defined
fn registers<const N: usize, B: Block<N>>() -> [u16; N] {
    let mut d: [u16; N] = nd::u16s();
    if nd::steered() && nd::upto(5) > 0 {
        for i in 0..N {
            if nd::upto(99) > 0 {
                d[i] = (d[i] as u32 % B::bound(i)) as u16;
            }
        }
    }
    d
}

fn judge<const N: usize, B: Block<N>>(r: Result<B, Error>, d: &[u16; N], valid: bool) {
    match &r {
        Ok(m) => {
            assert!(valid, "an undefined code is accepted");
            m.holds(d);
        }
        Err(e) => {
            assert!(!valid, "a valid configuration is rejected");
            assert!(matches!(e, Error::ChannelParameter), "error of an undefined code");
        }
    }
    nd::forget(r);
}

/// all register contents
fn full<const N: usize, B: Block<N>>() {
    let d = registers::<N, B>();
    let r = B::from_modbus_parameter_data(&d);
    judge(r, &d, valid::<N, B>(&d));
}

/// substitute values are checked on their own
fn full_ao<const N: usize, B: Block<N>>(each: usize) {
    let mut d = registers::<N, B>();
    if !nd::steered() {
        for c in 0..4 {
            d[each * c + 2] = 0;
        }
    }
    let r = B::from_modbus_parameter_data(&d);
    judge(r, &d, valid::<N, B>(&d));
}

/// too few registers, and registers beyond the block
fn lengths<const N: usize, const MORE: usize, B: Block<N>>() {
    let mut d = [0u16; MORE];
    for i in N..MORE {
        d[i] = nd::u16();
    }
    let len = nd::upto(MORE);
    let r = B::from_modbus_parameter_data(&d[..len]);
    match &r {
        Ok(m) => {
            assert!(len >= N, "too few registers are accepted");
            m.holds(&[0; N]);
        }
        Err(e) => {
            assert!(len < N, "surplus registers are not ignored");
            assert!(matches!(e, Error::BufferLength), "error of too few registers");
        }
    }
    nd::forget(r);
}

fn substitute<const N: usize, B: Block<N>>(each: usize, ch: usize, range: u16, f: u16, get: fn(&B) -> (f32, f32)) {
    let mut d = [0u16; N];
    let raw = nd::u16();
    d[each * ch] = f;
    d[each * ch + 1] = range;
    d[each * ch + 2] = raw;
    let other = 3 - ch;
    d[each * other + 1] = 2;
    d[each * other] = 1;
    d[each * other + 2] = 0x6C00;
    let r = B::from_modbus_parameter_data(&d);
    match &r {
        Ok(m) => {
            let (v, w) = get(m);
            let span = match range {
                0 => AnalogUIRange::mA0To20,
                1 => AnalogUIRange::mA4To20,
                2 => AnalogUIRange::V0To10,
                3 => AnalogUIRange::VMinus10To10,
                4 => AnalogUIRange::V0To5,
                5 => AnalogUIRange::VMinus5To5,
                6 => AnalogUIRange::V1To5,
                _ => AnalogUIRange::V2To10,
            }
            .span()
            .unwrap();
            let n = nominal(if f == 0 { &DataFormat::S5 } else { &DataFormat::S7 });
            assert!(is_scaled(v, raw as i16 as i64, span, n), "substitute value");
            assert!(w == 10.0, "substitute value of another channel");
        }
        Err(_) => panic!("a valid configuration is rejected"),
    }
    nd::forget(r);
}

/// any content of any length: the registers of the block decide
fn any_length<const N: usize, B: Block<N>>() {
    let mut d = registers::<N, B>().to_vec();
    let len = nd::count(N + 80, 700);
    while d.len() < len {
        d.push(nd::u16());
    }
    d.truncate(len);
    let r = B::from_modbus_parameter_data(&d);
    if len < N {
        assert!(matches!(r, Err(Error::BufferLength)), "too few registers are accepted");
    } else {
        let block: [u16; N] = std::array::from_fn(|i| d[i]);
        judge(r, &block, valid::<N, B>(&block));
    }
}

macro_rules! blocks {
    ($($full:ident, $len:ident, $m:ty, $n:literal, $more:literal, $u:literal;)*) => {
        harnesses! {
            $(
                #[kani::unwind($u)]
                fn $full() { full::<$n, $m>(); }
                #[kani::unwind($u)]
                fn $len() { lengths::<$n, $more, $m>(); }
            )*
        }
        #[cfg(not(kani))]
        pub const ANY_LENGTH: &[fn()] = &[$( any_length::<$n, $m> ),*];
    };
}

pub mod plain {
    use super::*;
    blocks! {
        c14_4di, c14_len_4di, ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>, 4, 6, 5;
        c14_8di, c14_len_8di, ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>, 8, 10, 9;
        c14_4do, c14_len_4do, ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>, 4, 6, 5;
        c14_4do2a, c14_len_4do2a, ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>, 4, 6, 5;
        c14_8do, c14_len_8do, ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>, 8, 10, 9;
        c14_4ro, c14_len_4ro, ur20_4ro_co_255::Mod, 4, 6, 5;
        c14_rtd, c14_len_rtd, ur20_4ai_rtd_diag::Mod, 29, 31, 5;
        c14_tc, c14_len_tc, ur20_4ai_tc_diag::Mod, 29, 31, 5;
        c14_diag, c14_len_diag, ur20_4ai_ui_16_diag::Mod, 21, 23, 5;
        c14_ai16, c14_len_ai16, ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>, 9, 11, 5;
        c14_ai12, c14_len_ai12, ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>, 9, 11, 5;
        c14_8ai, c14_len_8ai, ur20_8ai_i_16_diag_hd::Mod, 33, 35, 9;
        c14_fcnt, c14_len_fcnt, ur20_2fcnt_100::Mod, 2, 4, 5;
        c14_com, c14_len_com, ur20_1com_232_485_422::Mod, 10, 12, 5;
    }
}

type Ao = ur20_4ao_ui_16::Mod;
type Aod = ur20_4ao_ui_16_diag::Mod;

macro_rules! substitutes {
    ($($ao:ident, $aod:ident, $range:literal, $f:literal;)*) => {
        harnesses! {
            $(
                #[kani::unwind(5)]
                fn $ao() {
                    substitute::<12, Ao>(3, $range % 4, $range, $f, |m| {
                        (m.ch_params[$range % 4].substitute_value, m.ch_params[3 - $range % 4].substitute_value)
                    });
                }
                #[kani::unwind(5)]
                fn $aod() {
                    substitute::<16, Aod>(4, 3 - $range % 4, $range, $f, |m| {
                        (m.ch_params[3 - $range % 4].substitute_value, m.ch_params[$range % 4].substitute_value)
                    });
                }
            )*
        }
    };
}

pub mod subst {
    use super::*;
    substitutes! {
        c14_ao_subst_0_s5, c14_aod_subst_0_s5, 0, 0;
        c14_ao_subst_1_s5, c14_aod_subst_1_s5, 1, 0;
        c14_ao_subst_2_s5, c14_aod_subst_2_s5, 2, 0;
        c14_ao_subst_3_s5, c14_aod_subst_3_s5, 3, 0;
        c14_ao_subst_4_s5, c14_aod_subst_4_s5, 4, 0;
        c14_ao_subst_5_s5, c14_aod_subst_5_s5, 5, 0;
        c14_ao_subst_6_s5, c14_aod_subst_6_s5, 6, 0;
        c14_ao_subst_7_s5, c14_aod_subst_7_s5, 7, 0;
        c14_ao_subst_0_s7, c14_aod_subst_0_s7, 0, 1;
        c14_ao_subst_1_s7, c14_aod_subst_1_s7, 1, 1;
        c14_ao_subst_2_s7, c14_aod_subst_2_s7, 2, 1;
        c14_ao_subst_3_s7, c14_aod_subst_3_s7, 3, 1;
        c14_ao_subst_4_s7, c14_aod_subst_4_s7, 4, 1;
        c14_ao_subst_5_s7, c14_aod_subst_5_s7, 5, 1;
        c14_ao_subst_6_s7, c14_aod_subst_6_s7, 6, 1;
        c14_ao_subst_7_s7, c14_aod_subst_7_s7, 7, 1;
    }
}

/// modules without parameters take an empty block only
fn empty<B: FromModbusParameterData + ProcessModbusTcpData>() {
    let d: [u16; 3] = nd::u16s();
    let len = nd::upto(3);
    let r = B::from_modbus_parameter_data(&d[..len]);
    match &r {
        Ok(_) => assert!(len == 0, "parameters are accepted"),
        Err(e) => assert!(len > 0 && matches!(e, Error::BufferLength), "error of surplus registers"),
    }
    nd::forget(r);
}

harnesses! {
    #[kani::unwind(5)]
    fn c14_ao() { full_ao::<12, Ao>(3); }
    #[kani::unwind(5)]
    fn c14_aod() { full_ao::<16, Aod>(4); }
    #[kani::unwind(5)]
    fn c14_len_ao() { lengths::<12, 14, Ao>(); }
    #[kani::unwind(5)]
    fn c14_len_aod() { lengths::<16, 18, Aod>(); }
    #[kani::unwind(5)]
    fn c14_16do() { empty::<ur20_16do_p::Mod>(); }
    #[kani::unwind(5)]
    fn c14_sil() { empty::<ur20_pf_o_1di_sil::Mod>(); }
}

searches! {
    fn c14_any_length() {
        plain::ANY_LENGTH[nd::upto(plain::ANY_LENGTH.len() - 1)]();
    }
}
