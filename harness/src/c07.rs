//! C07 temperature, resistance and thermocouple inputs

use crate::nd;
use crate::scale::sample;
use ur20::ur20_4ai_rtd_diag as rtd;
use ur20::ur20_4ai_tc_diag::{self as tc, MeasurementRange};
use ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData;
use ur20::{ChannelValue, Error, RtdRange};

fn rtd_range(n: usize) -> RtdRange {
    use RtdRange::*;
    match n {
        0 => PT100,
        1 => PT200,
        2 => PT500,
        3 => PT1000,
        4 => NI100,
        5 => NI120,
        6 => NI200,
        7 => NI500,
        8 => NI1000,
        9 => Cu10,
        10 => R40,
        11 => R80,
        12 => R150,
        13 => R300,
        14 => R500,
        15 => R1000,
        16 => R2000,
        17 => R4000,
        _ => Disabled,
    }
}

/// nominal resistance, and a power of two that scales its results to 24 bits
fn resistance(n: usize) -> (i64, i32) {
    match n {
        10 => (40, 65536),
        11 => (80, 32768),
        12 => (150, 16384),
        13 => (300, 8192),
        14 => (500, 8192),
        15 => (1000, 4096),
        16 => (2000, 2048),
        _ => (4000, 1024),
    }
}

/// tenths of a degree
fn is_tenths(v: f32, raw: u16) -> bool {
    if !(v > -4000.0 && v < 4000.0) {
        return false;
    }
    let diff = (v * 2048.0) as i32 * 10 - (raw as i16 as i32) * 2048;
    diff <= 20 && diff >= -20
}

fn is_resistance(v: f32, raw: u16, (n, scale): (i64, i32)) -> bool {
    if !(v >= 0.0 && v < 10_000.0) {
        return false;
    }
    let diff = (v * scale as f32) as i32 as i64 * 27648 - scale as i64 * n * raw as i64;
    diff <= 6 * 27648 && diff >= -6 * 27648
}

fn rtd_reports(v: &ChannelValue, raw: u16, range: usize) -> bool {
    match v {
        ChannelValue::Disabled => range > 17,
        ChannelValue::Decimal32(v) if range < 10 => is_tenths(*v, raw),
        ChannelValue::Decimal32(v) if range < 18 => is_resistance(*v, raw, resistance(range)),
        _ => false,
    }
}

fn rtd_convert(ch: usize, range: usize) {
    let mut m = rtd::Mod::default();
    m.ch_params[ch].measurement_range = rtd_range(range);
    let raw = nd::u16();
    let mut d = [0u16; 4];
    d[ch] = raw;
    let r = m.process_input_data(&d);
    match &r {
        Ok(v) => {
            assert!(v.len() == 4, "one value per channel");
            assert!(rtd_reports(&v[ch], raw, range), "value of the channel");
            for i in 0..4 {
                assert!(i == ch || v[i] == ChannelValue::Disabled, "channels that are not in use");
            }
        }
        Err(_) => panic!("register content is rejected"),
    }
    nd::forget(r);
    nd::forget(m);
}

fn tc_range(n: usize) -> MeasurementRange {
    use MeasurementRange::*;
    match n {
        0 => TC_Type_J,
        1 => TC_Type_K,
        2 => TC_Type_N,
        3 => TC_Type_R,
        4 => TC_Type_S,
        5 => TC_Type_T,
        6 => TC_Type_B,
        7 => TC_Type_C,
        8 => TC_Type_E,
        9 => TC_Type_L,
        10 => TC_Type_U,
        11 => uVPlusMinus15625,
        12 => uVPlusMinus31250,
        13 => uVPlusMinus62500,
        14 => mVPlusMinus125,
        15 => mVPlusMinus250,
        16 => mVPlusMinus500,
        17 => VPlusMinus1,
        18 => VPlusMinus2,
        _ => Disabled,
    }
}

/// 2^22 / full scale (in volt)
fn per_volt(n: usize) -> f32 {
    match n {
        11 => 268_435_456.0,
        12 => 134_217_728.0,
        13 => 67_108_864.0,
        14 => 33_554_432.0,
        15 => 16_777_216.0,
        16 => 8_388_608.0,
        17 => 4_194_304.0,
        _ => 2_097_152.0,
    }
}

fn is_voltage(v: f32, raw: u16, per_volt: f32) -> bool {
    let x = v * per_volt;
    if !(x > -8_000_000.0 && x < 8_000_000.0) {
        return false;
    }
    let diff = x as i32 as i64 * 32767 - 4_194_304 * (raw as i16 as i64);
    diff <= 4 * 32767 && diff >= -4 * 32767
}

fn tc_reports(v: &ChannelValue, raw: u16, range: usize) -> bool {
    match v {
        ChannelValue::Disabled => range > 18,
        ChannelValue::None => range < 11 && raw == 32767,
        ChannelValue::Decimal32(v) if range < 11 => raw != 32767 && is_tenths(*v, raw),
        ChannelValue::Decimal32(v) if range < 19 => is_voltage(*v, raw, per_volt(range)),
        _ => false,
    }
}

fn tc_convert(ch: usize, range: usize) {
    let mut m = tc::Mod::default();
    m.ch_params[ch].measurement_range = tc_range(range);
    let raw = nd::u16();
    let mut d = [0u16; 4];
    d[ch] = raw;
    let r = m.process_input_data(&d);
    match &r {
        Ok(v) => {
            assert!(v.len() == 4, "one value per channel");
            assert!(tc_reports(&v[ch], raw, range), "value of the channel");
            for i in 0..4 {
                assert!(i == ch || v[i] == ChannelValue::Disabled, "channels that are not in use");
            }
        }
        Err(_) => panic!("register content is rejected"),
    }
    nd::forget(r);
    nd::forget(m);
}

macro_rules! conversions {
    ($($n:ident: $f:ident, $ch:literal, $range:expr;)*) => {
        harnesses! { $(
            #[kani::unwind(10)]
            fn $n() { $f($ch, $range); }
        )* }
    };
}

pub mod each {
    use super::*;
    conversions! {
        c07_rtd_r40: rtd_convert, 0, 10;
        c07_rtd_r80: rtd_convert, 1, 11;
        c07_rtd_r150: rtd_convert, 2, 12;
        c07_rtd_r300: rtd_convert, 3, 13;
        c07_rtd_r500: rtd_convert, 0, 14;
        c07_rtd_r1000: rtd_convert, 1, 15;
        c07_rtd_r2000: rtd_convert, 2, 16;
        c07_rtd_r4000: rtd_convert, 3, 17;
        c07_tc_15625uv: tc_convert, 1, 11;
        c07_tc_31250uv: tc_convert, 2, 12;
        c07_tc_62500uv: tc_convert, 3, 13;
        c07_tc_125mv: tc_convert, 0, 14;
        c07_tc_250mv: tc_convert, 1, 15;
        c07_tc_500mv: tc_convert, 2, 16;
        c07_tc_1v: tc_convert, 3, 17;
        c07_tc_2v: tc_convert, 0, 18;
    }
}

harnesses! {
    // every temperature sensor
    #[kani::unwind(10)]
    fn c07_rtd_temperature_0() { rtd_convert(0, nd::upto(9)); }
    #[kani::unwind(10)]
    fn c07_rtd_temperature_3() { rtd_convert(3, nd::upto(9)); }
    #[kani::unwind(10)]
    fn c07_tc_temperature_1() { tc_convert(1, nd::upto(10)); }
    #[kani::unwind(10)]
    fn c07_tc_temperature_2() { tc_convert(2, nd::upto(10)); }

    // every setting of every channel, and raw values from a table
    #[kani::unwind(10)]
    fn c07_rtd_routing() {
        let mut m = rtd::Mod::default();
        let mut range = [0usize; 4];
        for i in 0..4 {
            range[i] = nd::upto(18);
            m.ch_params[i].measurement_range = rtd_range(range[i]);
            m.ch_params[i].channel_diagnostics = nd::bool();
            m.ch_params[i].limit_value_monitoring = nd::bool();
        }
        let d: [u16; 4] = std::array::from_fn(|_| if nd::steered() { nd::u16() } else { sample() });
        let r = m.process_input_data(&d);
        match &r {
            Ok(v) => {
                assert!(v.len() == 4, "one value per channel");
                for i in 0..4 {
                    assert!(rtd_reports(&v[i], d[i], range[i]), "value of the channel");
                }
            }
            Err(_) => panic!("register content is rejected"),
        }
        nd::forget(r);
        nd::forget(m);
    }
    #[kani::unwind(10)]
    fn c07_tc_routing() {
        let mut m = tc::Mod::default();
        let mut range = [0usize; 4];
        for i in 0..4 {
            range[i] = nd::upto(19);
            m.ch_params[i].measurement_range = tc_range(range[i]);
            m.ch_params[i].channel_diagnostics = nd::bool();
            m.ch_params[i].limit_value_monitoring = nd::bool();
        }
        let d: [u16; 4] = std::array::from_fn(|_| if nd::steered() { nd::u16() } else { sample() });
        let r = m.process_input_data(&d);
        match &r {
            Ok(v) => {
                assert!(v.len() == 4, "one value per channel");
                for i in 0..4 {
                    assert!(tc_reports(&v[i], d[i], range[i]), "value of the channel");
                }
            }
            Err(_) => panic!("register content is rejected"),
        }
        nd::forget(r);
        nd::forget(m);
    }

    // wrong numbers of registers or channels
    #[kani::unwind(10)]
    fn c07_rtd_lengths() {
        for missing in 0..2 {
            let mut m = rtd::Mod::default();
            if missing == 1 {
                m.ch_params.pop();
            }
            let d: [u16; 6] = nd::u16s();
            let len = nd::upto(6);
            let r = m.process_input_data(&d[..len]);
            match &r {
                Ok(v) => assert!(len == 4 && missing == 0 && v.len() == 4, "a wrong number is accepted"),
                Err(Error::BufferLength) => assert!(len != 4, "register count"),
                Err(Error::ChannelParameter) => assert!(missing == 1, "channel count"),
                Err(_) => panic!("error kind"),
            }
            assert!(m.process_input_byte_count() == 8 && m.process_output_byte_count() == 0, "data size");
            nd::forget(r);
            nd::forget(m);
        }
    }
    #[kani::unwind(10)]
    fn c07_tc_lengths() {
        let m = tc::Mod::default();
        let d: [u16; 6] = nd::u16s();
        let len = nd::upto(6);
        let r = m.process_input_data(&d[..len]);
        match &r {
            Ok(v) => assert!(len == 4 && v.len() == 4, "a wrong number is accepted"),
            Err(Error::BufferLength) => assert!(len != 4, "register count"),
            Err(_) => panic!("error kind"),
        }
        assert!(m.process_input_byte_count() == 8 && m.process_output_byte_count() == 0, "data size");
        nd::forget(r);
        nd::forget(m);
    }
}

searches! {
    fn c07_any_length() {
        let mut m = rtd::Mod::default();
        let missing = nd::bool();
        if missing {
            m.ch_params.pop();
        }
        let d: Vec<u16> = (0..nd::count(80, 700)).map(|_| nd::u16()).collect();
        assert!(m.process_input_data(&d).is_ok() == (d.len() == 4 && !missing), "register or channel count");
        assert!(tc::Mod::default().process_input_data(&d).is_ok() == (d.len() == 4), "register count");
    }
}
