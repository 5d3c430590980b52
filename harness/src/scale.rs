//! Exact (integer) oracles of the documented value conversions.

use crate::nd;
use ur20::{AnalogIRange, AnalogUIRange, DataFormat};

/// Nominal register value of a data format.
pub fn nominal(f: &DataFormat) -> i64 {
    match f {
        DataFormat::S5 => 16384,
        DataFormat::S7 => 27648,
    }
}

pub fn format() -> DataFormat {
    if nd::bool() { DataFormat::S7 } else { DataFormat::S5 }
}

pub trait Scale: Sized {
    /// span and low end of a range
    fn span(&self) -> Option<(i64, i64)>;
    fn any() -> Self;
}

impl Scale for AnalogUIRange {
    fn span(&self) -> Option<(i64, i64)> {
        use AnalogUIRange::*;
        match self {
            mA0To20 => Some((20, 0)),
            mA4To20 => Some((16, 4)),
            V0To10 | VMinus10To10 => Some((10, 0)),
            V0To5 | VMinus5To5 => Some((5, 0)),
            V1To5 => Some((4, 1)),
            V2To10 => Some((8, 2)),
            Disabled => None,
        }
    }
    fn any() -> Self {
        use AnalogUIRange::*;
        match nd::upto(8) {
            0 => mA0To20,
            1 => mA4To20,
            2 => V0To10,
            3 => VMinus10To10,
            4 => V0To5,
            5 => VMinus5To5,
            6 => V1To5,
            7 => V2To10,
            _ => Disabled,
        }
    }
}

impl Scale for AnalogIRange {
    fn span(&self) -> Option<(i64, i64)> {
        match self {
            AnalogIRange::mA0To20 => Some((20, 0)),
            AnalogIRange::mA4To20 => Some((16, 4)),
            AnalogIRange::Disabled => None,
        }
    }
    fn any() -> Self {
        match nd::upto(2) {
            0 => AnalogIRange::mA0To20,
            1 => AnalogIRange::mA4To20,
            _ => AnalogIRange::Disabled,
        }
    }
}

/// `v` is low + span * raw / nominal, but for 8 units in the last place at the
/// magnitude of the range (2^-18).
pub fn is_scaled(v: f32, raw: i64, (span, low): (i64, i64), nominal: i64) -> bool {
    if !(v > -64.0 && v < 64.0) {
        return false;
    }
    let fixed = (v * 262_144.0) as i32 as i64;
    let exact = 262_144 * (span * raw + low * nominal);
    let diff = fixed * nominal - exact;
    diff <= 9 * nominal && diff >= -9 * nominal
}

/// Raw values that distinguish sign, end of scale and bit positions.
pub fn sample() -> u16 {
    match nd::upto(7) {
        0 => 0,
        1 => 1,
        2 => 0x6C00,
        3 => 0x4000,
        4 => 0x9400,
        5 => 0xFFFF,
        6 => 0x8000,
        _ => 0x1234,
    }
}

/// `raw` is the register value nearest to nominal * (v - low) / span (to single
/// precision accuracy), saturated to 16 bits; zero for not-a-number.
pub fn is_nearest(raw: u16, v: f32, (span, low): (i64, i64), nominal: i64) -> bool {
    let r = raw as i16 as i64;
    if v != v {
        return r == 0;
    }
    if v >= 64.0 {
        return r == 32767;
    }
    if v <= -64.0 {
        return r == -32768;
    }
    let unit = span * 262_144;
    let fixed = (v * 262_144.0) as i32 as i64;
    let mut exact = nominal * (fixed - low * 262_144);
    if exact > 32767 * unit {
        exact = 32767 * unit;
    }
    if exact < -32768 * unit {
        exact = -32768 * unit;
    }
    let diff = r * unit - exact;
    let most = 147_000 * span; // 0.56 of a unit
    diff <= most && diff >= -most
}
