//! Couplers of arbitrary supported modules (native searches).

use crate::nd;
use crate::spec::SUPPORTED;
use ur20::ur20_fbc_mod_tcp::{Coupler, CouplerConfig, FromModbusParameterData, ProcessModbusTcpData};
use ur20::*;

pub const DI4: usize = 0;
pub const DI8: usize = 1;
pub const DO16: usize = 5;
pub const AO: usize = 7;
pub const AOD: usize = 8;
pub const FCNT: usize = 15;
pub const COM: usize = 16;
pub const SIL: usize = 17;

pub const CHANNELS: [usize; 18] = [4, 8, 4, 4, 8, 16, 4, 4, 4, 4, 4, 4, 4, 4, 8, 2, 1, 0];
const IN_BYTES: [usize; 18] = [1, 1, 0, 0, 0, 0, 0, 0, 0, 8, 8, 8, 8, 8, 16, 20, 8, 4];
const OUT_BYTES: [usize; 18] = [0, 0, 1, 1, 1, 2, 1, 8, 8, 0, 0, 0, 0, 0, 0, 12, 8, 0];

/// register `i` of a parameter block holds a code below this
pub fn codes(kind: usize, i: usize) -> u32 {
    const ANY: u32 = 65536;
    match kind {
        0 | 1 => 6,
        2..=4 | 6 => 2,
        7 => [2, 9, ANY][i % 3],
        8 => [2, 9, ANY, 2][i % 4],
        9 | 10 if i == 0 => 3,
        9 => [19, 3, 6, 2, 2, ANY, ANY][(i - 1) % 7],
        10 => [20, 5, 6, 2, 2, ANY, ANY][(i - 1) % 7],
        11..=14 if i == 0 => 4,
        11 => [2, 2, 2, 2, 9][(i - 1) % 5],
        12 | 13 => [2, 9][(i - 1) % 2],
        14 => [2, 2, 2, 3][(i - 1) % 4],
        15 => 17,
        16 => [2, 4, 12, 2, 3, 3, 2, 2, 256, 256][i],
        _ => 0,
    }
}

pub fn make(kind: usize, p: &[u16]) -> Result<Box<dyn ProcessModbusTcpData>, Error> {
    fn boxed<M: FromModbusParameterData + ProcessModbusTcpData + 'static>(
        p: &[u16],
    ) -> Result<Box<dyn ProcessModbusTcpData>, Error> {
        Ok(Box::new(M::from_modbus_parameter_data(p)?))
    }
    match kind {
        0 => boxed::<ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>>(p),
        1 => boxed::<ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>>(p),
        2 => boxed::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>>(p),
        3 => boxed::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>>(p),
        4 => boxed::<ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>>(p),
        5 => boxed::<ur20_16do_p::Mod>(p),
        6 => boxed::<ur20_4ro_co_255::Mod>(p),
        7 => boxed::<ur20_4ao_ui_16::Mod>(p),
        8 => boxed::<ur20_4ao_ui_16_diag::Mod>(p),
        9 => boxed::<ur20_4ai_rtd_diag::Mod>(p),
        10 => boxed::<ur20_4ai_tc_diag::Mod>(p),
        11 => boxed::<ur20_4ai_ui_16_diag::Mod>(p),
        12 => boxed::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>>(p),
        13 => boxed::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>>(p),
        14 => boxed::<ur20_8ai_i_16_diag_hd::Mod>(p),
        15 => boxed::<ur20_2fcnt_100::Mod>(p),
        16 => boxed::<ur20_1com_232_485_422::Mod>(p),
        _ => boxed::<ur20_pf_o_1di_sil::Mod>(p),
    }
}

pub struct Slot {
    pub kind: usize,
    pub params: Vec<u16>,
    pub inp: Option<usize>,
    pub out: Option<usize>,
}

impl Slot {
    pub fn size(&self) -> (usize, usize) {
        let k = if self.kind == COM && self.params[0] == 1 { 2 } else { 1 };
        (k * IN_BYTES[self.kind], k * OUT_BYTES[self.kind])
    }
    /// code of the range of an analog output channel
    pub fn ao(&self, ch: usize) -> (u16, u16) {
        let n = if self.kind == AO { 3 } else { 4 };
        (self.params[n * ch + 1], self.params[n * ch])
    }
}

pub struct World {
    pub slots: Vec<Slot>,
    pub in_bytes: usize,
    pub out_bytes: usize,
}

pub fn place(end: &mut usize, size: usize) -> Option<usize> {
    if size == 0 {
        return None;
    }
    // some layouts give every module registers of its own
    if *end % 2 == 1 && nd::bool() {
        *end += 1;
    }
    let at = *end;
    *end += size;
    Some(at)
}

pub fn block(kind: usize) -> Vec<u16> {
    (0..SUPPORTED[kind].1 as usize)
        .map(|i| match codes(kind, i) {
            65536 => nd::u16(),
            n => nd::upto(n as usize - 1) as u16,
        })
        .collect()
}

impl World {
    pub fn any(max: usize, com: bool) -> World {
        let mut w = World { slots: vec![], in_bytes: 0, out_bytes: 0 };
        for _ in 0..nd::count(max, 140) {
            let kind = if com && nd::upto(3) == 0 { COM } else { nd::upto(17) };
            if kind == COM && !com {
                continue;
            }
            let mut s = Slot { kind, params: block(kind), inp: None, out: None };
            let (i, o) = s.size();
            s.inp = place(&mut w.in_bytes, i);
            s.out = place(&mut w.out_bytes, o);
            w.slots.push(s);
        }
        w
    }
    pub fn config(&self) -> CouplerConfig {
        let mut offsets = vec![];
        for s in &self.slots {
            offsets.push(s.out.map_or(0xffff, |a| 0x8000 + 8 * a as u16));
            offsets.push(s.inp.map_or(0xffff, |a| 8 * a as u16));
        }
        CouplerConfig {
            modules: self.slots.iter().map(|s| SUPPORTED[s.kind].0.clone()).collect(),
            offsets,
            params: self.slots.iter().map(|s| s.params.clone()).collect(),
        }
    }
    pub fn coupler(&self) -> Coupler {
        match Coupler::new(&self.config()) {
            Ok(c) => c,
            Err(e) => panic!("a valid configuration is rejected: {e:?}"),
        }
    }
    /// images that the modules can present
    pub fn images(&self) -> (Vec<u8>, Vec<u8>) {
        let mut i: Vec<u8> = (0..self.in_bytes + 2).map(|_| nd::u8()).collect();
        let mut o: Vec<u8> = (0..self.out_bytes + 2).map(|_| nd::u8()).collect();
        for s in &self.slots {
            if let (FCNT, Some(a)) = (s.kind, s.out) {
                // at most 23 bits of microseconds
                for c in 0..2 {
                    let us = (nd::u32() & 0x7f_ffff).to_le_bytes();
                    o[a + 4 * c] = us[2];
                    o[a + 4 * c + 1] = us[3];
                    o[a + 4 * c + 2] = us[0];
                    o[a + 4 * c + 3] = us[1];
                }
            }
            if s.kind == COM {
                let max = s.size().0 - 2;
                i[s.inp.unwrap() + 1] = nd::upto(max) as u8;
                o[s.out.unwrap() + 1] = nd::upto(max) as u8;
            }
        }
        (i, o)
    }
}

/// the registers of the `size` bytes from `at` on
pub fn cut(image: &[u8], at: usize, size: usize) -> Vec<u16> {
    words(&image[at..at + size])
}

pub fn words(b: &[u8]) -> Vec<u16> {
    (0..b.len().div_ceil(2))
        .map(|i| b[2 * i] as u16 | (if 2 * i + 1 < b.len() { b[2 * i + 1] as u16 } else { 0 }) << 8)
        .collect()
}
