//! C19 a cycle changes exactly the outputs that were written, once
//!
//! What a coupler of modules without a data stream keeps between cycles are
//! the pending writes: a cycle takes them all, so that cycles with writes
//! followed by one without cover every history.

use crate::nd;
use ur20::ModuleType::*;
use ur20::ur20_fbc_mod_tcp::{Coupler, CouplerConfig};
use ur20::{Address, ChannelValue};

fn coupler(cfg: &CouplerConfig) -> Coupler {
    match Coupler::new(cfg) {
        Ok(c) => c,
        Err(_) => panic!("a valid configuration is rejected"),
    }
}

fn cycle<const I: usize>(c: &mut Coupler, image: u16) -> u16 {
    let i: [u16; I] = nd::u16s();
    let r = c.next(&i, &[image]);
    let w = match &r {
        Ok(w) => {
            assert!(w.len() == 1, "size of the image");
            w[0]
        }
        Err(_) => panic!("a cycle fails"),
    };
    nd::forget(r);
    w
}

fn set(c: &mut Coupler, module: usize, channel: usize, v: bool) {
    assert!(c.set_output(&Address { module, channel }, ChannelValue::Bit(v)).is_ok(), "a valid write");
}

fn put(image: u16, bit: usize, v: bool) -> u16 {
    if v { image | 1 << bit } else { image & !(1 << bit) }
}

harnesses! {
    // any channel, and nothing in the cycle after it
    #[kani::unwind(6)]
    fn c19_once() {
        let cfg = CouplerConfig { modules: vec![UR20_4DO_P], offsets: vec![0x8000, 0xffff], params: vec![vec![0; 4]] };
        let mut c = coupler(&cfg);
        let (n, v, a, b) = (nd::upto(3), nd::bool(), nd::u16(), nd::u16());
        set(&mut c, 0, n, v);
        assert!(cycle::<0>(&mut c, a) == put(a & 15, n, v), "the image with the write");
        assert!(cycle::<0>(&mut c, b) == b & 15, "the image without a write");
        nd::forget(c);
        nd::forget(cfg);
    }
    // the last value counts, other channels keep theirs
    #[kani::unwind(6)]
    fn c19_last_write() {
        let cfg = CouplerConfig { modules: vec![UR20_4RO_CO_255], offsets: vec![0x8000, 0xffff], params: vec![vec![0; 4]] };
        let mut c = coupler(&cfg);
        let (v, w, x, a) = (nd::bool(), nd::bool(), nd::bool(), nd::u16());
        set(&mut c, 0, 3, v);
        set(&mut c, 0, 1, x);
        set(&mut c, 0, 3, w);
        assert!(cycle::<0>(&mut c, a) == put(put(a & 15, 3, w), 1, x), "the image with the last write");
        nd::forget(c);
        nd::forget(cfg);
    }
    // all channels of two modules in one register
    #[kani::unwind(6)]
    fn c19_pair() {
        let cfg = CouplerConfig {
            modules: vec![UR20_4DO_P, UR20_4DO_P_2A],
            offsets: vec![0x8000, 0xffff, 0x8008, 0xffff],
            params: vec![vec![0; 4], vec![0; 4]],
        };
        let mut c = coupler(&cfg);
        let (v, w, a) = (nd::bool(), nd::bool(), nd::u16());
        set(&mut c, 1, 1, w);
        set(&mut c, 0, 1, v);
        assert!(cycle::<0>(&mut c, a) == put(put(a & 0x0f0f, 1, v), 9, w), "the image with the writes");
        nd::forget(c);
        nd::forget(cfg);
    }
    // a write to an input module is of no effect
    #[kani::unwind(6)]
    fn c19_inputs() {
        let cfg = CouplerConfig {
            modules: vec![UR20_4DI_P, UR20_4DO_P],
            offsets: vec![0xffff, 0, 0x8000, 0xffff],
            params: vec![vec![0; 4], vec![0; 4]],
        };
        let mut c = coupler(&cfg);
        let (v, w, a) = (nd::bool(), nd::bool(), nd::u16());
        set(&mut c, 0, 2, v);
        set(&mut c, 1, 0, w);
        assert!(cycle::<1>(&mut c, a) == put(a & 15, 0, w), "the image with the writes");
        nd::forget(c);
        nd::forget(cfg);
    }
    // two cycles with writes
    #[kani::unwind(6)]
    fn c19_twice() {
        let cfg = CouplerConfig { modules: vec![UR20_4DO_P_2A], offsets: vec![0x8000, 0xffff], params: vec![vec![0; 4]] };
        let mut c = coupler(&cfg);
        let (v, w, a, b) = (nd::bool(), nd::bool(), nd::u16(), nd::u16());
        set(&mut c, 0, 0, v);
        assert!(cycle::<0>(&mut c, a) == put(a & 15, 0, v), "the image with the write");
        set(&mut c, 0, 2, w);
        assert!(cycle::<0>(&mut c, b) == put(b & 15, 2, w), "the image with the second write only");
        nd::forget(c);
        nd::forget(cfg);
    }
    #[kani::unwind(10)]
    fn c19_8do() {
        let cfg = CouplerConfig { modules: vec![UR20_8DO_P], offsets: vec![0x8000, 0xffff], params: vec![vec![0; 8]] };
        let mut c = coupler(&cfg);
        let (v, w, a) = (nd::bool(), nd::bool(), nd::u16());
        set(&mut c, 0, 7, v);
        set(&mut c, 0, 0, w);
        assert!(cycle::<0>(&mut c, a) == put(put(a & 0xff, 7, v), 0, w), "the image with the writes");
        nd::forget(c);
        nd::forget(cfg);
    }
    #[kani::unwind(18)]
    fn c19_16do() {
        let cfg = CouplerConfig { modules: vec![UR20_16DO_P], offsets: vec![0x8000, 0xffff], params: vec![vec![]] };
        let mut c = coupler(&cfg);
        let (v, a) = (nd::bool(), nd::u16());
        set(&mut c, 0, 14, v);
        assert!(cycle::<0>(&mut c, a) == put(a, 14, v), "the image with the write");
        nd::forget(c);
        nd::forget(cfg);
    }
}

#[cfg(not(kani))]
mod search {
    use super::*;
    use crate::world::*;
    use ur20::ur20_2fcnt_100::{Command, ProcessOutput};
    use std::time::Duration;

    /// what the module's bytes become when nothing is written
    fn kept(s: &Slot, b: &mut [u8]) {
        match s.kind {
            2 | 3 | 6 => b[0] &= 15,
            AO | AOD => {
                for c in 0..4 {
                    if s.ao(c).0 == 8 {
                        b[2 * c] = 0;
                        b[2 * c + 1] = 0;
                    }
                }
            }
            FCNT => {
                for c in 0..2 {
                    let x = b[9 + 2 * c];
                    b[8 + 2 * c] = 0;
                    b[9 + 2 * c] = if x & 1 != 0 { 1 } else { x & 2 };
                }
            }
            _ => {}
        }
    }

    /// a value for the channel; its bytes in the module's data
    fn write(s: &Slot, c: usize, b: &mut [u8]) -> ChannelValue {
        match s.kind {
            2..=6 => {
                let v = nd::bool();
                b[c / 8] = if v { b[c / 8] | 1 << (c % 8) } else { b[c / 8] & !(1 << (c % 8)) };
                if !v && nd::bool() { ChannelValue::Disabled } else { ChannelValue::Bit(v) }
            }
            AO | AOD => {
                let raw = nd::u16();
                let (range, format) = s.ao(c);
                if range == 8 {
                    return ChannelValue::Decimal32(nd::f32());
                }
                b[2 * c..2 * c + 2].copy_from_slice(&raw.to_le_bytes());
                let full = if format == 0 { 16384.0 } else { 27648.0 };
                let (low, span) = [(0., 20.), (4., 16.), (0., 10.), (0., 10.), (0., 5.), (0., 5.), (1., 4.), (2., 8.)][range as usize];
                ChannelValue::Decimal32((low + span * f64::from(raw as i16) / full) as f32)
            }
            FCNT => {
                let us = nd::u32() & 0x7f_ffff;
                let x = us.to_le_bytes();
                b[4 * c..4 * c + 4].copy_from_slice(&[x[2], x[3], x[0], x[1]]);
                let command = [None, Some(Command::Start), Some(Command::Stop)][nd::upto(2)].clone();
                b[8 + 2 * c] = 0;
                b[9 + 2 * c] = match command {
                    None => 0,
                    Some(Command::Start) => 1,
                    Some(Command::Stop) => 2,
                };
                ChannelValue::FcntOut(ProcessOutput { duration: Duration::from_micros(u64::from(us)), command })
            }
            _ => ChannelValue::Bit(nd::bool()),
        }
    }

    pub fn c19_world() {
        let w = World::any(8, false);
        let mut c = w.coupler();
        let some = w.slots.len().max(8);
        for _ in 0..nd::count(6, 40) {
            let (i, o) = w.images();
            let mut want = vec![0u8; w.out_bytes.next_multiple_of(2)];
            for s in &w.slots {
                if let Some(a) = s.out {
                    let n = s.size().1;
                    want[a..a + n].copy_from_slice(&o[a..a + n]);
                    kept(s, &mut want[a..a + n]);
                }
            }
            for _ in 0..nd::count(8, 500) {
                let m = nd::upto(some);
                let ch = nd::upto(16);
                let valid = m < w.slots.len() && ch < CHANNELS[w.slots[m].kind];
                if !valid {
                    assert!(c.set_output(&Address { module: m, channel: ch }, ChannelValue::Bit(true)).is_err(), "a wrong address");
                    continue;
                }
                let s = &w.slots[m];
                let v = match s.out {
                    Some(a) => write(s, ch, &mut want[a..a + s.size().1]),
                    None => write(s, ch, &mut []),
                };
                assert!(c.set_output(&Address { module: m, channel: ch }, v).is_ok(), "a valid write");
            }
            match c.next(&words(&i), &words(&o)) {
                Ok(r) => assert!(r == words(&want), "the image of the cycle"),
                Err(e) => panic!("a cycle fails: {e:?}"),
            }
        }
    }
}

#[cfg(not(kani))]
pub const SEARCHES: &[crate::Entry] = &[(concat!(module_path!(), "::c19_world"), false, search::c19_world)];
