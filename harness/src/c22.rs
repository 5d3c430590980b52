//! C22 a coupler is built exactly from its configuration

use crate::nd;
use crate::spec::SUPPORTED;
use ur20::ModuleType::*;
use ur20::ur20_fbc_mod_tcp::{Coupler, CouplerConfig};
use ur20::{Address, ChannelValue, Error};

/// number of parameter blocks and offsets
fn lengths(modules: usize, params: usize, offsets: usize) {
    let cfg = CouplerConfig {
        modules: vec![UR20_PF_O_1DI_SIL; modules],
        offsets: vec![0xffff; offsets],
        params: vec![vec![]; params],
    };
    let r = Coupler::new(&cfg);
    match &r {
        Ok(_) => assert!(params == modules && offsets == 2 * modules, "a configuration that does not fit is accepted"),
        Err(e) => {
            if params != modules {
                assert!(matches!(e, Error::BufferLength | Error::ModuleOffset), "error kind");
            } else {
                assert!(offsets != 2 * modules, "a configuration that fits is rejected");
                assert!(matches!(e, Error::ModuleOffset), "error kind");
            }
        }
    }
    nd::forget(r);
    nd::forget(cfg);
}

/// A module of kind `k` in a slot, the safety module in the other. `bad`: a
/// register of the block that holds an undefined code.
fn slot(k: usize, channels: usize, first: bool, bad: Option<usize>) {
    let mut p = vec![0; SUPPORTED[k].1 as usize];
    if let Some(i) = bad {
        p[i] = 40;
    }
    let t = SUPPORTED[k].0.clone();
    let (i, o) = (if first { 0 } else { 1 }, if first { 1 } else { 0 });
    let cfg = CouplerConfig {
        modules: if first { vec![t, UR20_PF_O_1DI_SIL] } else { vec![UR20_PF_O_1DI_SIL, t] },
        offsets: vec![0xffff; 4],
        params: if first { vec![p, vec![]] } else { vec![vec![], p] },
    };
    let mut r = Coupler::new(&cfg);
    match &mut r {
        Ok(c) => {
            assert!(bad.is_none(), "an invalid parameter block is accepted");
            // the type shows in the channels of the slot
            let n = nd::u8() as usize;
            let w = c.set_output(&Address { module: i, channel: n }, ChannelValue::Bit(true));
            assert!(w.is_ok() == (n < channels), "channels of the slot");
            assert!(c.set_output(&Address { module: o, channel: 0 }, ChannelValue::Bit(true)).is_err(), "channels of the other slot");
            assert!(c.reader(i).is_some() == (k == 16), "data stream of a serial module");
            assert!(c.writer(o).is_none(), "data stream of another module");
        }
        Err(e) => {
            assert!(bad.is_some(), "a valid configuration is rejected");
            assert!(matches!(e, Error::ChannelParameter), "error kind");
        }
    }
    nd::forget(r);
    nd::forget(cfg);
}

harnesses! {
    #[kani::unwind(6)]
    fn c22_lengths_0() {
        lengths(0, 0, 0);
        lengths(0, 1, 0);
        lengths(0, 0, 1);
        lengths(0, 0, 2);
    }
    #[kani::unwind(6)]
    fn c22_lengths_1() {
        lengths(1, 1, 2);
        lengths(1, 0, 2);
        lengths(1, 2, 2);
        lengths(1, 1, 0);
        lengths(1, 1, 1);
        lengths(1, 1, 3);
        lengths(1, 1, 4);
    }
    #[kani::unwind(6)]
    fn c22_lengths_2() {
        lengths(2, 2, 4);
        lengths(2, 1, 4);
        lengths(2, 3, 4);
        lengths(2, 2, 2);
        lengths(2, 2, 3);
        lengths(2, 2, 5);
        lengths(2, 3, 5);
    }
    #[kani::unwind(36)]
    fn c22_digital() {
        slot(0, 4, true, None);
        slot(1, 8, false, None);
        slot(2, 4, false, None);
        slot(3, 4, true, None);
        slot(4, 8, true, None);
        slot(5, 16, false, None);
        slot(6, 4, true, None);
    }
    #[kani::unwind(36)]
    fn c22_analog() {
        slot(7, 4, true, None);
        slot(8, 4, false, None);
        slot(11, 4, false, None);
        slot(12, 4, true, None);
        slot(13, 4, false, None);
        slot(14, 8, true, None);
    }
    #[kani::unwind(36)]
    fn c22_other() {
        slot(9, 4, true, None);
        slot(10, 4, false, None);
        slot(15, 2, true, None);
        slot(16, 1, false, None);
        slot(16, 1, true, None);
    }
    #[kani::unwind(36)]
    fn c22_invalid_digital() {
        slot(0, 4, false, Some(3));
        slot(1, 8, true, Some(7));
        slot(2, 4, true, Some(0));
        slot(3, 4, false, Some(3));
        slot(4, 8, false, Some(7));
        slot(6, 4, false, Some(1));
    }
    #[kani::unwind(36)]
    fn c22_invalid_analog() {
        slot(7, 4, false, Some(10));
        slot(8, 4, true, Some(15));
        slot(11, 4, true, Some(20));
        slot(12, 4, false, Some(7));
        slot(13, 4, true, Some(8));
        slot(14, 8, false, Some(32));
    }
    #[kani::unwind(36)]
    fn c22_invalid_other() {
        slot(9, 4, false, Some(22));
        slot(10, 4, true, Some(23));
        slot(15, 2, false, Some(1));
        slot(16, 1, true, Some(2));
    }
    // every slot has its own parameters and its own offsets
    #[kani::unwind(14)]
    fn c22_routing_ai() {
        // 0..20 mA and -10..10 V; the first module comes second in the image
        let cfg = CouplerConfig {
            modules: vec![UR20_4AI_UI_16, UR20_4AI_UI_12],
            offsets: vec![0xffff, 64, 0xffff, 0],
            params: vec![vec![0, 1, 0, 1, 0, 1, 0, 1, 8], vec![0, 1, 8, 1, 3, 1, 3, 1, 3]],
        };
        let mut r = Coupler::new(&cfg);
        match &mut r {
            Ok(c) => {
                let w = c.next(&[0x6c00, 0x6c00, 0, 0x9400, 0x6c00, 0x3600, 0, 0x6c00], &[]);
                assert!(w.is_ok(), "a cycle fails");
                let v = c.inputs();
                assert!(v.len() == 2 && v[0].len() == 4 && v[1].len() == 4, "shape");
                decimal(&v[0][0], 20.0);
                decimal(&v[0][1], 10.0);
                decimal(&v[0][2], 0.0);
                assert!(matches!(v[0][3], ChannelValue::Disabled), "disabled in the first slot");
                assert!(matches!(v[1][0], ChannelValue::Disabled), "disabled in the second slot");
                decimal(&v[1][1], 10.0);
                decimal(&v[1][2], 0.0);
                decimal(&v[1][3], -10.0);
                nd::forget(w);
            }
            Err(_) => panic!("a valid configuration is rejected"),
        }
        nd::forget(r);
        nd::forget(cfg);
    }
    #[kani::unwind(12)]
    fn c22_routing_digital() {
        let cfg = CouplerConfig {
            modules: vec![UR20_4DI_P, UR20_8DI_P_2W],
            offsets: vec![0xffff, 8, 0xffff, 0],
            params: vec![vec![0; 4], vec![0; 8]],
        };
        let a = nd::u16();
        let mut r = Coupler::new(&cfg);
        match &mut r {
            Ok(c) => {
                let w = c.next(&[a], &[]);
                assert!(w.is_ok(), "a cycle fails");
                let v = c.inputs();
                assert!(v.len() == 2 && v[0].len() == 4 && v[1].len() == 8, "shape");
                for i in 0..4 {
                    assert!(matches!(v[0][i], ChannelValue::Bit(b) if b == (a & 1 << (8 + i) != 0)), "first slot");
                }
                for i in 0..8 {
                    assert!(matches!(v[1][i], ChannelValue::Bit(b) if b == (a & 1 << i != 0)), "second slot");
                }
                nd::forget(w);
            }
            Err(_) => panic!("a valid configuration is rejected"),
        }
        nd::forget(r);
        nd::forget(cfg);
    }
}

fn decimal(v: &ChannelValue, x: f32) {
    match v {
        ChannelValue::Decimal32(d) => assert!(*d == x, "value"),
        _ => panic!("value kind"),
    }
}

#[cfg(not(kani))]
mod search {
    use super::*;
    use crate::world::*;

    /// what every module reports is what a module of that type with the slot's
    /// parameters makes of the slot's bytes
    pub fn c22_world() {
        let w = World::any(10, true);
        let mut c = w.coupler();
        let (i, mut o) = w.images();
        for s in &w.slots {
            if s.kind == COM {
                o[s.out.unwrap()] &= 0x7f;
            }
        }
        if let Err(e) = c.next(&words(&i), &words(&o)) {
            panic!("a cycle fails: {e:?}");
        }
        for (n, s) in w.slots.iter().enumerate() {
            let m = match make(s.kind, &s.params) {
                Ok(m) => m,
                Err(e) => panic!("a valid block is rejected: {e:?}"),
            };
            assert!(c.reader(n).is_some() == (s.kind == COM), "data stream");
            if s.kind == COM {
                continue;
            }
            if let Some(a) = s.inp {
                match m.process_input_data(&cut(&i, a, s.size().0)) {
                    Ok(v) => assert!(same(&v, &c.inputs()[n]), "inputs of the slot"),
                    Err(e) => panic!("a module fails: {e:?}"),
                }
            }
            if let Some(a) = s.out {
                match m.process_output_data(&cut(&o, a, s.size().1)) {
                    Ok(v) => assert!(same(&v, &c.outputs()[n]), "outputs of the slot"),
                    Err(e) => panic!("a module fails: {e:?}"),
                }
            }
        }
    }

    fn same(a: &[ChannelValue], b: &[ChannelValue]) -> bool {
        format!("{a:?}") == format!("{b:?}")
    }

    pub fn c22_invalid() {
        let w = World::any(10, true);
        let mut cfg = w.config();
        match nd::upto(3) {
            0 => {
                let n = nd::upto(22);
                nd::assume(n != cfg.offsets.len());
                cfg.offsets = vec![0xffff; n];
            }
            1 => {
                let n = nd::upto(11);
                nd::assume(n != cfg.params.len());
                cfg.params.resize(n, vec![]);
            }
            k => {
                nd::assume(!w.slots.is_empty());
                let n = nd::upto(w.slots.len() - 1);
                let p = &mut cfg.params[n];
                nd::assume(!p.is_empty());
                let i = nd::upto(p.len() - 1);
                if k == 2 {
                    p.truncate(i);
                } else {
                    let b = codes(w.slots[n].kind, i);
                    nd::assume(b < 65536);
                    p[i] = b as u16 + nd::upto(200) as u16;
                }
            }
        }
        assert!(Coupler::new(&cfg).is_err(), "an invalid configuration is accepted");
    }
}

#[cfg(not(kani))]
pub const SEARCHES: &[crate::Entry] = &[
    (concat!(module_path!(), "::c22_world"), false, search::c22_world),
    (concat!(module_path!(), "::c22_invalid"), false, search::c22_invalid),
];
