//! C20 validation of writes, shape of the values

use crate::nd;
use crate::spec::SUPPORTED;
use ur20::ModuleType::*;
use ur20::ur20_fbc_mod_tcp::{Coupler, CouplerConfig};
use ur20::{Address, ChannelValue, Error, ModuleType};

fn coupler(cfg: &CouplerConfig) -> Coupler {
    match Coupler::new(cfg) {
        Ok(c) => c,
        Err(_) => panic!("a valid configuration is rejected"),
    }
}

/// accepted exactly when the channel exists
fn write(c: &mut Coupler, channels: &[usize], a: Address) -> bool {
    let r = c.set_output(&a, ChannelValue::Bit(true));
    let mut valid = false;
    for m in 0..channels.len() {
        valid |= a.module == m && a.channel < channels[m];
    }
    match &r {
        Ok(()) => assert!(valid, "a wrong address is accepted"),
        Err(e) => {
            assert!(!valid, "an existing channel is rejected");
            assert!(matches!(e, Error::Address), "error kind");
        }
    }
    nd::forget(r);
    valid
}

fn config(kind: usize) -> CouplerConfig {
    let p = vec![0; SUPPORTED[kind].1 as usize];
    let o = [0, 0, 1, 1, 1, 2, 1, 8, 8, 0, 0, 0, 0, 0, 0, 12, 8, 0][kind];
    let i = [1, 1, 0, 0, 0, 0, 0, 0, 0, 8, 8, 8, 8, 8, 16, 20, 8, 4][kind];
    CouplerConfig {
        modules: vec![SUPPORTED[kind].0.clone()],
        offsets: vec![if o > 0 { 0x8000 } else { 0xffff }, if i > 0 { 0 } else { 0xffff }],
        params: vec![p],
    }
}

/// every address of a coupler with one module
fn addresses(kind: usize, channels: usize) {
    let cfg = config(kind);
    let mut c = coupler(&cfg);
    let a = Address { module: nd::u16() as usize, channel: nd::u16() as usize };
    write(&mut c, &[channels], a);
    nd::forget(c);
    nd::forget(cfg);
}

/// one entry per module, one value per channel
fn shape(c: &Coupler, values: &[(usize, usize)]) {
    assert!(c.inputs().len() == values.len(), "one entry of inputs per module");
    assert!(c.outputs().len() == values.len(), "one entry of outputs per module");
    for m in 0..values.len() {
        assert!(c.inputs()[m].len() == values[m].0, "one input value per channel");
        assert!(c.outputs()[m].len() == values[m].1, "one output value per channel");
    }
}

fn shaped(module: ModuleType, i: &[u16], o: &[u16], params: usize, values: (usize, usize)) {
    let cfg = CouplerConfig {
        modules: vec![module],
        offsets: vec![if o.is_empty() { 0xffff } else { 0x8000 }, if i.is_empty() { 0xffff } else { 0 }],
        params: vec![vec![0; params]],
    };
    let mut c = coupler(&cfg);
    let r = c.next(i, o);
    assert!(r.is_ok(), "a cycle fails");
    shape(&c, &[values]);
    nd::forget(r);
    nd::forget(c);
    nd::forget(cfg);
}

harnesses! {
    #[kani::unwind(40)]
    fn c20_addresses_digital() {
        addresses(0, 4);
        addresses(1, 8);
        addresses(2, 4);
        addresses(3, 4);
        addresses(4, 8);
        addresses(5, 16);
        addresses(6, 4);
    }
    #[kani::unwind(40)]
    fn c20_addresses_analog() {
        addresses(7, 4);
        addresses(8, 4);
        addresses(11, 4);
        addresses(12, 4);
        addresses(13, 4);
        addresses(14, 8);
    }
    #[kani::unwind(40)]
    fn c20_addresses_other() {
        addresses(9, 4);
        addresses(10, 4);
        addresses(15, 2);
        addresses(16, 1);
        addresses(17, 0);
    }
    #[kani::unwind(10)]
    fn c20_addresses_list() {
        let cfg = CouplerConfig {
            modules: vec![UR20_8DI_P_2W, UR20_PF_O_1DI_SIL, UR20_4DO_P],
            offsets: vec![0xffff, 0, 0xffff, 16, 0x8000, 0xffff],
            params: vec![vec![0; 8], vec![], vec![0; 4]],
        };
        let mut c = coupler(&cfg);
        let a = Address { module: nd::u16() as usize, channel: nd::u16() as usize };
        write(&mut c, &[8, 0, 4], a);
        nd::forget(c);
        nd::forget(cfg);
    }
    // a rejected write has no effect
    #[kani::unwind(6)]
    fn c20_rejected() {
        let cfg = CouplerConfig { modules: vec![UR20_4DO_P], offsets: vec![0x8000, 0xffff], params: vec![vec![0; 4]] };
        let mut c = coupler(&cfg);
        let a = nd::u16();
        write(&mut c, &[4], Address { module: 0, channel: 4 });
        write(&mut c, &[4], Address { module: 1, channel: 1 });
        let r = c.next(&[], &[a]);
        match &r {
            Ok(w) => assert!(w.len() == 1 && w[0] == a & 15, "the image without a write"),
            Err(_) => panic!("a cycle fails"),
        }
        nd::forget(r);
        nd::forget(c);
        nd::forget(cfg);
    }
    #[kani::unwind(6)]
    fn c20_shape_4di() { shaped(UR20_4DI_P, &[nd::u16()], &[], 4, (4, 4)); }
    #[kani::unwind(6)]
    fn c20_shape_4do() { shaped(UR20_4DO_P, &[], &[nd::u16()], 4, (4, 4)); }
    #[kani::unwind(34)]
    fn c20_shape_8ai() {
        let i: [u16; 8] = nd::u16s();
        shaped(UR20_8AI_I_16_DIAG_HD, &i, &[], 33, (8, 8));
    }
    #[kani::unwind(22)]
    fn c20_shape_fcnt() {
        let i: [u16; 10] = nd::u16s();
        shaped(UR20_2FCNT_100, &i, &[0, 0, 0, 0, 0, 0], 2, (2, 2));
    }
    #[kani::unwind(10)]
    fn c20_shape_com() { shaped(UR20_1COM_232_485_422, &[0x0100, nd::u16(), 0, 0], &[0, 0, 0, 0], 10, (1, 1)); }
    // the status record of the safety module
    #[kani::unwind(6)]
    fn c20_shape_sil() { shaped(UR20_PF_O_1DI_SIL, &[nd::u16(), nd::u16()], &[], 0, (1, 0)); }
}

#[cfg(not(kani))]
mod search {
    use super::*;
    use crate::world::*;

    /// any number of writes before a cycle
    pub fn c20_many() {
        let w = World::any(6, true);
        let mut c = w.coupler();
        let channels: Vec<usize> = w.slots.iter().map(|s| CHANNELS[s.kind]).collect();
        for _ in 0..nd::count(40, 1000) {
            write(&mut c, &channels, Address { module: nd::upto(channels.len()), channel: nd::upto(17) });
        }
    }

    pub fn c20_world() {
        let w = World::any(10, true);
        let mut c = w.coupler();
        let channels: Vec<usize> = w.slots.iter().map(|s| CHANNELS[s.kind]).collect();
        for _ in 0..nd::count(4, 40) {
            for _ in 0..nd::count(3, 300) {
                let a = Address { module: nd::upto(w.slots.len().max(12)), channel: nd::upto(17) };
                let input = a.module < w.slots.len() && w.slots[a.module].out.is_none();
                if input || !channels.get(a.module).is_some_and(|n| a.channel < *n) {
                    write(&mut c, &channels, a);
                }
            }
            let (i, mut o) = w.images();
            for s in &w.slots {
                if s.kind == COM {
                    // counters within reach of the module
                    o[s.out.unwrap()] &= 0x7f;
                }
            }
            match c.next(&words(&i), &words(&o)) {
                Ok(r) => assert!(r.len() == w.out_bytes.div_ceil(2), "size of the image"),
                Err(e) => panic!("a cycle fails: {e:?}"),
            }
            let values: Vec<(usize, usize)> =
                w.slots.iter().map(|s| if s.kind == SIL { (1, 0) } else { (CHANNELS[s.kind], CHANNELS[s.kind]) }).collect();
            shape(&c, &values);
        }
    }
}

#[cfg(not(kani))]
pub const SEARCHES: &[crate::Entry] = &[
    (concat!(module_path!(), "::c20_world"), false, search::c20_world),
    (concat!(module_path!(), "::c20_many"), false, search::c20_many),
];
