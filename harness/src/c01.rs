//! C01 module ids and module list

use crate::{nd, spec::MODULES};
use ur20::ur20_fbc_mod_tcp::module_list_from_registers;
use ur20::{Error, ModuleType};

fn spec_of(id: u32) -> Option<&'static ModuleType> {
    let mut i = 0;
    while i < MODULES.len() {
        if MODULES[i].2 == Some(id) {
            return Some(&MODULES[i].0);
        }
        i += 1;
    }
    None
}

harnesses! {
    // every 32 bit id: accepted iff known, and then the documented type
    #[kani::unwind(65)]
    fn c01_id() {
        let id = nd::u32();
        match (ModuleType::try_from_u32(id), spec_of(id)) {
            (Ok(t), Some(s)) => assert!(t == *s, "id decodes to the wrong module type"),
            (Err(e), None) => assert!(e == Error::UnknownModule, "wrong error for an unknown id"),
            (Ok(_), None) => panic!("an unknown id is accepted"),
            (Err(_), Some(_)) => panic!("a known id is rejected"),
        }
    }

    // the known ids one by one, so that the search covers each of them
    #[kani::unwind(65)]
    fn c01_known() {
        let k = nd::upto(62);
        let m = &MODULES[k];
        if let Some(id) = m.2 {
            match ModuleType::try_from_u32(id) {
                Ok(t) => assert!(t == m.0, "id decodes to the wrong module type"),
                Err(_) => panic!("a known id is rejected"),
            }
        }
    }

    // no two ids denote the same type
    #[kani::unwind(65)]
    fn c01_injective() {
        let (a, b) = (nd::u32(), nd::u32());
        nd::assume(a != b);
        if let (Ok(x), Ok(y)) = (ModuleType::try_from_u32(a), ModuleType::try_from_u32(b)) {
            assert!(x != y, "two ids decode to one module type");
        }
    }

    // the module list: every register content of up to 3 modules
    #[kani::unwind(9)]
    fn c01_list() { list::<7>(); }
}

searches! {
    fn c01_long_list() { list::<201>(); }
}

/// the module list of up to `N` registers
fn list<const N: usize>() {
    let mut regs: [u16; N] = nd::u16s();
    let len = nd::upto(N);
    if nd::steered() {
        // mostly known ids, some with one bit changed
        for i in 0..N / 2 {
            if nd::upto(9) > 0 || N > 7 {
                let mut id = MODULES[nd::upto(62)].2.unwrap_or(0x0009_1F84);
                if nd::upto(2 * N) == 0 {
                    id ^= 1 << nd::upto(31);
                }
                regs[2 * i] = (id >> 16) as u16;
                regs[2 * i + 1] = id as u16;
            }
        }
    }
    let r = module_list_from_registers(&regs[..len]);
    if len == 0 || len % 2 == 1 {
        assert!(matches!(r, Err(Error::RegisterCount)), "odd or empty register list");
    } else {
        let mut all_known = true;
        for i in 0..len / 2 {
            let id = (regs[2 * i] as u32) * 65536 + regs[2 * i + 1] as u32;
            all_known &= ModuleType::try_from_u32(id).is_ok();
        }
        match &r {
            Ok(list) => {
                assert!(all_known, "a list with an unknown id is accepted");
                assert!(list.len() == len / 2, "one entry per module");
                for i in 0..len / 2 {
                    let id = (regs[2 * i] as u32) * 65536 + regs[2 * i + 1] as u32;
                    assert!(Ok(&list[i]) == ModuleType::try_from_u32(id).as_ref(), "slot order");
                }
            }
            Err(e) => {
                assert!(!all_known, "a list of known ids is rejected");
                assert!(matches!(e, Error::UnknownModule), "error of an unknown id");
            }
        }
    }
    nd::forget(r);
}
