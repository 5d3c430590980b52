//! C16 bit addresses and module offsets

use crate::nd;
use ur20::ur20_fbc_mod_tcp::{offsets_of_process_data, to_bit_address, to_register_address};

harnesses! {
    // split and merge are inverse
    fn c16_split_merge() {
        let a = nd::u16();
        let (reg, bit) = to_register_address(a);
        assert!(reg == a / 16 && bit == (a % 16) as usize, "register and bit of an address");
        assert!(to_bit_address(reg, bit) == a, "split, then merge");
    }

    fn c16_merge_split() {
        let (reg, bit) = (nd::u16(), nd::upto(15));
        nd::assume(reg < 4096);
        let a = to_bit_address(reg, bit);
        assert!(a as usize == reg as usize * 16 + bit, "bit address");
        assert!(to_register_address(a) == (reg, bit), "merge, then split");
    }

    // pairs (output, input), 0xFFFF means none, a trailing single word is ignored
    #[kani::unwind(9)]
    fn c16_offsets() { offsets::<7>(); }
}

searches! {
    fn c16_long_offsets() { offsets::<201>(); }
}

fn offsets<const N: usize>() {
    let d: [u16; N] = nd::u16s();
    let len = nd::upto(N);
    let o = offsets_of_process_data(&d[..len]);
    assert!(o.len() == len / 2, "one entry per pair");
    for i in 0..len / 2 {
        let some = |w: u16| if w == 0xffff { None } else { Some(w) };
        assert!(o[i].output == some(d[2 * i]), "output offset");
        assert!(o[i].input == some(d[2 * i + 1]), "input offset");
    }
    nd::forget(o);
}
