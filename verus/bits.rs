// Single bits of registers.
//@subst \butil:: => super::
verus! {

/// bit `i` of a register
pub open spec fn bit(w: u16, i: int) -> bool { (w & (1u16 << (i as u16))) != 0 }

//@fn src/util.rs - :: bit_mask
//@ params bit
//@  requires bit < 16
//@  ensures r == 1usize << bit, r as u16 == 1u16 << (bit as u16), bit < 8 ==> r as u8 == 1u8 << (bit as u8)
//@ start
//@   proof {
//@     assert((1usize << bit) as u16 == 1u16 << (bit as u16)) by (bit_vector) requires bit < 16;
//@     assert(bit < 8 ==> (1usize << bit) as u8 == 1u8 << (bit as u8)) by (bit_vector);
//@   }
//@end

//@fn src/util.rs - :: test_bit_16
//@ params val bit_nr
//@  requires bit_nr < 16
//@  ensures r == bit(val, bit_nr as int)
//@ start
//@   proof {
//@     let n = bit_nr as u16;
//@     assert(n < 16 ==> ((val & (1u16 << n)) == (1u16 << n)) == (val & (1u16 << n) != 0)) by (bit_vector);
//@     assert(n < 16 ==> ((val >> n) & 1 == 1) == (val & (1u16 << n) != 0)) by (bit_vector);
//@     assert(n < 16 ==> ((val >> n) % 2 == 1) == (val & (1u16 << n) != 0)) by (bit_vector);
//@     assert(n < 16 ==> ((val >> n) & 1 == 0) == (val & (1u16 << n) == 0)) by (bit_vector);
//@   }
//@end

//@fn src/util.rs - :: test_bit
//@ params val bit_nr
//@  requires bit_nr < 8
//@  ensures r == bit(val as u16, bit_nr as int)
//@end

//@fn src/util.rs - :: set_bit_16
//@ params val bit_nr
//@  requires bit_nr < 16
//@  ensures r == val | (1u16 << (bit_nr as u16))
//@end

//@fn src/util.rs - :: set_bit
//@ params val bit_nr
//@  requires bit_nr < 8
//@  ensures r == val | (1u8 << (bit_nr as u8))
//@end

} // verus!
