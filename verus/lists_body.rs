// Contracts on the functions that decode the coupler's registers, for lists of any length.
//@include types_body
verus! {


//@const src/ur20_fbc_mod_tcp.rs ADDR_MODULE_PARAMETERS
//@item src/ur20_fbc_mod_tcp.rs struct CouplerConfig

/// high word first
pub open spec fn id_at(r: Seq<u16>, i: int) -> u32 { (r[2 * i] * 0x10000 + r[2 * i + 1]) as u32 }

pub open spec fn listed(t: Seq<ModuleType>, r: Seq<u16>, n: int) -> bool {
    &&& t.len() == n
    &&& forall|k: int| 0 <= k < n ==> #[trigger] known(id_at(r, k)) == Some(t[k])
}

//@fn src/ur20_fbc_mod_tcp.rs - :: module_list_from_registers
//@ params registers
//@  ensures
//@    registers@.len() == 0 || registers@.len() % 2 != 0 ==> r is Err,
//@    (exists|i: int| 0 <= i < registers@.len() / 2 && (#[trigger] known(id_at(registers@, i))) is None) ==> r is Err,
//@    r is Err ==> registers@.len() == 0 || registers@.len() % 2 != 0
//@      || exists|i: int| 0 <= i < registers@.len() / 2 && (#[trigger] known(id_at(registers@, i))) is None,
//@    r is Ok ==> listed(r->Ok_0@, registers@, registers@.len() as int / 2),
//@ start
//@   proof {
//@     assert forall|h: u32| h < 0x10000 implies #[trigger] (h << 16) == h * 0x10000 by { assert((h << 16) == h * 0x10000) by (bit_vector) requires h < 0x10000; }
//@     assert forall|h: u32, l: u32| h < 0x10000 && l < 0x10000 implies #[trigger] ((h << 16) | l) == h * 0x10000 + l by { assert((h << 16) | l == h * 0x10000 + l) by (bit_vector) requires h < 0x10000, l < 0x10000; }
//@   }
//@ loop 0
//@   invariant
//@     registers@.len() % 2 == 0, registers@.len() > 0,
//@     listed(list@, registers@, i as int),
//@     forall|h: u32| h < 0x10000 ==> #[trigger] (h << 16) == h * 0x10000,
//@     forall|h: u32, l: u32| h < 0x10000 && l < 0x10000 ==> #[trigger] ((h << 16) | l) == h * 0x10000 + l,
//@   enter let ghost next = known(id_at(registers@, i as int));
//@end

//@fn src/ur20_fbc_mod_tcp.rs - :: word_to_offset
//@ params word
//@  ensures r == if word == 0xFFFF { None } else { Some(word) }
//@end

/// the first `n` entries; output first, 0xFFFF means none
pub open spec fn offsets_of(o: Seq<ModuleOffset>, d: Seq<u16>, n: int) -> bool {
    &&& o.len() == n
    &&& forall|k: int| 0 <= k < n ==> {
        &&& (#[trigger] o[k]).output == if d[2 * k] == 0xFFFF { None } else { Some(d[2 * k]) }
        &&& o[k].input == if d[2 * k + 1] == 0xFFFF { None } else { Some(d[2 * k + 1]) }
    }
}

//@fn src/ur20_fbc_mod_tcp.rs - :: offsets_of_process_data
//@ params data
//@  ensures
//@    offsets_of(r@, data@, data@.len() as int / 2),
//@ loop 0
//@   invariant
//@     offsets_of(offsets@, data@, i as int),
//@end

//@fn src/ur20_fbc_mod_tcp.rs - :: to_register_address
//@ params addr
//@  ensures r.0 == addr / 16, r.1 == addr % 16
//@ start
//@   proof { assert((addr & 0xFFF0) >> 4 == addr / 16) by (bit_vector); assert(addr & 0x000F == addr % 16) by (bit_vector); }
//@end

//@fn src/ur20_fbc_mod_tcp.rs - :: to_bit_address
//@ params addr bit
//@  requires addr < 0x1000, bit < 16
//@  ensures r == 16 * addr + bit
//@ start
//@   proof { let b = bit as u16; assert((addr << 4) | b == add(mul(16, addr), b)) by (bit_vector) requires addr < 0x1000, b < 16; }
//@end

/// splitting and merging an address
pub fn split_and_merge(a: u16) {
    let (r, b) = to_register_address(a);
    let m = to_bit_address(r, b);
    assert(m == a);
}

//@fn src/ur20_fbc_mod_tcp.rs - :: param_addresses_and_register_counts
//@ params modules
//@  requires modules@.len() <= 64, forall|i: int| 0 <= i < modules@.len() ==> (#[trigger] modules@[i]).block() is Some
//@  ensures
//@    r@.len() == modules@.len(),
//@    forall|i: int| 0 <= i < modules@.len() ==> (#[trigger] r@[i]).0 == 0xC000 + 256 * i && modules@[i].block() == Some(r@[i].1),
//@ elem 0 :: (u16, u16)
//@ loop 0
//@   invariant
//@    modules@.len() <= 64, forall|i: int| 0 <= i < modules@.len() ==> (#[trigger] modules@[i]).block() is Some,
//@    out_@.len() == n_,
//@    forall|i: int| 0 <= i < n_ ==> (#[trigger] out_@[i]).0 == 0xC000 + 256 * i && modules@[i].block() == Some(out_@[i].1),
//@end

impl CouplerConfig {
//@fn src/ur20_fbc_mod_tcp.rs impl CouplerConfig :: validate
//@  requires self.modules@.len() * 2 <= usize::MAX // no vector is longer than isize::MAX bytes
//@  ensures r is Ok <==> self.params@.len() == self.modules@.len() && self.offsets@.len() == 2 * self.modules@.len()
//@end
}

} // verus!
