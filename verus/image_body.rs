// Contracts on the functions that cut modules out of the process image.
//@subst \b(\w+)\.iter\(\)\.enumerate\(\) => enumerated(\1)
//@subst \b(self\.\w+)\.iter\(\)\.zip\(&(self\.\w+)\)\.enumerate\(\) => zipped(&\1, &\2)
//@subst &\((\w+), (\w+)\)\) in\b => (\1, \2)) in

//@include module_trait
//@include bytes

verus! {

//@const src/ur20_fbc_mod_tcp.rs ADDR_PACKED_PROCESS_INPUT_DATA
//@const src/ur20_fbc_mod_tcp.rs ADDR_PACKED_PROCESS_OUTPUT_DATA

//@fn src/ur20_fbc_mod_tcp.rs - :: to_register_address
//@ params addr
//@  ensures r.0 == addr / 16, r.1 == addr % 16, r.1 < 16
//@ start
//@   proof { assert((addr & 0xFFF0) >> 4 == addr / 16) by (bit_vector); assert(addr & 0x000F == addr % 16) by (bit_vector); }
//@end

/// the module's bytes lie in the image, on a byte boundary
pub open spec fn readable(offset: int, addr: int, n: int, data: Seq<u16>) -> bool {
    let at = 2 * (offset / 16 - addr) + (offset % 16) / 8;
    &&& offset % 8 == 0
    &&& offset / 16 >= addr
    &&& at + (if n < 2 { 1 } else { n }) <= 2 * data.len()
}

//@fn src/ur20_fbc_mod_tcp.rs - :: prepare_raw_data_to_process
//@ params offset addr byte_count data
//@  requires data@.len() < 0x10000, byte_count < 0x10000, byte_count < 2 || byte_count % 2 == 0
//@  ensures
//@    r is Ok <==> readable(offset as int, addr as int, byte_count as int, data@),
//@    r is Ok ==> holds(r->Ok_0@, data@, offset as int / 8 - 2 * addr, byte_count as int),
//@ start
//@   hide(bytes); hide(words);
//@   proof {
//@     assert forall|d: Seq<u16>, a: int, b: int| 0 <= a <= b <= d.len() implies bytes(#[trigger] d.subrange(a, b)) == bytes(d).subrange(2 * a, 2 * b) by { bytes_of_part(d, a, b); }
//@     assert forall|d: Seq<u16>| d.len() > 0 implies bytes(#[trigger] words(bytes(d).skip(1).push(0))) == bytes(d).skip(1).push(0) by { bytes_of_shifted(d); }
//@     assert forall|d: Seq<u16>| (#[trigger] bytes(d)).len() == 2 * d.len() by { reveal(bytes); }
//@     assert forall|x: u16, y: u16| cloned::<u16>(x, y) implies x == y by { }
//@     assert forall|b: Seq<u8>| (#[trigger] words(b)).len() == (b.len() + 1) / 2 by { reveal(words); }
//@   }
//@end


/// the documented addresses
pub proof fn areas() ensures ADDR_PACKED_PROCESS_INPUT_DATA == 0, ADDR_PACKED_PROCESS_OUTPUT_DATA == 0x800 { }
pub type Slot<'a> = (&'a dyn ProcessModbusTcpData, &'a ModuleOffset);

/// stands for `std::iter::Enumerate`
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Enumerated<T> { it: std::vec::IntoIter<(usize, T)> }
impl<T> Enumerated<T> { pub uninterp spec fn left(self) -> Seq<(usize, T)>; }
impl<T> Iterator for Enumerated<T> {
    type Item = (usize, T);
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(usize, T)>) { unimplemented!() }
}
impl<T> IteratorSpecImpl for Enumerated<T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<(usize, T)> { self.left() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.left().len()) }
    open spec fn peek(&self, i: int) -> Option<(usize, T)> { None }
}
/// stands for `s.iter().enumerate()`
#[verifier::external_body]
pub fn enumerated<'a, T>(s: &'a [T]) -> (r: Enumerated<&'a T>)
    ensures r.left().len() == s@.len() <= usize::MAX, forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r.left()[i]).0 == i && *r.left()[i].1 == s@[i]
{ unimplemented!() }
/// stands for `a.iter().zip(b).enumerate()`
#[verifier::external_body]
pub fn zipped<'a, T, U>(a: &'a [T], b: &'a [U]) -> (r: Enumerated<(&'a T, &'a U)>)
    ensures
        r.left().len() == if a@.len() <= b@.len() { a@.len() } else { b@.len() },
        forall|i: int| 0 <= i < r.left().len() ==> (#[trigger] r.left()[i]).0 == i && *r.left()[i].1.0 == a@[i] && *r.left()[i].1.1 == b@[i]
{ unimplemented!() }

/// first byte of a module within the output image
pub open spec fn at(o: u16) -> int { 2 * (o as int / 16 - 0x800) + (o as int % 16) / 8 }

/// the number of registers of the image of the first `k` modules; `None` if it is to be rejected
pub open spec fn layout(m: Seq<Slot>, v: Seq<Vec<ChannelValue>>, k: int) -> Option<int>
    decreases k
{
    if k <= 0 { Some(0) } else {
        match layout(m, v, k - 1) {
            None => None,
            Some(l) => match m[k - 1].1.output {
                None => Some(l),
                Some(o) => {
                    let n = m[k - 1].0.n();
                    let start = o as int / 16 - 0x800;
                    if m[k - 1].0.enc(v[k - 1]@) is None || start < 0 { None }
                    // in whole registers behind the last module
                    else if o % 16 == 0 && start == l { Some(l + (n + 1) / 2) }
                    // from the high byte of the last register on
                    else if o % 16 == 8 && start + 1 == l { Some(l + n / 2) }
                    else { None }
                }
            }
        }
    }
}
pub proof fn shared(b: u8, w: u16)
    ensures
        lo(((b as u16) << 8) | (w & 0x00FF)) == lo(w), hi(((b as u16) << 8) | (w & 0x00FF)) == b,
        lo((w & 0x00FF) | ((b as u16) << 8)) == lo(w), hi((w & 0x00FF) | ((b as u16) << 8)) == b,
{
    assert((((b as u16) << 8) | (w & 0x00FF)) == ((w & 0x00FF) | ((b as u16) << 8))) by (bit_vector);
    assert(((((b as u16) << 8) | (w & 0x00FF)) % 256) == w % 256) by (bit_vector);
    assert(((((b as u16) << 8) | (w & 0x00FF)) / 256) == b as u16) by (bit_vector);
}
pub proof fn kept(out0: Seq<u16>, out: Seq<u16>, p: Slot, v: Seq<ChannelValue>, bound: int)
    requires
        placed(out0, p, v), p.1.output is Some, out.len() >= out0.len(),
        at(p.1.output->0) + p.0.n() <= bound,
        forall|x: int| 0 <= x < bound && x < 2 * out0.len() ==> #[trigger] bytes(out)[x] == bytes(out0)[x],
    ensures placed(out, p, v)
{
    let q = p.1.output->0;
    assert forall|i: int| 0 <= i < p.0.n() implies #[trigger] coded(p, v)[i] == bytes(out)[at(q) + i] by {
        assert(coded(p, v)[i] == bytes(out0)[at(q) + i]);
    }
}
pub proof fn rejected(m: Seq<Slot>, v: Seq<Vec<ChannelValue>>, k: int, n: int)
    requires k <= n, layout(m, v, k) is None
    ensures layout(m, v, n) is None
    decreases n - k
{
    if k < n { assert(layout(m, v, k + 1) is None); rejected(m, v, k + 1, n); }
}
/// no module lies on the bytes of an earlier one
pub open spec fn disjoint(m: Seq<Slot>) -> bool {
    forall|j: int, k: int| 0 <= j < k < m.len() && (#[trigger] m[j]).1.output is Some && (#[trigger] m[k]).1.output is Some && m[k].0.n() > 0
        ==> at(m[j].1.output->0) + m[j].0.n() <= at(m[k].1.output->0)
}
/// the module's encoded bytes lie at its offset
pub open spec fn coded(s: Slot, v: Seq<ChannelValue>) -> Seq<u8> { bytes(s.0.enc(v)->0) }
pub open spec fn placed(out: Seq<u16>, s: Slot, v: Seq<ChannelValue>) -> bool {
    s.1.output is Some ==> {
        &&& 0 <= at(s.1.output->0)
        &&& at(s.1.output->0) + s.0.n() <= 2 * out.len()
        &&& forall|i: int| 0 <= i < s.0.n() ==> #[trigger] coded(s, v)[i] == bytes(out)[at(s.1.output->0) + i]
    }
}

//@fn src/ur20_fbc_mod_tcp.rs - :: process_output_values
//@ params modules values
//@  requires values@.len() < 0x10000
//@  ensures
//@    r is Ok <==> modules@.len() == values@.len() && layout(modules@, values@, modules@.len() as int) is Some,
//@    r is Ok ==> r->Ok_0@.len() == layout(modules@, values@, modules@.len() as int)->0,
//@    r is Ok && disjoint(modules@) ==> forall|j: int| 0 <= j < modules@.len() ==> placed(r->Ok_0@, #[trigger] modules@[j], values@[j]@),
//@ start
//@   let ghost len = modules@.len() as int;
//@   proof {
//@     assert forall|l: u8, h: u8| lo(#[trigger] word(l, h)) == l && hi(word(l, h)) == h by { word_parts(l, h); }
//@     assert forall|b: u8, w: u16| lo(#[trigger] (((b as u16) << 8) | (w & 0x00FF))) == lo(w) && hi(((b as u16) << 8) | (w & 0x00FF)) == b by { shared(b, w); }
//@     assert forall|b: u8, w: u16| lo(#[trigger] ((w & 0x00FF) | ((b as u16) << 8))) == lo(w) && hi((w & 0x00FF) | ((b as u16) << 8)) == b by { shared(b, w); }
//@     assert forall|k: int| 0 < k <= len && (#[trigger] layout(modules@, values@, k)) is None implies layout(modules@, values@, len) is None by {
//@       rejected(modules@, values@, k, len);
//@     }
//@   }
//@ loop 0 desugared-for
//@   before let ghost mut k: int = 0;
//@   invariant
//@     len == modules@.len(),
//@     forall|l: u8, h: u8| lo(#[trigger] word(l, h)) == l && hi(word(l, h)) == h,
//@     forall|b: u8, w: u16| lo(#[trigger] (((b as u16) << 8) | (w & 0x00FF))) == lo(w) && hi(((b as u16) << 8) | (w & 0x00FF)) == b,
//@     forall|b: u8, w: u16| lo(#[trigger] ((w & 0x00FF) | ((b as u16) << 8))) == lo(w) && hi((w & 0x00FF) | ((b as u16) << 8)) == b,
//@     forall|k: int| 0 < k <= len && (#[trigger] layout(modules@, values@, k)) is None ==> layout(modules@, values@, len) is None,
//@     it.left().len() == modules@.len() - k, 0 <= k <= modules@.len(),
//@     forall|i: int| 0 <= i < it.left().len() ==> (#[trigger] it.left()[i]).0 == k + i && *it.left()[i].1 == modules@[k + i],
//@     modules@.len() == values@.len(), values@.len() < 0x10000,
//@     layout(modules@, values@, k) == Some(out@.len() as int),
//@     disjoint(modules@) ==> forall|j: int| 0 <= j < k ==> placed(out@, #[trigger] modules@[j], values@[j]@),
//@   ensures k == len
//@   decreases it.left().len()
//@   leave proof {
//@     if let Some(o) = modules@[k - 1].1.output {
//@       let s = modules@[k - 1];
//@       let e = s.0.enc(values@[k - 1]@)->0;
//@       assert forall|x: int| 0 <= x < at(o) && x < 2 * out0.len() implies #[trigger] bytes(out@)[x] == bytes(out0)[x] by { }
//@       assert forall|i: int| 0 <= i < s.0.n() implies #[trigger] coded(s, values@[k - 1]@)[i] == bytes(out@)[at(o) + i] by { }
//@       assert(placed(out@, s, values@[k - 1]@));
//@       if disjoint(modules@) {
//@         if s.0.n() == 0 { assert(out@ =~= out0); }
//@         assert forall|j: int| 0 <= j < k implies placed(out@, #[trigger] modules@[j], values@[j]@) by {
//@           let p = modules@[j];
//@           if j < k - 1 && p.1.output is Some {
//@             assert(placed(out0, p, values@[j]@));
//@             if s.0.n() > 0 { kept(out0, out@, p, values@[j]@, at(o)); }
//@           }
//@         }
//@       }
//@     }
//@   }
//@   enter let ghost out0 = out@; proof { k = k + 1; assert(layout(modules@, values@, k) == layout(modules@, values@, k)); }
//@end

/// `w` holds the `n` bytes from byte `a` of the image on
pub open spec fn holds(w: Seq<u16>, data: Seq<u16>, a: int, n: int) -> bool {
    &&& w.len() == if n < 2 { 1 } else { n / 2 }
    &&& forall|i: int| 0 <= i < n ==> #[trigger] bytes(w)[i] == bytes(data)[a + i]
}

/// reading the module's bytes fails
pub open spec fn fails_input(s: Slot, data: Seq<u16>) -> bool {
    s.1.input is Some && (!readable(s.1.input->0 as int, 0, s.0.n_in(), data)
        || forall|w: Seq<u16>| #[trigger] holds(w, data, s.1.input->0 as int / 8, s.0.n_in()) ==> s.0.dec_in(w) is None)
}
pub open spec fn may_fail_input(s: Slot, data: Seq<u16>) -> bool {
    s.1.input is Some && (!readable(s.1.input->0 as int, 0, s.0.n_in(), data)
        || exists|w: Seq<u16>| #[trigger] holds(w, data, s.1.input->0 as int / 8, s.0.n_in()) && s.0.dec_in(w) is None)
}
/// the values a module's bytes of the image are decoded to
pub open spec fn decoded_input(s: Slot, data: Seq<u16>, v: Seq<ChannelValue>) -> bool {
    match s.1.input {
        None => v =~= Seq::new(s.0.kind().channels(), |i: int| ChannelValue::None),
        Some(a) => exists|w: Seq<u16>| #[trigger] holds(w, data, a as int / 8, s.0.n_in()) && s.0.dec_in(w) is Some && s.0.dec_in(w)->0 == v,
    }
}
pub open spec fn fails_output(s: Slot, data: Seq<u16>) -> bool {
    s.1.output is Some && (!readable(s.1.output->0 as int, 0x800, s.0.n(), data)
        || forall|w: Seq<u16>| #[trigger] holds(w, data, s.1.output->0 as int / 8 - 0x1000, s.0.n()) ==> s.0.dec_out(w) is None)
}
pub open spec fn may_fail_output(s: Slot, data: Seq<u16>) -> bool {
    s.1.output is Some && (!readable(s.1.output->0 as int, 0x800, s.0.n(), data)
        || exists|w: Seq<u16>| #[trigger] holds(w, data, s.1.output->0 as int / 8 - 0x1000, s.0.n()) && s.0.dec_out(w) is None)
}
pub open spec fn decoded_output(s: Slot, data: Seq<u16>, v: Seq<ChannelValue>) -> bool {
    match s.1.output {
        None => v =~= Seq::new(s.0.kind().channels(), |i: int| ChannelValue::None),
        Some(a) => exists|w: Seq<u16>| #[trigger] holds(w, data, a as int / 8 - 0x1000, s.0.n()) && s.0.dec_out(w) is Some && s.0.dec_out(w)->0 == v,
    }
}

//@fn src/ur20_fbc_mod_tcp.rs - :: process_input_data
//@ params modules data
//@  requires data@.len() < 0x10000
//@  ensures
//@    // [C17] the values of all modules in order, or the first error
//@    r is Ok ==> forall|i: int| 0 <= i < modules@.len() ==> !#[trigger] fails_input(modules@[i], data@),
//@    r is Err ==> exists|i: int| 0 <= i < modules@.len() && #[trigger] may_fail_input(modules@[i], data@),
//@    r is Ok ==> r->Ok_0@.len() == modules@.len() && forall|i: int| 0 <= i < modules@.len() ==>
//@      decoded_input(modules@[i], data@, (#[trigger] r->Ok_0@[i])@) && shaped_in(modules@[i].0.kind(), r->Ok_0@[i]@),
//@ lift 0.0 :: decode_inputs :: data: &[u16]; slot: &Slot :: Result<Vec<ChannelValue>, Error>
//@  requires data@.len() < 0x10000
//@  ensures
//@    fails_input(*slot, data@) ==> r is Err, r is Err ==> may_fail_input(*slot, data@),
//@    r is Ok ==> decoded_input(*slot, data@, r->Ok_0@) && shaped_in(slot.0.kind(), r->Ok_0@),
//@ end-lift
//@ elem 0 :: Vec<ChannelValue>
//@ loop 0
//@   invariant
//@     data@.len() < 0x10000,
//@     err_ is None ==> forall|i: int| 0 <= i < n_ ==> !#[trigger] fails_input(modules@[i], data@),
//@     err_ is Some ==> exists|i: int| 0 <= i < modules@.len() && #[trigger] may_fail_input(modules@[i], data@),
//@     err_ is None ==> out_@.len() == n_ && forall|i: int| 0 <= i < n_ ==>
//@       decoded_input(modules@[i], data@, (#[trigger] out_@[i])@) && shaped_in(modules@[i].0.kind(), out_@[i]@),
//@end

//@fn src/ur20_fbc_mod_tcp.rs - :: process_output_data
//@ params modules data
//@  requires data@.len() < 0x10000
//@  ensures
//@    // [C17] the values of all modules in order, or the first error
//@    r is Ok ==> forall|i: int| 0 <= i < modules@.len() ==> !#[trigger] fails_output(modules@[i], data@),
//@    r is Err ==> exists|i: int| 0 <= i < modules@.len() && #[trigger] may_fail_output(modules@[i], data@),
//@    r is Ok ==> r->Ok_0@.len() == modules@.len() && forall|i: int| 0 <= i < modules@.len() ==>
//@      decoded_output(modules@[i], data@, (#[trigger] r->Ok_0@[i])@) && shaped_out(modules@[i].0.kind(), r->Ok_0@[i]@),
//@ lift 0.0 :: decode_outputs :: data: &[u16]; slot: &Slot :: Result<Vec<ChannelValue>, Error>
//@  requires data@.len() < 0x10000
//@  ensures
//@    fails_output(*slot, data@) ==> r is Err, r is Err ==> may_fail_output(*slot, data@),
//@    r is Ok ==> decoded_output(*slot, data@, r->Ok_0@) && shaped_out(slot.0.kind(), r->Ok_0@),
//@ end-lift
//@ elem 0 :: Vec<ChannelValue>
//@ loop 0
//@   invariant
//@     data@.len() < 0x10000,
//@     err_ is None ==> forall|i: int| 0 <= i < n_ ==> !#[trigger] fails_output(modules@[i], data@),
//@     err_ is Some ==> exists|i: int| 0 <= i < modules@.len() && #[trigger] may_fail_output(modules@[i], data@),
//@     err_ is None ==> out_@.len() == n_ && forall|i: int| 0 <= i < n_ ==>
//@       decoded_output(modules@[i], data@, (#[trigger] out_@[i])@) && shaped_out(modules@[i].0.kind(), out_@[i]@),
//@end

} // verus!
