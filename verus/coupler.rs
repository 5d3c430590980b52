// The coupler: C19, C20, C21.
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::hash::EntrySpecFns;
use std::collections::HashMap;

//@include common
//@include com_body
//@include image_body

//@subst \bur20_1com_232_485_422::MessageProcessor\b => MessageProcessor
//@subst \.get_mut\( => .look_up(
//@subst \bin (\w+) \{ => in each(\1) {
//@subst : Vec<_> = => =
//@subst \.map\(\|(\w+)\| \1 as &mut dyn (?:Read|Write)\) => 
//@subst \s+as &mut dyn (?:Read|Write)\b => 
//@subst &mut dyn (?:Read|Write) => &mut MessageProcessor

verus! {

// ---- assumed contracts of the standard library ----

pub trait Lookup<V>: Sized {
    spec fn all(&self) -> Map<usize, V>;
    /// `HashMap::get_mut`
    fn look_up(&mut self, k: &usize) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self).all().contains_key(*k) && *v == old(self).all()[*k]
                && final(self).all() == old(self).all().insert(*k, *final(v)),
            None => !old(self).all().contains_key(*k) && *final(self) == *old(self),
        };
}
impl<V> Lookup<V> for HashMap<usize, V> {
    open spec fn all(&self) -> Map<usize, V> { self@ }
    #[verifier::external_body]
    fn look_up(&mut self, k: &usize) -> (r: Option<&mut V>) { self.get_mut(k) }
}
/// `Default::default` of a key's first value
pub uninterp spec fn default_of<V>() -> V;
pub assume_specification<'a, K, V: std::default::Default> [std::collections::hash_map::Entry::<'a, K, V>::or_default] (e: std::collections::hash_map::Entry<'a, K, V>) -> (r: &'a mut V)
    ensures *r == (match e.value() { Some(v) => v, None => default_of::<V>() }), e.final_value() == Some(*final(r));
#[verifier::external_body]
pub proof fn zero() ensures default_of::<usize>() == 0 { }

/// stands for iterating over a map by value
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct Each<V> { it: std::collections::hash_map::IntoIter<usize, V> }
impl<V> Each<V> { pub uninterp spec fn left(self) -> Seq<(usize, V)>; }
impl<V> Iterator for Each<V> {
    type Item = (usize, V);
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(usize, V)>) { unimplemented!() }
}
impl<V> IteratorSpecImpl for Each<V> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<(usize, V)> { self.left() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.left().len()) }
    open spec fn peek(&self, i: int) -> Option<(usize, V)> { None }
}
/// every entry once, in any order
pub open spec fn entries<V>(s: Seq<(usize, V)>, m: Map<usize, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: usize| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
#[verifier::external_body]
pub fn each<V>(m: HashMap<usize, V>) -> (r: Each<V>) ensures entries(r.left(), m@) { unimplemented!() }

pub open spec fn slots<'a>(m: Seq<Box<dyn ProcessModbusTcpData>>, o: Seq<ModuleOffset>) -> Seq<Slot<'a>> {
    Seq::new(m.len(), |i: int| (&*m[i], &o[i]))
}

// ---- the coupler ----

//@item src/lib.rs struct Address
//@item src/ur20_fbc_mod_tcp.rs struct Coupler

// `#[derive(Clone, Copy, PartialEq, Eq, Hash)]` of Address
impl Clone for Address {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Copy for Address {}
impl PartialEq for Address {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl Eq for Address {}
#[verifier::external]
impl std::hash::Hash for Address { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }

impl MessageProcessor {
    /// `std::io::Write::write_all`
    pub fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>)
        requires old(self).wf()
        ensures r is Ok, final(self).wf(), written(*old(self), buf@, *final(self))
    {
        // a call that takes everything ends the loop of the provided method
        if buf.len() > 0 {
            let _ = self.write(buf);
        } else {
            proof { assert(self.waiting() =~= self.waiting() + buf@); }
        }
        Ok(())
    }
}

pub type Vals = Seq<Vec<ChannelValue>>;

impl Coupler {
    /// the address belongs to a channel of a module
    pub open spec fn has(&self, a: Address) -> bool {
        a.module < self.modules@.len() && a.channel < self.modules@[a.module as int].kind().channels()
    }
    pub open spec fn com(&self, m: int) -> bool { self.modules@[m].kind().is_com() }
    pub open spec fn slots(&self) -> Seq<Slot<'_>> { slots(self.modules@, self.offsets@) }
    /// what holds for every coupler: an offset and, for each serial module, a processor
    pub open spec fn wf(&self) -> bool {
        &&& self.offsets@.len() == self.modules@.len() < 0x10000
        &&& forall|m: usize| #[trigger] self.processors@.contains_key(m) <==> m < self.modules@.len() && self.com(m as int)
        &&& forall|m: usize| #[trigger] self.processors@.contains_key(m) ==> self.processors@[m].wf()
    }

//@fn src/ur20_fbc_mod_tcp.rs impl Coupler :: is_valid_addr
//@ params addr
//@  ensures r == self.has(*addr)
//@end

//@fn src/ur20_fbc_mod_tcp.rs impl Coupler :: set_output
//@ params addr value
//@  requires vstd::std_specs::hash::obeys_key_model::<Address>()
//@  ensures
//@    r is Ok <==> old(self).has(*addr),
//@    // the last value set for an address waits, all others are kept
//@    r is Ok ==> final(self).write@ == old(self).write@.insert(*addr, value),
//@    r is Err ==> final(self).write@ == old(self).write@,
//@    final(self).in_values == old(self).in_values, final(self).out_values == old(self).out_values,
//@    final(self).modules == old(self).modules, final(self).offsets == old(self).offsets,
//@    final(self).processors == old(self).processors, final(self).last_tx_cnt == old(self).last_tx_cnt,
//@end

//@fn src/ur20_fbc_mod_tcp.rs impl Coupler :: inputs
//@  ensures r@ == self.in_values@
//@end
//@fn src/ur20_fbc_mod_tcp.rs impl Coupler :: outputs
//@  ensures r@ == self.out_values@
//@end

//@fn src/ur20_fbc_mod_tcp.rs impl Coupler :: reader
//@ params module_nr
//@  ensures handle(*old(self), *final(self), module_nr, r)
//@end
//@fn src/ur20_fbc_mod_tcp.rs impl Coupler :: writer
//@ params module_nr
//@  ensures handle(*old(self), *final(self), module_nr, r)
//@end

//@fn src/ur20_fbc_mod_tcp.rs impl Coupler :: next
//@ params process_input process_output
//@  requires
//@    vstd::std_specs::hash::obeys_key_model::<Address>(),
//@    old(self).wf(), process_input@.len() < 0x10000, process_output@.len() < 0x10000,
//@  ensures
//@    final(self).wf(),
//@    final(self).modules == old(self).modules, final(self).offsets == old(self).offsets,
//@    r is Ok ==> exists|c: Cycle| #[trigger] moved(*old(self), process_input@, process_output@, *final(self), c)
//@      && encoded(old(self).slots(), c.next, r->Ok_0@),
//@ start
//@   broadcast use vstd::std_specs::hash::group_hash_axioms;
//@   let ghost s = *self;
//@   let ghost n = self.modules@.len() as int;
//@ elem 0 :: Slot<'_>
//@ loop ~self.modules.len
//@   invariant
//@     *self == s, s.wf(), out_@.len() == n_, n == self.modules@.len(),
//@     forall|i: int| 0 <= i < n_ ==> #[trigger] out_@[i] == s.slots()[i],
//@   after proof { }
//@ loop ~zipped desugared-for
//@   before
//@     let ghost iv = self.in_values@;
//@     let ghost ov = self.out_values@;
//@     let ghost mut k: int = 0;
//@     proof {
//@       assert(same_values(next_out_values@, ov));
//@       assert forall|m: int| 0 <= m < n implies #[trigger] decoded(s, process_input@, process_output@, iv, ov, m) by { assert(s.slots()[m] == infos@[m]); }
//@     }
//@   invariant
//@     vstd::std_specs::hash::obeys_key_model::<Address>(), s == *old(self),
//@     self.wf(), self.modules == s.modules, self.offsets == s.offsets, s.wf(),
//@     n == s.modules@.len(), iv.len() == n, ov.len() == n, self.in_values@ == iv, self.out_values@ == ov,
//@     infos@ == s.slots(),
//@     it.left().len() == n - k, 0 <= k <= n,
//@     forall|i: int| 0 <= i < it.left().len() ==> (#[trigger] it.left()[i]).0 == k + i
//@       && *it.left()[i].1.0 == iv[k + i] && *it.left()[i].1.1 == ov[k + i],
//@     forall|m: int| 0 <= m < n ==> #[trigger] decoded(s, process_input@, process_output@, iv, ov, m),
//@     forall|m: usize| #[trigger] in_bytes@.contains_key(m) ==> m < n,
//@     forall|m: usize| #[trigger] out_bytes@.contains_key(m) ==> m < n,
//@     next_out_values@.len() == n,
//@     forall|m: int| 0 <= m < k ==> #[trigger] done(s, *self, Cycle { inp: iv, out: ov, next: next_out_values@ }, in_bytes@, out_bytes@, m),
//@     forall|m: int| k <= m < n ==> #[trigger] todo(s, *self, Cycle { inp: iv, out: ov, next: next_out_values@ }, in_bytes@, out_bytes@, m),
//@     forall|a: Address| #[trigger] self.write@.contains_key(a) <==> s.write@.contains_key(a) && !(a.module < k && taken(s, Cycle { inp: iv, out: ov, next: next_out_values@ }, a)),
//@     forall|a: Address| #[trigger] self.write@.contains_key(a) ==> self.write@[a] == s.write@[a],
//@   ensures k == n
//@   decreases it.left().len()
//@   enter
//@     proof { zero(); }
//@     let ghost q = *self;
//@     let ghost c0 = Cycle { inp: iv, out: ov, next: next_out_values@ };
//@     let ghost ib0 = in_bytes@;
//@     let ghost ob0 = out_bytes@;
//@     proof {
//@       assert(todo(s, q, c0, ib0, ob0, k));
//@       assert(decoded(s, process_input@, process_output@, iv, ov, k));
//@       if s.com(k) { assert(written(s.processors@[k as usize], seq![], s.processors@[k as usize])); }
//@       assert(at_channel(k, 0) == Address { module: m_nr, channel: 0 });
//@       if s.com(k) {
//@         assert(q.processors@[m_nr] == s.processors@[k as usize]);
//@         assert(pending(q, k, 0) == pending(s, k, 0));
//@         if let Some(ChannelValue::Bytes(b)) = pending(q, k, 0) { assert(to_send(s, k) == b@); assert(q.write@[Address { module: m_nr, channel: 0 }]->Bytes_0@ == to_send(s, k)); }
//@       }
//@       k = k + 1;
//@     }
//@   leave
//@     proof {
//@       let c = Cycle { inp: iv, out: ov, next: next_out_values@ };
//@       assert forall|m: int| 0 <= m < k implies #[trigger] done(s, *self, c, in_bytes@, out_bytes@, m) by {
//@         if m < k - 1 { assert(done(s, q, c0, ib0, ob0, m)); } else {
//@           if !s.com(m) { assert(next_values(s, *self, c, m)); }
//@           else if !records(s, c, m) { assert(next_values(s, *self, c, m)); }
//@           else { assert(next_values(s, *self, c, m)); }
//@         }
//@       }
//@       assert forall|m: int| k <= m < n implies #[trigger] todo(s, *self, c, in_bytes@, out_bytes@, m) by {
//@         assert(todo(s, q, c0, ib0, ob0, m));
//@       }
//@     }
//@   after
//@     let ghost t1 = *self;
//@     let ghost c = Cycle { inp: iv, out: ov, next: next_out_values@ };
//@     let ghost ib = in_bytes@;
//@     let ghost ob = out_bytes@;
//@     proof {
//@       assert forall|m: usize| #[trigger] ib.contains_key(m) implies m < n && iv[m as int]@.len() == 1 by {
//@         assert(done(s, t1, c, ib, ob, m as int)); assert(decoded(s, process_input@, process_output@, iv, ov, m as int)); }
//@       assert forall|m: usize| #[trigger] ob.contains_key(m) implies m < n && ov[m as int]@.len() == 1 by {
//@         assert(done(s, t1, c, ib, ob, m as int)); assert(decoded(s, process_input@, process_output@, iv, ov, m as int)); }
//@     }
//@ loop ~\bin\s[^)]*\bout_v\b
//@   before
//@     let ghost w0 = self.write@;
//@     let ghost nv0 = next_out_values@;
//@   invariant
//@     vstd::std_specs::hash::obeys_key_model::<Address>(),
//@     self.modules == q.modules, self.offsets == q.offsets, self.processors == q.processors, self.last_tx_cnt == q.last_tx_cnt,
//@     self.in_values == q.in_values, self.out_values == q.out_values,
//@     it.seq().len() == out_v@.len(),
//@     forall|j: int| 0 <= j < it.seq().len() ==> (#[trigger] it.seq()[j]).0 == j,
//@     next_out_values@.len() == nv0.len(), m_nr < nv0.len(), nv0[m_nr as int]@.len() == out_v@.len(),
//@     next_out_values@[m_nr as int]@.len() == out_v@.len(),
//@     forall|m: int| 0 <= m < nv0.len() && m != m_nr ==> #[trigger] next_out_values@[m] == nv0[m],
//@     forall|ch: int| 0 <= ch < it.index() ==> #[trigger] next_out_values@[m_nr as int]@[ch] ==
//@       if w0.contains_key(at_channel(m_nr as int, ch)) { w0[at_channel(m_nr as int, ch)] } else { nv0[m_nr as int]@[ch] },
//@     forall|ch: int| it.index() <= ch < out_v@.len() ==> #[trigger] next_out_values@[m_nr as int]@[ch] == nv0[m_nr as int]@[ch],
//@     forall|a: Address| #[trigger] self.write@.contains_key(a) <==> w0.contains_key(a) && !(a.module == m_nr && a.channel < it.index()),
//@     forall|a: Address| #[trigger] self.write@.contains_key(a) ==> self.write@[a] == w0[a],
//@   leave
//@     proof { assert(at_channel(m_nr as int, it.index()) == Address { module: m_nr, channel: i }); }
//@ loop ~\bin_bytes\)?$
//@   before
//@     let ghost t2 = *self;
//@   invariant
//@     self.modules == t2.modules, self.offsets == t2.offsets, self.processors == t2.processors, self.last_tx_cnt == t2.last_tx_cnt,
//@     self.write == t2.write, self.out_values == t2.out_values,
//@     self.in_values@.len() == n, iv.len() == n,
//@     entries(it.seq(), ib), forall|m: usize| #[trigger] ib.contains_key(m) ==> m < n && iv[m as int]@.len() == 1,
//@     forall|m: int| 0 <= m < n ==> replaced(iv[m]@, (#[trigger] self.in_values@[m])@, it.seq(), it.index(), m),
//@ loop ~\bout_bytes\)?$
//@   before
//@     let ghost t3 = *self;
//@   invariant
//@     self.modules == t3.modules, self.offsets == t3.offsets, self.processors == t3.processors, self.last_tx_cnt == t3.last_tx_cnt,
//@     self.write == t3.write, self.in_values == t3.in_values,
//@     self.out_values@.len() == n, ov.len() == n,
//@     entries(it.seq(), ob), forall|m: usize| #[trigger] ob.contains_key(m) ==> m < n && ov[m as int]@.len() == 1,
//@     forall|m: int| 0 <= m < n ==> replaced(ov[m]@, (#[trigger] self.out_values@[m])@, it.seq(), it.index(), m),
//@ after-loops
//@     proof {
//@       let t = *self;
//@       assert forall|m: int| 0 <= m < n implies #[trigger] decoded(s, process_input@, process_output@, c.inp, c.out, m) && next_values(s, t, c, m) && reported(s, t, c, m) by {
//@         assert(done(s, t1, c, ib, ob, m));
//@         assert(next_values(s, t, c, m));
//@         assert(last_tx(t, m) == last_tx(t1, m));
//@         assert(reported(s, t, c, m));
//@       }
//@       assert(moved(s, process_input@, process_output@, t, c));
//@     }
//@end
}

/// access to the data stream of module `m` of `s`, and to nothing else
#[verifier::prophetic]
pub open spec fn handle(s: Coupler, t: Coupler, m: usize, r: Option<&mut MessageProcessor>) -> bool {
    match r {
        Some(p) => s.processors@.contains_key(m) && *p == s.processors@[m] && t.processors@ == s.processors@.insert(m, *final(p))
            && t.modules == s.modules && t.offsets == s.offsets && t.write == s.write && t.last_tx_cnt == s.last_tx_cnt
            && t.in_values == s.in_values && t.out_values == s.out_values,
        None => !s.processors@.contains_key(m) && t == s,
    }
}

/// the values of a cycle: decoded inputs, decoded outputs and outputs to be sent
pub ghost struct Cycle { pub inp: Vals, pub out: Vals, pub next: Vals }

/// a serial module with a record in both images
pub open spec fn records(s: Coupler, c: Cycle, m: int) -> bool {
    s.com(m) && c.inp[m]@[0] is ComRsIn && c.out[m]@[0] is ComRsOut
}
pub open spec fn at_channel(m: int, ch: int) -> Address { Address { module: m as usize, channel: ch as usize } }
/// the write that is pending for a channel
pub open spec fn pending(s: Coupler, m: int, ch: int) -> Option<ChannelValue> {
    let a = at_channel(m, ch);
    if s.write@.contains_key(a) { Some(s.write@[a]) } else { None }
}
/// the data to be sent by a serial module
pub open spec fn to_send(s: Coupler, m: int) -> Seq<u8> {
    match pending(s, m, 0) { Some(ChannelValue::Bytes(b)) => b@, _ => seq![] }
}
/// the writes a cycle takes
pub open spec fn taken(s: Coupler, c: Cycle, a: Address) -> bool {
    a.module < s.modules@.len() && if s.com(a.module as int) { a.channel == 0 && records(s, c, a.module as int) } else { a.channel < c.out[a.module as int]@.len() }
}
pub open spec fn last_tx(s: Coupler, m: int) -> usize {
    if s.last_tx_cnt@.contains_key(m as usize) { s.last_tx_cnt@[m as usize] } else { 0 }
}

pub open spec fn next_values(s: Coupler, t: Coupler, c: Cycle, m: int) -> bool {
    &&& c.next[m]@.len() == c.out[m]@.len()
    // the pending writes, else the current values
    &&& !s.com(m) ==> forall|ch: int| 0 <= ch < c.out[m]@.len() ==>
        #[trigger] c.next[m]@[ch] == match pending(s, m, ch) { Some(v) => v, None => c.out[m]@[ch] }
    &&& s.com(m) && !records(s, c, m) ==> c.next[m]@ == c.out[m]@
    // one cycle of the module's own processor, its own data being written before
    &&& records(s, c, m) ==> c.next[m]@[0] is ComRsOut && exists|p: MessageProcessor|
        #[trigger] written(s.processors@[m as usize], to_send(s, m), p)
        && cycled(p, c.inp[m]@[0]->ComRsIn_0, c.out[m]@[0]->ComRsOut_0, t.processors@[m as usize], c.next[m]@[0]->ComRsOut_0)
    &&& s.com(m) && !records(s, c, m) ==> t.processors@[m as usize] == s.processors@[m as usize]
}

pub open spec fn same_values(a: Vals, b: Vals) -> bool {
    a.len() == b.len() && forall|m: int| 0 <= m < a.len() ==> (#[trigger] a[m])@ =~= b[m]@
}
/// module `m` before and after its turn in a cycle
pub open spec fn todo(s: Coupler, t: Coupler, c: Cycle, ib: Map<usize, ChannelValue>, ob: Map<usize, ChannelValue>, m: int) -> bool {
    &&& c.next[m]@ =~= c.out[m]@
    &&& !ib.contains_key(m as usize) && !ob.contains_key(m as usize)
    &&& last_tx(t, m) == last_tx(s, m)
    &&& s.com(m) ==> t.processors@[m as usize] == s.processors@[m as usize]
}
pub open spec fn done(s: Coupler, t: Coupler, c: Cycle, ib: Map<usize, ChannelValue>, ob: Map<usize, ChannelValue>, m: int) -> bool {
    &&& next_values(s, t, c, m)
    &&& if records(s, c, m) {
        &&& ib.contains_key(m as usize) && reported_in(c.inp[m]@[0]->ComRsIn_0, ib[m as usize])
        &&& ob.contains_key(m as usize) && reported_out(c.out[m]@[0]->ComRsOut_0, last_tx(s, m), ob[m as usize])
        &&& last_tx(t, m) == c.out[m]@[0]->ComRsOut_0.tx_cnt
    } else {
        &&& !ib.contains_key(m as usize) && !ob.contains_key(m as usize)
        &&& last_tx(t, m) == last_tx(s, m)
    }
}
/// the values of module `m` after `k` of the entries
pub open spec fn replaced(a: Seq<ChannelValue>, b: Seq<ChannelValue>, e: Seq<(usize, ChannelValue)>, k: int, m: int) -> bool {
    if exists|j: int| 0 <= j < k && (#[trigger] e[j]).0 == m {
        b.len() == 1 && exists|j: int| 0 <= j < k && (#[trigger] e[j]).0 == m && b[0] == e[j].1
    } else {
        b =~= a
    }
}

/// what a serial module has received
pub open spec fn reported_in(i: ProcessInput, v: ChannelValue) -> bool {
    if i.data_available && i.data@.len() > 0 { v is Bytes && v->Bytes_0@ == i.data@ } else { v is None }
}
/// what a serial module has sent, once
pub open spec fn reported_out(o: ProcessOutput, last: usize, v: ChannelValue) -> bool {
    if o.tx_cnt != last && o.data@.len() > 0 { v is Bytes && v->Bytes_0@ == o.data@ } else { v is None }
}
pub open spec fn reported(s: Coupler, t: Coupler, c: Cycle, m: int) -> bool {
    if records(s, c, m) {
        &&& t.in_values@[m]@.len() == 1 && reported_in(c.inp[m]@[0]->ComRsIn_0, t.in_values@[m]@[0])
        &&& t.out_values@[m]@.len() == 1 && reported_out(c.out[m]@[0]->ComRsOut_0, last_tx(s, m), t.out_values@[m]@[0])
        &&& last_tx(t, m) == c.out[m]@[0]->ComRsOut_0.tx_cnt
    } else {
        &&& t.in_values@[m]@ == c.inp[m]@ && t.out_values@[m]@ == c.out[m]@
        &&& last_tx(t, m) == last_tx(s, m)
    }
}

/// what module `m` shows in the images
pub open spec fn decoded(s: Coupler, inp: Seq<u16>, out: Seq<u16>, iv: Vals, ov: Vals, m: int) -> bool {
    &&& decoded_input(s.slots()[m], inp, iv[m]@) && shaped_in(s.modules@[m].kind(), iv[m]@)
    &&& decoded_output(s.slots()[m], out, ov[m]@) && shaped_out(s.modules@[m].kind(), ov[m]@)
}
/// a successful cycle from `s` to `t`
pub open spec fn moved(s: Coupler, inp: Seq<u16>, out: Seq<u16>, t: Coupler, c: Cycle) -> bool {
    let n = s.modules@.len();
    &&& c.inp.len() == n && c.out.len() == n && c.next.len() == n && t.in_values@.len() == n && t.out_values@.len() == n
    &&& forall|m: int| 0 <= m < n ==> {
        &&& #[trigger] decoded(s, inp, out, c.inp, c.out, m)
        &&& next_values(s, t, c, m)
        &&& reported(s, t, c, m)
    }
    // each write counts for one cycle
    &&& forall|a: Address| #[trigger] t.write@.contains_key(a) <==> s.write@.contains_key(a) && !taken(s, c, a)
    &&& forall|a: Address| #[trigger] t.write@.contains_key(a) ==> t.write@[a] == s.write@[a]
}
/// the image of the values
pub open spec fn encoded(m: Seq<Slot>, v: Vals, image: Seq<u16>) -> bool {
    &&& layout(m, v, m.len() as int) == Some(image.len() as int)
    &&& disjoint(m) ==> forall|j: int| 0 <= j < m.len() ==> placed(image, #[trigger] m[j], v[j]@)
}

// ---- what the contracts amount to ----

/// the module's encoder restores the bytes it was given to decode
pub open spec fn restores(m: &dyn ProcessModbusTcpData, w: Seq<u16>) -> bool {
    m.dec_out(w) is Some ==> {
        &&& m.enc(m.dec_out(w)->0) is Some
        &&& forall|i: int| 0 <= i < m.n() ==> #[trigger] bytes(m.enc(m.dec_out(w)->0)->0)[i] == bytes(w)[i]
    }
}
/// C19: without writes a module's bytes come back as they were
pub proof fn kept_without_writes(s: Coupler, inp: Seq<u16>, out: Seq<u16>, t: Coupler, c: Cycle, image: Seq<u16>, m: int)
    requires
        moved(s, inp, out, t, c), encoded(s.slots(), c.next, image), disjoint(s.slots()),
        s.wf(), 0 <= m < s.modules@.len(), s.offsets@[m].output is Some, !s.com(m),
        forall|ch: int| 0 <= ch < c.out[m]@.len() ==> pending(s, m, ch) is None,
        forall|w: Seq<u16>| #[trigger] restores(s.slots()[m].0, w),
    ensures
        at(s.offsets@[m].output->0) + s.slots()[m].0.n() <= 2 * image.len(),
        forall|i: int| 0 <= i < s.slots()[m].0.n() ==>
            #[trigger] bytes(image)[at(s.offsets@[m].output->0) + i] == bytes(out)[at(s.offsets@[m].output->0) + i],
{
    let a = s.offsets@[m].output->0;
    assert(decoded(s, inp, out, c.inp, c.out, m));
    let w = choose|w: Seq<u16>| #[trigger] holds(w, out, a as int / 8 - 0x1000, s.slots()[m].0.n()) && s.slots()[m].0.dec_out(w) == Some(c.out[m]@);
    assert(restores(s.slots()[m].0, w));
    assert(next_values(s, t, c, m));
    assert(c.next[m]@ =~= c.out[m]@);
    assert(placed(image, s.slots()[m], c.next[m]@));
    assert forall|i: int| 0 <= i < s.slots()[m].0.n() implies #[trigger] bytes(image)[at(a) + i] == bytes(out)[at(a) + i] by {
        assert(coded(s.slots()[m], c.next[m]@)[i] == bytes(image)[at(a) + i]);
        assert(bytes(w)[i] == bytes(out)[a as int / 8 - 0x1000 + i]);
    }
}

/// C20: one value per channel; the safety module shows its status record
pub proof fn shape(s: Coupler, inp: Seq<u16>, out: Seq<u16>, t: Coupler, c: Cycle, m: int)
    requires moved(s, inp, out, t, c), 0 <= m < s.modules@.len()
    ensures
        t.in_values@.len() == s.modules@.len() && t.out_values@.len() == s.modules@.len(),
        t.in_values@[m]@.len() == s.modules@[m].kind().channels() || s.modules@[m].kind().is_safety() && t.in_values@[m]@.len() == 1 || s.com(m) && t.in_values@[m]@.len() == 1,
        t.out_values@[m]@.len() == s.modules@[m].kind().channels(),
{
    assert(decoded(s, inp, out, c.inp, c.out, m));
    assert(reported(s, t, c, m));
}

/// C19: every write counts in the cycle that follows it and in no other one
pub proof fn writes_end(s: Coupler, inp: Seq<u16>, out: Seq<u16>, t: Coupler, c: Cycle, a: Address)
    requires moved(s, inp, out, t, c), s.has(a), !s.com(a.module as int), s.wf()
    ensures
        !t.write@.contains_key(a),
        c.next[a.module as int]@[a.channel as int] == if s.write@.contains_key(a) { s.write@[a] } else { c.out[a.module as int]@[a.channel as int] },
{
    assert(decoded(s, inp, out, c.inp, c.out, a.module as int));
    assert(next_values(s, t, c, a.module as int));
    assert(at_channel(a.module as int, a.channel as int) == a);
    assert(taken(s, c, a));
}

pub enum CouplerOp { Set(Address, ChannelValue), Cycle(Vec<u16>, Vec<u16>), Write(usize, Vec<u8>), Read(usize, Vec<u8>) }

/// what was exchanged with each serial module
pub type Traces = spec_fn(usize) -> Trace;
pub open spec fn streams(c: Coupler, t: Traces) -> bool {
    forall|m: usize| #[trigger] c.processors@.contains_key(m) ==>
        t(m).sent + c.processors@[m].waiting() =~= t(m).written && t(m).read + c.processors@[m].in_data@ =~= t(m).accepted
}
/// nothing lost, nothing repeated, nothing reordered, in each of the modules in `c`
pub open spec fn in_order(c: Coupler, t: Traces) -> bool {
    forall|m: usize| #[trigger] c.processors@.contains_key(m) ==> t(m).sent.is_prefix_of(t(m).written) && t(m).read.is_prefix_of(t(m).accepted)
}
pub proof fn ordered(c0: Coupler, c: Coupler, t: Traces)
    requires streams(c, t), c0.wf(), c.wf(), c.modules == c0.modules
    ensures in_order(c0, t)
{
    assert forall|m: usize| #[trigger] c0.processors@.contains_key(m) implies t(m).sent.is_prefix_of(t(m).written) && t(m).read.is_prefix_of(t(m).accepted) by {
        assert(c.processors@.contains_key(m));
        assert(t(m).sent =~= t(m).written.take(t(m).sent.len() as int));
        assert(t(m).read =~= t(m).accepted.take(t(m).read.len() as int));
    }
}
/// what module `m` exchanges in a cycle
pub open spec fn exchange(s: Coupler, c: Cycle, t: Trace, m: usize) -> Trace {
    if !s.processors@.contains_key(m) || !records(s, c, m as int) { t } else {
        let i = c.inp[m as int]@[0]->ComRsIn_0;
        let o = c.out[m as int]@[0]->ComRsOut_0;
        let b = to_send(s, m as int);
        Trace {
            written: t.written + b,
            // a piece is new when its counter follows the confirmed one
            sent: if s.processors@[m].init_state == InitState::Done && s.processors@[m].waiting().len() + b.len() > 0 && succ(i.tx_cnt_ack) != o.tx_cnt {
                t.sent + c.next[m as int]@[0]->ComRsOut_0.data@
            } else { t.sent },
            accepted: if is_new(&s.processors@[m], &i) { t.accepted + i.data@ } else { t.accepted },
            read: t.read,
        }
    }
}
pub proof fn exchanged(s: Coupler, inp: Seq<u16>, out: Seq<u16>, t: Coupler, c: Cycle, tr: Traces)
    requires moved(s, inp, out, t, c), s.wf(), t.wf(), t.modules == s.modules, streams(s, tr)
    ensures streams(t, |m: usize| exchange(s, c, tr(m), m))
{
    let u = |m: usize| exchange(s, c, tr(m), m);
    assert forall|m: usize| #[trigger] t.processors@.contains_key(m) implies
        u(m).sent + t.processors@[m].waiting() =~= u(m).written && u(m).read + t.processors@[m].in_data@ =~= u(m).accepted
    by {
        assert(s.processors@.contains_key(m));
        assert(decoded(s, inp, out, c.inp, c.out, m as int));
        assert(next_values(s, t, c, m as int));
        if records(s, c, m as int) {
            let i = c.inp[m as int]@[0]->ComRsIn_0;
            let o = c.out[m as int]@[0]->ComRsOut_0;
            let r = c.next[m as int]@[0]->ComRsOut_0;
            let b = to_send(s, m as int);
            let p = choose|p: MessageProcessor| #[trigger] written(s.processors@[m], b, p) && cycled(p, i, o, t.processors@[m], r);
            assert(p.waiting().len() == s.processors@[m].waiting().len() + b.len());
            if p.init_state == InitState::Done && p.waiting().len() > 0 && succ(i.tx_cnt_ack) != o.tx_cnt {
                assert(u(m).sent + t.processors@[m].waiting() =~= tr(m).sent + (r.data@ + t.processors@[m].waiting()));
                assert(u(m).written =~= tr(m).sent + (s.processors@[m].waiting() + b));
            } else {
                assert(u(m).written =~= tr(m).sent + (s.processors@[m].waiting() + b));
            }
            assert(u(m).read + t.processors@[m].in_data@ =~= u(m).accepted);
        }
    }
}

/// C21: every data stream of a coupler, over every history up to a failing cycle
pub fn coupler_history(c: &mut Coupler, ops: Vec<CouplerOp>) -> (t: Ghost<Traces>)
    requires
        vstd::std_specs::hash::obeys_key_model::<Address>(),
        old(c).wf(),
        forall|m: usize| #[trigger] old(c).processors@.contains_key(m) ==> old(c).processors@[m].waiting() == Seq::<u8>::empty() && old(c).processors@[m].in_data@ == Seq::<u8>::empty(),
        forall|k: int| 0 <= k < ops@.len() ==> match #[trigger] ops@[k] { CouplerOp::Cycle(i, o) => i@.len() < 0x10000 && o@.len() < 0x10000, _ => true },
    ensures in_order(*old(c), t@)
{
    let ghost mut t: Traces = |m: usize| Trace { written: seq![], sent: seq![], accepted: seq![], read: seq![] };
    let mut k: usize = 0;
    while k < ops.len()
        invariant
            vstd::std_specs::hash::obeys_key_model::<Address>(),
            c.wf(), streams(*c, t), k <= ops@.len(), c.modules == old(c).modules, old(c).wf(),
            forall|k: int| 0 <= k < ops@.len() ==> match #[trigger] ops@[k] { CouplerOp::Cycle(i, o) => i@.len() < 0x10000 && o@.len() < 0x10000, _ => true },
        decreases ops@.len() - k
    {
        let ghost s = *c;
        let ghost t0 = t;
        match &ops[k] {
            CouplerOp::Set(a, v) => { let _ = c.set_output(a, v.clone()); }
            CouplerOp::Cycle(i, o) => {
                let r = c.next(i.as_slice(), o.as_slice());
                if r.is_err() {
                    proof { ordered(*old(c), s, t); }
                    return Ghost(t);
                }
                proof {
                    let y = choose|y: Cycle| #[trigger] moved(s, i@, o@, *c, y) && encoded(s.slots(), y.next, r->Ok_0@);
                    exchanged(s, i@, o@, *c, y, t0);
                    t = |m: usize| exchange(s, y, t0(m), m);
                }
            }
            CouplerOp::Write(m, b) => {
                if let Some(p) = c.writer(*m) {
                    let _ = p.write(b.as_slice());
                    proof { t = |n: usize| if n == *m { Trace { written: t0(n).written + b@, ..t0(n) } } else { t0(n) }; }
                }
            }
            CouplerOp::Read(m, b) => {
                let mut b = b.to_vec();
                if let Some(p) = c.reader(*m) {
                    let r = p.read(b.as_mut_slice());
                    let n = match r { Ok(n) => n, Err(_) => 0 };
                    proof { t = |j: usize| if j == *m { Trace { read: t0(j).read + b@.take(n as int), ..t0(j) } } else { t0(j) }; }
                }
            }
        }
        k += 1;
    }
    proof { ordered(*old(c), *c, t); }
    Ghost(t)
}

} // verus!
fn main() {}
