// Contracts on the message processor of the serial module, for every history.
// Lines that start with `//@` are filled in from /repo by verus_layer.py.
//@include pdl
//@scope
//@subst \.chunks\( => .chunks_of(

verus! {

pub mod cmp {
    use vstd::prelude::*;
    /// `std::cmp::min` on `usize`
    pub fn min(a: usize, b: usize) -> (r: usize)
        ensures r == if a <= b { a } else { b }
    { if a <= b { a } else { b } }
}
pub mod io {
    /// the errors of these implementations
    pub type Result<T> = core::result::Result<T, super::Error>;
}

// ---- assumed contracts of the standard library ----

/// what is left of `s` after `k` chunks of `n` items
pub open spec fn rest(s: Seq<u8>, n: int, k: nat) -> Seq<u8>
    decreases k
{
    if k == 0 { s } else { behead(rest(s, n, (k - 1) as nat), n) }
}
pub open spec fn head(s: Seq<u8>, n: int) -> Seq<u8> { if s.len() <= n { s } else { s.take(n) } }
pub open spec fn behead(s: Seq<u8>, n: int) -> Seq<u8> { if s.len() <= n { seq![] } else { s.skip(n) } }

/// stands for `std::slice::Chunks`
#[verifier::external_body]
pub struct Chunks<'a> { it: std::slice::Chunks<'a, u8> }
impl<'a> Chunks<'a> { pub uninterp spec fn left(self) -> Seq<&'a [u8]>; }
impl<'a> Iterator for Chunks<'a> {
    type Item = &'a [u8];
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a [u8]>) { self.it.next() }
}
impl<'a> IteratorSpecImpl for Chunks<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<&'a [u8]> { self.left() }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.left().len()) }
    open spec fn peek(&self, i: int) -> Option<&'a [u8]> { None }
}
pub open spec fn chunked(s: Seq<u8>, n: int, p: Seq<&[u8]>) -> bool {
    &&& forall|k: int| 0 <= k < p.len() ==> rest(s, n, k as nat).len() > 0 && (#[trigger] p[k])@ == head(rest(s, n, k as nat), n)
    &&& rest(s, n, p.len()).len() == 0
}
pub trait ChunksOf {
    spec fn bytes(&self) -> Seq<u8>;
    fn chunks_of<'a>(&'a self, n: usize) -> (c: Chunks<'a>)
        requires n > 0
        ensures chunked(self.bytes(), n as int, c.left());
}
impl ChunksOf for [u8] {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn chunks_of<'a>(&'a self, n: usize) -> (c: Chunks<'a>) { Chunks { it: self.chunks(n) } }
}

// ---- the code ----

//@item src/ur20_1com_232_485_422.rs struct MessageProcessor
//@item src/ur20_1com_232_485_422.rs enum InitState


/// the bytes of a queue of pieces
pub open spec fn concat(p: Seq<Vec<u8>>) -> Seq<u8>
    decreases p.len()
{
    if p.len() == 0 { seq![] } else { concat(p.drop_last()) + p.last()@ }
}
pub proof fn concat_push(p: Seq<Vec<u8>>, v: Vec<u8>)
    ensures concat(p.push(v)) == concat(p) + v@
{
    assert(p.push(v).drop_last() =~= p);
}
pub proof fn concat_front(p: Seq<Vec<u8>>)
    requires p.len() > 0
    ensures concat(p) == p[0]@ + concat(p.skip(1))
    decreases p.len()
{
    if p.len() == 1 {
        assert(p.drop_last() =~= seq![]);
        assert(p.skip(1) =~= seq![]);
        assert(concat(p.drop_last()) =~= seq![]);
        assert(concat(p) =~= p[0]@ + concat(p.skip(1)));
    } else {
        concat_front(p.drop_last());
        assert(p.skip(1).drop_last() =~= p.drop_last().skip(1));
        assert(concat(p) =~= p[0]@ + concat(p.skip(1)));
    }
}

pub open spec fn succ(n: usize) -> usize { ((n + 1) % 4) as usize }

/// one cycle of the processor `p` that reads `i` and `o`
pub open spec fn cycled(p: MessageProcessor, i: ProcessInput, o: ProcessOutput, q: MessageProcessor, r: ProcessOutput) -> bool {
    &&& q.process_data_len == p.process_data_len
    &&& r.rx_cnt_ack == i.rx_cnt
    &&& r.disable_tx_hw_buffer == o.disable_tx_hw_buffer
    &&& p.init_state == InitState::ClearBuffers ==> q.init_state == InitState::Reset && !r.reset && r.rx_buf_flush && r.tx_buf_flush
    &&& p.init_state == InitState::Reset ==> q.init_state == InitState::Done && q.last_rx_cnt > 3 && r.reset && !r.rx_buf_flush && !r.tx_buf_flush
    &&& p.init_state != InitState::Done ==> r.data@.len() == 0 && r.tx_cnt == o.tx_cnt && q.in_data@ =~= p.in_data@ && q.waiting() =~= p.waiting()
    &&& p.init_state == InitState::Done ==> {
        &&& q.init_state == InitState::Done
        &&& r.reset == o.reset && r.rx_buf_flush == o.rx_buf_flush && r.tx_buf_flush == o.tx_buf_flush
        &&& if p.waiting().len() > 0 && succ(i.tx_cnt_ack) != o.tx_cnt {
            r.tx_cnt == succ(i.tx_cnt_ack) && 0 < r.data@.len() <= p.process_data_len.size() && r.data@ + q.waiting() =~= p.waiting()
        } else {
            r.tx_cnt == o.tx_cnt && r.data == o.data && q.waiting() =~= p.waiting()
        }
        &&& if i.data_available && p.last_rx_cnt != i.rx_cnt {
            q.in_data@ =~= p.in_data@ + i.data@ && q.last_rx_cnt == i.rx_cnt
        } else {
            q.in_data@ =~= p.in_data@ && q.last_rx_cnt == p.last_rx_cnt
        }
    }
}
/// `q` is `p` after `b` was written to it
pub open spec fn written(p: MessageProcessor, b: Seq<u8>, q: MessageProcessor) -> bool {
    &&& q.waiting() =~= p.waiting() + b
    &&& q.in_data@ =~= p.in_data@ && q.init_state == p.init_state && q.last_rx_cnt == p.last_rx_cnt
    &&& q.process_data_len == p.process_data_len
}

impl MessageProcessor {
    /// every queued piece fits in a frame and is not empty
    pub open spec fn wf(&self) -> bool {
        forall|i: int| 0 <= i < self.out_data@.len() ==>
            0 < (#[trigger] self.out_data@[i])@.len() <= self.process_data_len.size()
    }
    /// the bytes that wait to be sent
    pub open spec fn waiting(&self) -> Seq<u8> { concat(self.out_data@) }

//@fn src/ur20_1com_232_485_422.rs impl MessageProcessor :: new
//@ params process_data_len
//@  ensures
//@    r.wf(), r.init_state == InitState::ClearBuffers,
//@    r.waiting() == Seq::<u8>::empty(), r.in_data@ == Seq::<u8>::empty(),
//@    r.process_data_len == process_data_len,
//@end

//@fn src/ur20_1com_232_485_422.rs impl MessageProcessor :: inc_cnt
//@ params tx_cnt_ack
//@  requires tx_cnt_ack <= 3
//@  ensures r == succ(tx_cnt_ack)
//@ start
//@   proof { assert forall|n: usize| #[trigger] (n & 3) == n % 4 by { assert((n & 3) == n % 4) by (bit_vector); } }
//@end

//@fn src/ur20_1com_232_485_422.rs impl MessageProcessor :: next
//@ params input output
//@  requires old(self).wf(), input.tx_cnt_ack <= 3
//@  ensures
//@    // [C11] pieces fit
//@    final(self).wf(),
//@    final(self).process_data_len == old(self).process_data_len,
//@    // [C12]
//@    r.rx_cnt_ack == input.rx_cnt,
//@    // [C11] settings
//@    r.disable_tx_hw_buffer == output.disable_tx_hw_buffer,
//@    // [C13] start-up
//@    old(self).init_state == InitState::ClearBuffers ==> {
//@      &&& !r.reset && r.rx_buf_flush && r.tx_buf_flush
//@      &&& final(self).init_state == InitState::Reset
//@    },
//@    old(self).init_state == InitState::Reset ==> {
//@      &&& r.reset && !r.rx_buf_flush && !r.tx_buf_flush
//@      &&& final(self).init_state == InitState::Done
//@      // the next message is new, whatever its counter
//@      &&& final(self).last_rx_cnt > 3
//@    },
//@    old(self).init_state != InitState::Done ==> {
//@      &&& r.data@.len() == 0 && r.tx_cnt == output.tx_cnt
//@      &&& final(self).in_data@ == old(self).in_data@
//@      &&& final(self).out_data@ == old(self).out_data@
//@    },
//@    // [C11 C13]
//@    old(self).init_state == InitState::Done ==> {
//@      &&& final(self).init_state == InitState::Done
//@      &&& r.reset == output.reset && r.rx_buf_flush == output.rx_buf_flush && r.tx_buf_flush == output.tx_buf_flush
//@    },
//@    // [C11] sending
//@    old(self).init_state == InitState::Done ==> if old(self).waiting().len() > 0 && succ(input.tx_cnt_ack) != output.tx_cnt {
//@      &&& r.tx_cnt == succ(input.tx_cnt_ack)
//@      &&& 0 < r.data@.len() <= old(self).process_data_len.size()
//@      &&& r.data@ + final(self).waiting() == old(self).waiting()
//@    } else {
//@      &&& r.tx_cnt == output.tx_cnt
//@      &&& r.data == output.data
//@      &&& final(self).waiting() == old(self).waiting()
//@    },
//@    // [C12] receiving
//@    old(self).init_state == InitState::Done ==> if input.data_available && old(self).last_rx_cnt != input.rx_cnt {
//@      &&& final(self).in_data@ == old(self).in_data@ + input.data@
//@      &&& final(self).last_rx_cnt == input.rx_cnt
//@    } else {
//@      &&& final(self).in_data@ == old(self).in_data@
//@      &&& final(self).last_rx_cnt == old(self).last_rx_cnt
//@    },
//@    // [C21] all of it
//@    cycled(*old(self), *input, *output, *final(self), r),
//@ start
//@   proof { if old(self).out_data@.len() > 0 { concat_front(old(self).out_data@);
//@     assert(old(self).out_data@.remove(0) =~= old(self).out_data@.skip(1)); } }
//@end

//@fn src/ur20_1com_232_485_422.rs impl Read for MessageProcessor :: read
//@ params buf
//@  ensures
//@    r is Ok,
//@    r->Ok_0 as int == if old(buf)@.len() <= old(self).in_data@.len() { old(buf)@.len() as int } else { old(self).in_data@.len() as int },
//@    final(buf)@.len() == old(buf)@.len(),
//@    final(buf)@.take(r->Ok_0 as int) + final(self).in_data@ == old(self).in_data@,
//@    final(self).out_data@ == old(self).out_data@, final(self).init_state == old(self).init_state,
//@    final(self).last_rx_cnt == old(self).last_rx_cnt, final(self).process_data_len == old(self).process_data_len,
//@ loop 0
//@   before let ghost fb = final(buf)@;
//@   invariant
//@     it.seq().len() == len,
//@     len <= old(self).in_data@.len(),
//@     fb.len() == old(buf)@.len(), len <= fb.len(),
//@     self.in_data@ == old(self).in_data@.skip(it.index()),
//@     self.out_data@ == old(self).out_data@, self.init_state == old(self).init_state,
//@     self.last_rx_cnt == old(self).last_rx_cnt, self.process_data_len == old(self).process_data_len,
//@     forall|i: int| 0 <= i < len ==> *final(#[trigger] it.seq()[i]) == fb[i],
//@     forall|i: int| 0 <= i < it.index() ==> #[trigger] fb[i] == old(self).in_data@[i],
//@   after
//@     proof { assert(final(buf)@.take(len as int) + self.in_data@ =~= old(self).in_data@); }
//@end

//@fn src/ur20_1com_232_485_422.rs impl Write for MessageProcessor :: write
//@ params buf
//@  requires old(self).wf()
//@  ensures
//@    r == Ok::<usize, Error>(buf@.len() as usize),
//@    final(self).wf(),
//@    final(self).waiting() == old(self).waiting() + buf@,
//@    final(self).in_data@ == old(self).in_data@, final(self).init_state == old(self).init_state,
//@    final(self).last_rx_cnt == old(self).last_rx_cnt, final(self).process_data_len == old(self).process_data_len,
//@ loop 0
//@   invariant
//@     self.wf(),
//@     self.in_data@ == old(self).in_data@, self.init_state == old(self).init_state,
//@     self.last_rx_cnt == old(self).last_rx_cnt, self.process_data_len == old(self).process_data_len,
//@     chunked(buf@, self.process_data_len.size(), it.seq()),
//@     concat(self.out_data@) + rest(buf@, self.process_data_len.size(), it.index() as nat) =~= concat(old(self).out_data@) + buf@,
//@   enter
//@     let ghost q = self.out_data@;
//@   leave
//@     proof {
//@       let v = self.out_data@.last();
//@       assert(v@ =~= c@);
//@       assert(self.out_data@ =~= q.push(v));
//@       concat_push(q, v);
//@       let a = rest(buf@, self.process_data_len.size(), it.index() as nat);
//@       assert(a =~= c@ + behead(a, self.process_data_len.size()));
//@       assert(rest(buf@, self.process_data_len.size(), (it.index() + 1) as nat) == behead(a, self.process_data_len.size()));
//@     }
//@end

//@fn src/ur20_1com_232_485_422.rs impl Write for MessageProcessor :: flush
//@  requires old(self).wf()
//@  ensures
//@    // what is written is sent by the cycles
//@    r is Ok,
//@    final(self).wf(),
//@    final(self).waiting() == old(self).waiting(),
//@    final(self).in_data@ == old(self).in_data@, final(self).init_state == old(self).init_state,
//@    final(self).last_rx_cnt == old(self).last_rx_cnt, final(self).process_data_len == old(self).process_data_len,
//@end
}

// ---- every history: the contracts above, used by an arbitrary client ----

pub enum Op { Write(Vec<u8>), Flush, Cycle(ProcessInput, ProcessOutput), Read(Vec<u8>) }

/// what the client has observed
pub ghost struct Trace {
    /// everything written
    pub written: Seq<u8>,
    /// the payloads handed over in cycles that carried a new piece
    pub sent: Seq<u8>,
    /// the messages accepted, in order of arrival
    pub accepted: Seq<u8>,
    /// everything read
    pub read: Seq<u8>,
}
/// a message is new when it is presented with a counter other than the one before
pub open spec fn is_new(p: &MessageProcessor, i: &ProcessInput) -> bool {
    p.init_state == InitState::Done && i.data_available && p.last_rx_cnt != i.rx_cnt
}
pub open spec fn sends(p: &MessageProcessor, i: &ProcessInput, o: &ProcessOutput) -> bool {
    p.init_state == InitState::Done && p.waiting().len() > 0 && succ(i.tx_cnt_ack) != o.tx_cnt
}

/// C11, C12 and C13 over every history of writes, flushes, cycles and reads
pub fn history(len: ProcessDataLength, ops: Vec<Op>) -> (t: Ghost<Trace>)
    requires forall|k: int| 0 <= k < ops@.len() ==> match #[trigger] ops@[k] { Op::Cycle(i, o) => i.tx_cnt_ack <= 3, _ => true }
    ensures
        // nothing lost, nothing repeated, nothing reordered
        t@.sent.is_prefix_of(t@.written),
        t@.read.is_prefix_of(t@.accepted),
{
    let mut p = MessageProcessor::new(len);
    let ghost mut t = Trace { written: seq![], sent: seq![], accepted: seq![], read: seq![] };
    let mut k: usize = 0;
    while k < ops.len()
        invariant
            p.wf(), k <= ops@.len(),
            forall|k: int| 0 <= k < ops@.len() ==> match #[trigger] ops@[k] { Op::Cycle(i, o) => i.tx_cnt_ack <= 3, _ => true },
            t.sent + p.waiting() == t.written,
            t.read + p.in_data@ == t.accepted,
        decreases ops@.len() - k
    {
        let ghost t0 = t;
        let ghost q = p;
        match &ops[k] {
            Op::Write(b) => {
                let _ = p.write(b.as_slice());
                proof {
                    t.written = t.written + b@;
                    assert(t.sent + p.waiting() =~= t.written);
                }
            }
            Op::Flush => {
                let _ = p.flush();
            }
            Op::Read(b) => {
                let mut b = b.to_vec();
                let r = p.read(b.as_mut_slice());
                let n = match r { Ok(n) => n, Err(_) => 0 };
                proof {
                    t.read = t.read + b@.take(n as int);
                    assert(t.read + p.in_data@ =~= t.accepted);
                }
            }
            Op::Cycle(i, o) => {
                let r = p.next(i, o);
                proof {
                    if sends(&q, i, o) {
                        t.sent = t.sent + r.data@;
                        assert(t.sent + p.waiting() =~= t.written);
                    }
                    if is_new(&q, i) {
                        t.accepted = t.accepted + i.data@;
                        assert(t.read + p.in_data@ =~= t.accepted);
                    }
                }
            }
        }
        k += 1;
    }
    proof {
        assert(t.sent =~= t.written.take(t.sent.len() as int));
        assert(t.read =~= t.accepted.take(t.read.len() as int));
    }
    Ghost(t)
}

} // verus!
//@endscope
