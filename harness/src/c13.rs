//! C13 serial start-up

use crate::com::*;
use crate::nd;
use ur20::ur20_1com_232_485_422::{MessageProcessor, ProcessInput, ProcessOutput};

fn any_cycle(p: &mut MessageProcessor) -> (ProcessInput, ProcessOutput, ProcessOutput) {
    let (b, c): ([u8; 3], [u8; 2]) = (nd::u8s(), nd::u8s());
    let i = input(nd::upto(3), nd::upto(3), nd::bool(), &b);
    let o = output(nd::upto(3), &c);
    let out = p.next(&i, &o);
    (i, o, out)
}

fn nothing_sent(o: &ProcessOutput, out: &ProcessOutput) {
    assert!(out.data.len() == 0, "user data is sent during the start-up");
    assert!(out.tx_cnt == o.tx_cnt, "the transmit counter moves during the start-up");
}

fn first(p: &mut MessageProcessor) {
    let (i, o, out) = any_cycle(p);
    assert!(out.rx_buf_flush && out.tx_buf_flush, "first cycle: both buffers are flushed");
    assert!(!out.reset, "first cycle: no reset");
    nothing_sent(&o, &out);
    nd::forget((i, o, out));
}

fn second(p: &mut MessageProcessor) {
    let (i, o, out) = any_cycle(p);
    assert!(!out.rx_buf_flush && !out.tx_buf_flush, "second cycle: no flush");
    assert!(out.reset, "second cycle: reset");
    nothing_sent(&o, &out);
    nd::forget((i, o, out));
}

fn nothing_received(p: &mut MessageProcessor) {
    let mut b = [0; 4];
    assert!(read(p, &mut b) == 0, "data is accepted during the start-up");
}

/// whether data has been written before, between or after the two cycles
fn start<const A: usize, const B: usize, const C: usize>(small: bool) {
    let mut p = MessageProcessor::new(data_len(small));
    let (a, b, c): ([u8; A], [u8; B], [u8; C]) = (nd::u8s(), nd::u8s(), nd::u8s());
    let mut tx = Queue::<64>::new();
    write(&mut p, &a);
    tx.push(&a);
    first(&mut p);
    nothing_received(&mut p);
    write(&mut p, &b);
    tx.push(&b);
    second(&mut p);
    nothing_received(&mut p);
    write(&mut p, &c);
    tx.push(&c);
    // the first message is accepted whatever its counter, the first piece sent
    let (b, rx_cnt, ack): ([u8; 2], _, _) = (nd::u8s(), nd::upto(3), nd::upto(3));
    let i = input(rx_cnt, ack, true, &b);
    let cnt = if nd::bool() { ack } else { next_cnt(ack) };
    let o = output(cnt, &[]);
    let out = p.next(&i, &o);
    if tx.len() > 0 && cnt == ack {
        assert!(out.data.len() > 0 && tx.take(&out.data), "data written before is sent afterwards");
    } else {
        assert!(out.data.len() == 0, "nothing to be sent");
    }
    let mut got = [0; 4];
    let n = read(&mut p, &mut got);
    assert!(n == 2 && got[0] == b[0] && got[1] == b[1], "the first message is accepted");
    nd::forget((i, o, out));
    nd::forget(p);
}

harnesses! {
    #[kani::unwind(18)]
    fn c13_idle() { start::<0, 0, 0>(true); }
    #[kani::unwind(18)]
    fn c13_before() { start::<3, 0, 0>(true); }
    #[kani::unwind(18)]
    fn c13_between() { start::<0, 2, 0>(true); }
    #[kani::unwind(18)]
    fn c13_always() { start::<7, 1, 1>(true); }
    #[kani::unwind(18)]
    fn c13_16() { start::<15, 0, 2>(false); }
}

searches! {
    // any amount of data before, between and after the two cycles, any frames
    fn c13_long() {
        let small = nd::bool();
        let mut p = MessageProcessor::new(data_len(small));
        let mut tx = Queue::<4096>::new();
        let mut rx = Queue::<4096>::new();
        let mut last = None;
        for step in 0..2 + nd::count(4, 40) {
            for _ in 0..nd::count(2, 20) {
                let b: Vec<u8> = (0..nd::count(20, 300)).map(|_| nd::u8()).collect();
                write_somehow(&mut p, &b);
                tx.push(&b);
            }
            let b: Vec<u8> = (0..nd::upto(user_len(small))).map(|_| nd::u8()).collect();
            let c: Vec<u8> = (0..nd::upto(user_len(small))).map(|_| nd::u8()).collect();
            let ack = nd::upto(3);
            let i = input(nd::upto(3), ack, nd::bool(), &b);
            let o = output(if nd::bool() { ack } else { next_cnt(ack) }, &c);
            let out = p.next(&i, &o);
            if step < 2 {
                assert!(out.rx_buf_flush == (step == 0) && out.tx_buf_flush == (step == 0), "flush in the first cycle");
                assert!(out.reset == (step == 1), "reset in the second cycle");
                nothing_sent(&o, &out);
                nothing_received(&mut p);
            } else {
                sender(&mut tx, user_len(small), &i, &o, &out);
                receiver(&mut rx, &mut last, &i, &out);
                if nd::bool() {
                    let mut b = vec![0; nd::count(20, 300)];
                    read_somehow(&mut p, &mut rx, &mut b);
                }
            }
        }
    }
}
