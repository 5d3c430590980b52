//! C11 serial sending

use crate::com::*;
use crate::nd;
use ur20::ur20_1com_232_485_422::MessageProcessor;

/// One cycle: the module has confirmed the current counter or the one before.
fn cycle<const N: usize>(p: &mut MessageProcessor, tx: &mut Queue<N>, small: bool, old: &[u8], rx: &[u8]) {
    let ack = nd::upto(3);
    let cnt = if nd::bool() { ack } else { next_cnt(ack) };
    let i = input(nd::upto(3), ack, nd::bool(), rx);
    let o = output(cnt, old);
    let out = p.next(&i, &o);
    sender(tx, user_len(small), &i, &o, &out);
    nd::forget(out);
    nd::forget(i);
    nd::forget(o);
}

fn written<const W: usize>(p: &mut MessageProcessor, tx: &mut Queue<64>) {
    let b: [u8; W] = nd::u8s();
    write(p, &b);
    tx.push(&b);
}

fn one<const W: usize>(small: bool) {
    let mut p = MessageProcessor::new(data_len(small));
    let mut tx = Queue::<64>::new();
    start_up(&mut p);
    written::<W>(&mut p, &mut tx);
    let old: [u8; 3] = nd::u8s();
    cycle(&mut p, &mut tx, small, &old, &[1]);
    nd::forget(p);
}

harnesses! {
    #[kani::unwind(20)]
    fn c11_none() { one::<0>(true); }
    #[kani::unwind(20)]
    fn c11_short() { one::<5>(true); }
    #[kani::unwind(20)]
    fn c11_two_pieces() { one::<7>(true); }
    #[kani::unwind(20)]
    fn c11_short_16() { one::<14>(false); }
    #[kani::unwind(20)]
    fn c11_two_16() { one::<15>(false); }
    #[kani::unwind(20)]
    fn c11_history() {
        let mut p = MessageProcessor::new(data_len(true));
        let mut tx = Queue::<64>::new();
        start_up(&mut p);
        written::<7>(&mut p, &mut tx);
        cycle(&mut p, &mut tx, true, &[9], &[]);
        written::<2>(&mut p, &mut tx);
        cycle(&mut p, &mut tx, true, &[8], &[]);
        cycle(&mut p, &mut tx, true, &[], &[]);
        nd::forget(p);
    }

    // longer histories
    #[kani::unwind(20)]
    fn c11_history_16() {
        let mut p = MessageProcessor::new(data_len(false));
        let mut tx = Queue::<64>::new();
        start_up(&mut p);
        cycle(&mut p, &mut tx, false, &[9, 9, 9], &[]);
        written::<1>(&mut p, &mut tx);
        written::<15>(&mut p, &mut tx);
        cycle(&mut p, &mut tx, false, &[1], &[4, 5]);
        cycle(&mut p, &mut tx, false, &[8, 7], &[]);
        written::<3>(&mut p, &mut tx);
        cycle(&mut p, &mut tx, false, &[], &[6]);
        cycle(&mut p, &mut tx, false, &[], &[]);
        nd::forget(p);
    }
    // whatever the counters are, no byte is lost, repeated or reordered
    #[kani::unwind(20)]
    fn c11_any_counters() {
        let mut p = MessageProcessor::new(data_len(true));
        let mut tx = Queue::<64>::new();
        start_up(&mut p);
        written::<13>(&mut p, &mut tx);
        any(&mut p, &mut tx);
        written::<2>(&mut p, &mut tx);
        any(&mut p, &mut tx);
        any(&mut p, &mut tx);
        any(&mut p, &mut tx);
        nd::forget(p);
    }
}

fn any<const N: usize>(p: &mut MessageProcessor, tx: &mut Queue<N>) {
    let i = input(nd::upto(3), nd::upto(3), nd::bool(), &[]);
    let o = output(nd::upto(3), &[3, 4]);
    let out = p.next(&i, &o);
    if out.tx_cnt != o.tx_cnt {
        assert!(out.tx_cnt == next_cnt(i.tx_cnt_ack), "counter of the new piece");
        assert!(out.data.len() > 0 && out.data.len() <= 6, "a piece fits the frame");
        assert!(tx.take(&out.data), "the oldest bytes are handed over");
    } else {
        assert!(same(&out.data, &o.data), "data without a new piece");
    }
    nd::forget(out);
    nd::forget(i);
    nd::forget(o);
}

searches! {
    // long histories of a well-behaved, arbitrarily slow module
    fn c11_long() {
        let small = nd::bool();
        let mut p = MessageProcessor::new(data_len(small));
        let mut tx = Queue::<8192>::new();
        start_up(&mut p);
        let mut cnt = nd::upto(3);
        let mut old = vec![];
        for _ in 0..nd::count(60, 400) {
            match nd::upto(3) {
                0 => {
                    let n = nd::count(31, 600);
                    let b: Vec<u8> = (0..n).map(|_| nd::u8()).collect();
                    write_somehow(&mut p, &b);
                    tx.push(&b);
                }
                _ => {
                    let ack = if nd::bool() { cnt } else { (cnt + 3) % 4 };
                    let i = input(nd::upto(3), ack, nd::bool(), &[7; 3][..nd::upto(3)]);
                    let o = output(cnt, &old);
                    let out = p.next(&i, &o);
                    sender(&mut tx, user_len(small), &i, &o, &out);
                    cnt = out.tx_cnt;
                    old = out.data;
                }
            }
        }
        // a prompt module drains everything
        for _ in 0..2000 {
            if tx.len() == 0 {
                break;
            }
            let i = input(0, cnt, false, &[]);
            let o = output(cnt, &old);
            let out = p.next(&i, &o);
            sender(&mut tx, user_len(small), &i, &o, &out);
            cnt = out.tx_cnt;
            old = out.data;
        }
        assert!(tx.len() == 0, "data is left unsent");
    }
    // much more data than a module takes in a few cycles
    fn c11_flood() {
        let small = nd::bool();
        let mut p = MessageProcessor::new(data_len(small));
        let mut tx = Box::new(Queue::<131072>::new());
        start_up(&mut p);
        for _ in 0..1 + nd::upto(3) {
            let b = text(nd::count(5000, 15000));
            write_somehow(&mut p, &b);
            tx.push(&b);
        }
        let mut cnt = nd::upto(3);
        let mut old = vec![];
        let max = tx.len();
        for _ in 0..max {
            if tx.len() == 0 {
                break;
            }
            let i = input(0, cnt, false, &[]);
            let o = output(cnt, &old);
            let out = p.next(&i, &o);
            sender(&mut tx, user_len(small), &i, &o, &out);
            cnt = out.tx_cnt;
            old = out.data;
        }
        assert!(tx.len() == 0, "data is left unsent");
    }
}
