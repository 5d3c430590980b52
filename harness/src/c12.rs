//! C12 serial reception

use crate::com::*;
use crate::nd;
use ur20::ur20_1com_232_485_422::MessageProcessor;

type Ghost = (Queue<64>, Option<usize>);

fn start(small: bool) -> (MessageProcessor, Ghost) {
    let mut p = MessageProcessor::new(data_len(small));
    start_up(&mut p);
    (p, (Queue::new(), None))
}

/// One cycle that presents `N` bytes; anything may go on in sending direction.
fn cycle<const N: usize>(p: &mut MessageProcessor, g: &mut Ghost, available: bool, rx_cnt: usize) {
    let b: [u8; N] = nd::u8s();
    let i = input(rx_cnt, nd::upto(3), available, &b);
    let o = output(nd::upto(3), &[]);
    let out = p.next(&i, &o);
    receiver(&mut g.0, &mut g.1, &i, &out);
    nd::forget(out);
    nd::forget(i);
    nd::forget(o);
}

fn reads<const N: usize>(p: &mut MessageProcessor, g: &mut Ghost) {
    let mut b: [u8; N] = nd::u8s();
    reading(p, &mut g.0, &mut b);
}

/// first message with counter `a`, second presentation with counter `b`
fn two(a: usize, b: usize, x: bool, y: bool) {
    let (mut p, mut g) = start(true);
    cycle::<2>(&mut p, &mut g, x, a);
    cycle::<3>(&mut p, &mut g, y, b);
    reads::<8>(&mut p, &mut g);
    nd::forget(p);
}

fn all_two(a: usize) {
    let mut b = 0;
    while b < 4 {
        two(a, b, true, true);
        two(a, b, true, false);
        two(a, b, false, true);
        b += 1;
    }
}

/// partial reads between messages
fn partial(a: usize, b: usize) {
    let (mut p, mut g) = start(true);
    cycle::<3>(&mut p, &mut g, true, a);
    reads::<2>(&mut p, &mut g);
    cycle::<2>(&mut p, &mut g, true, b);
    reads::<2>(&mut p, &mut g);
    reads::<0>(&mut p, &mut g);
    reads::<4>(&mut p, &mut g);
    nd::forget(p);
}

/// one byte per presentation
fn sequence(c: [usize; 4]) {
    let (mut p, mut g) = start(true);
    cycle::<1>(&mut p, &mut g, true, c[0]);
    cycle::<1>(&mut p, &mut g, true, c[1]);
    cycle::<1>(&mut p, &mut g, true, c[2]);
    cycle::<1>(&mut p, &mut g, true, c[3]);
    reads::<5>(&mut p, &mut g);
    nd::forget(p);
}

harnesses! {
    #[kani::unwind(20)]
    fn c12_two_0() { all_two(0); }
    #[kani::unwind(20)]
    fn c12_two_1() { all_two(1); }
    #[kani::unwind(20)]
    fn c12_two_2() { all_two(2); }
    #[kani::unwind(20)]
    fn c12_two_3() { all_two(3); }
    #[kani::unwind(20)]
    fn c12_partial() {
        partial(0, 0);
        partial(0, 1);
        partial(3, 0);
        partial(2, 1);
    }
    #[kani::unwind(20)]
    fn c12_sequence() {
        sequence([0, 1, 2, 3]);
        sequence([3, 0, 3, 3]);
        sequence([1, 1, 2, 1]);
        sequence([2, 3, 0, 2]);
    }
    // full frames
    #[kani::unwind(32)]
    fn c12_full_16() {
        let (mut p, mut g) = start(false);
        cycle::<14>(&mut p, &mut g, true, 0);
        cycle::<14>(&mut p, &mut g, true, 1);
        reads::<15>(&mut p, &mut g);
        reads::<15>(&mut p, &mut g);
        nd::forget(p);
    }
    // while data is being sent
    #[kani::unwind(20)]
    fn c12_duplex() {
        let (mut p, mut g) = start(true);
        write(&mut p, &[1, 2, 3, 4, 5, 6, 7, 8]);
        cycle::<2>(&mut p, &mut g, true, 2);
        cycle::<0>(&mut p, &mut g, true, 3);
        cycle::<2>(&mut p, &mut g, true, 0);
        reads::<5>(&mut p, &mut g);
        nd::forget(p);
    }
}

searches! {
    fn c12_long() {
        let small = nd::bool();
        let mut p = MessageProcessor::new(data_len(small));
        start_up(&mut p);
        let mut rx = Queue::<8192>::new();
        let mut last = None;
        for _ in 0..nd::count(120, 900) {
            match nd::upto(5) {
                0 => {
                    let mut b = vec![0; nd::count(40, 900)];
                    read_somehow(&mut p, &mut rx, &mut b);
                }
                1 => write_somehow(&mut p, &[5; 20][..nd::upto(20)]),
                _ => {
                    let b: Vec<u8> = (0..nd::upto(user_len(small))).map(|_| nd::u8()).collect();
                    let i = input(nd::upto(3), nd::upto(3), nd::bool(), &b);
                    let o = output(nd::upto(3), &[]);
                    let out = p.next(&i, &o);
                    receiver(&mut rx, &mut last, &i, &out);
                }
            }
        }
        let mut b = vec![0; 8192];
        read_somehow(&mut p, &mut rx, &mut b);
        assert!(rx.len() == 0, "data is left unread");
    }
    // much more data than is read in a few cycles
    fn c12_flood() {
        let small = nd::bool();
        let mut p = MessageProcessor::new(data_len(small));
        start_up(&mut p);
        let mut rx = Box::new(Queue::<131072>::new());
        let mut last = None;
        for _ in 0..1 + nd::upto(2) {
            for n in 0..nd::count(700, 2400) {
                let i = input(n % 4, 0, true, &text(user_len(small)));
                let o = output(0, &[]);
                let out = p.next(&i, &o);
                receiver(&mut rx, &mut last, &i, &out);
            }
            let mut b = vec![0; nd::count(8000, 131072)];
            read_somehow(&mut p, &mut rx, &mut b);
        }
        let mut b = vec![0; 131072];
        read_somehow(&mut p, &mut rx, &mut b);
        assert!(rx.len() == 0, "data is left unread");
    }
}
