//! Serial data stream: what the operations of a `MessageProcessor` promise.
//!
//! The ghost state of a stream: the cycles since creation, the bytes written
//! and not yet handed to the module, the bytes received and not yet read, and
//! the counter of the last message. Each step of the real code is checked
//! against one step of it.

use crate::nd;
use std::io::{Read, Write};
use ur20::ur20_1com_232_485_422::{MessageProcessor, ProcessDataLength, ProcessInput, ProcessOutput};

/// bytes in order
pub struct Queue<const N: usize> {
    pub bytes: [u8; N],
    pub start: usize,
    pub end: usize,
}

impl<const N: usize> Queue<N> {
    #[cfg(not(kani))]
    pub fn boxed() -> Box<Self> {
        Box::new(Self::new())
    }
    pub fn new() -> Self {
        Queue { bytes: [0; N], start: 0, end: 0 }
    }
    pub fn len(&self) -> usize {
        self.end - self.start
    }
    pub fn push(&mut self, b: &[u8]) {
        if nd::NATIVE {
            nd::assume(self.end + b.len() <= N);
        }
        for i in 0..b.len() {
            self.bytes[self.end + i] = b[i];
        }
        self.end += b.len();
    }
    /// `got` are the oldest bytes; takes them
    pub fn take(&mut self, got: &[u8]) -> bool {
        if got.len() > self.len() {
            return false;
        }
        let mut same = true;
        for i in 0..got.len() {
            same &= got[i] == self.bytes[self.start + i];
        }
        self.start += got.len();
        same
    }
}

pub fn user_len(small: bool) -> usize {
    if small { 6 } else { 14 }
}

pub fn data_len(small: bool) -> ProcessDataLength {
    if small { ProcessDataLength::EightBytes } else { ProcessDataLength::SixteenBytes }
}

/// An input record; `data` bytes of arbitrary content.
pub fn input(rx_cnt: usize, tx_cnt_ack: usize, data_available: bool, data: &[u8]) -> ProcessInput {
    ProcessInput {
        data_available,
        buffer_nearly_full: nd::bool(),
        rx_cnt,
        tx_cnt_ack,
        ready: nd::bool(),
        data: data.to_vec(),
    }
}

/// An output record with arbitrary flags.
pub fn output(tx_cnt: usize, data: &[u8]) -> ProcessOutput {
    ProcessOutput {
        rx_buf_flush: nd::bool(),
        tx_buf_flush: nd::bool(),
        disable_tx_hw_buffer: nd::bool(),
        tx_cnt,
        rx_cnt_ack: nd::upto(3),
        reset: nd::bool(),
        data: data.to_vec(),
    }
}

pub fn next_cnt(c: usize) -> usize {
    (c + 1) % 4
}

pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}

/// the two cycles of the start-up
pub fn start_up(p: &mut MessageProcessor) {
    let i = ProcessInput::default();
    let o = ProcessOutput::default();
    nd::forget(p.next(&i, &o));
    nd::forget(p.next(&i, &o));
    nd::forget(i);
    nd::forget(o);
}

pub fn write(p: &mut MessageProcessor, b: &[u8]) {
    match p.write(b) {
        Ok(n) => assert!(n == b.len(), "a write takes all bytes"),
        Err(_) => panic!("a write fails"),
    }
}

pub fn read(p: &mut MessageProcessor, b: &mut [u8]) -> usize {
    match p.read(b) {
        Ok(n) => n,
        Err(_) => panic!("a read fails"),
    }
}

/// C11: one cycle after the start-up, seen by the sender.
pub fn sender<const N: usize>(
    tx: &mut Queue<N>,
    max: usize,
    i: &ProcessInput,
    o: &ProcessOutput,
    out: &ProcessOutput,
) {
    if tx.len() > 0 && o.tx_cnt == i.tx_cnt_ack {
        assert!(out.tx_cnt == next_cnt(i.tx_cnt_ack), "counter of the new piece");
        assert!(out.data.len() > 0, "a piece is handed over");
        assert!(out.data.len() <= max, "a piece fits the frame");
        assert!(tx.take(&out.data), "the oldest bytes are handed over");
    } else {
        assert!(out.tx_cnt == o.tx_cnt, "counter without a new piece");
        assert!(same(&out.data, &o.data), "data without a new piece");
    }
    assert!(
        out.rx_buf_flush == o.rx_buf_flush
            && out.tx_buf_flush == o.tx_buf_flush
            && out.disable_tx_hw_buffer == o.disable_tx_hw_buffer
            && out.reset == o.reset,
        "flags stay as they were"
    );
}

/// C12: one cycle after the start-up, seen by the receiver.
pub fn receiver<const N: usize>(
    rx: &mut Queue<N>,
    last: &mut Option<usize>,
    i: &ProcessInput,
    out: &ProcessOutput,
) {
    if i.data_available && *last != Some(i.rx_cnt) {
        rx.push(&i.data);
        *last = Some(i.rx_cnt);
    }
    assert!(out.rx_cnt_ack == i.rx_cnt, "the presented counter is confirmed");
}

/// C12: a read of up to `b.len()` bytes
pub fn reading<const N: usize>(p: &mut MessageProcessor, rx: &mut Queue<N>, b: &mut [u8]) {
    let n = read(p, b);
    let expect = if b.len() < rx.len() { b.len() } else { rx.len() };
    assert!(n == expect, "number of bytes read");
    assert!(rx.take(&b[..n]), "the oldest bytes are read");
}

/// `n` bytes, none like its neighbours
#[cfg(not(kani))]
pub fn text(n: usize) -> Vec<u8> {
    let mut x = 1 + nd::u8() as u32;
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            (x >> 24) as u8
        })
        .collect()
}

/// C11: writes in one of the ways of `Write`
#[cfg(not(kani))]
pub fn write_somehow(p: &mut MessageProcessor, b: &[u8]) {
    match nd::upto(3) {
        0 => assert!(p.write_all(b).is_ok(), "a write fails"),
        1 => {
            write(p, b);
            assert!(p.flush().is_ok(), "a flush fails");
        }
        _ => write(p, b),
    }
}

/// C12: reads in one of the ways of `Read`
#[cfg(not(kani))]
pub fn read_somehow<const N: usize>(p: &mut MessageProcessor, rx: &mut Queue<N>, b: &mut [u8]) {
    match nd::upto(7) {
        0 => {
            let mut v = vec![];
            assert!(p.read_to_end(&mut v).is_ok_and(|n| n == rx.len() && n == v.len()), "number of bytes read");
            assert!(rx.take(&v), "the oldest bytes are read");
        }
        1 if b.len() <= rx.len() => {
            assert!(p.read_exact(b).is_ok(), "there are enough bytes");
            assert!(rx.take(b), "the oldest bytes are read");
        }
        2 => {
            assert!(p.flush().is_ok(), "a flush fails");
            reading(p, rx, b);
        }
        _ => reading(p, rx, b),
    }
}
