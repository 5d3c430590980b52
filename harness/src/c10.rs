//! C10 serial interface frames

use crate::nd;
use ur20::ur20_1com_232_485_422::{Mod, ModuleParameters, ProcessDataLength, ProcessInput, ProcessOutput};
use ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData;
use ur20::{ChannelValue, Error};

fn module(words: usize) -> Mod {
    let mut m = Mod::default();
    m.mod_params = ModuleParameters {
        process_data_len: if words == 4 { ProcessDataLength::EightBytes } else { ProcessDataLength::SixteenBytes },
    };
    m
}

/// byte `i` of a register list, low byte first
fn byte(d: &[u16], i: usize) -> u8 {
    if i % 2 == 0 { (d[i / 2] % 256) as u8 } else { (d[i / 2] / 256) as u8 }
}

fn same_data(v: &[u8], d: &[u16], len: usize) {
    assert!(v.len() == len, "payload length is the announced one");
    for i in 0..2 * d.len() - 2 {
        if i < len {
            assert!(v[i] == byte(d, i + 2), "payload byte");
        }
    }
}

fn bit(s: u8, n: u32) -> bool {
    (s / (1 << n)) % 2 == 1
}

fn cnt(s: u8, n: u32) -> usize {
    ((s / (1 << n)) % 4) as usize
}

fn input_fields(v: &ProcessInput, d: &[u16], len: usize) {
    let ProcessInput { data_available, buffer_nearly_full, rx_cnt, tx_cnt_ack, ready, data } = v;
    let s = byte(d, 0);
    assert!(*data_available == bit(s, 0), "bit 0: telegram available");
    assert!(*buffer_nearly_full == bit(s, 1), "bit 1: buffer nearly full");
    assert!(*rx_cnt == cnt(s, 3), "bits 3, 4: receive counter");
    assert!(*tx_cnt_ack == cnt(s, 5), "bits 5, 6: confirmed transmit counter");
    assert!(*ready == bit(s, 7), "bit 7: ready");
    same_data(data, d, len);
}

fn output_fields(v: &ProcessOutput, d: &[u16], len: usize) {
    let ProcessOutput { rx_buf_flush, tx_buf_flush, disable_tx_hw_buffer, tx_cnt, rx_cnt_ack, reset, data } = v;
    let s = byte(d, 0);
    assert!(*rx_buf_flush == bit(s, 0), "bit 0: flush receive buffer");
    assert!(*tx_buf_flush == bit(s, 1), "bit 1: flush transmit buffer");
    assert!(*disable_tx_hw_buffer == bit(s, 2), "bit 2: lock hardware buffer");
    assert!(*tx_cnt == cnt(s, 3), "bits 3, 4: transmit counter");
    assert!(*rx_cnt_ack == cnt(s, 5), "bits 5, 6: confirmed receive counter");
    assert!(*reset == bit(s, 7), "bit 7: reset");
    same_data(data, d, len);
}

fn decode_input<const W: usize>() {
    let m = module(W);
    let d: [u16; W] = nd::u16s();
    let mut d = d;
    let len = if nd::steered() {
        let l = nd::upto(2 * W + 1);
        d[0] = (d[0] & 0xff) | (l as u16) << 8;
        l
    } else {
        (d[0] >> 8) as usize
    };
    let r = m.process_input_data(&d);
    match &r {
        Ok(v) => {
            assert!(len <= 2 * W - 2, "a frame that announces more data than it holds is accepted");
            assert!(v.len() == 1, "one channel");
            match &v[0] {
                ChannelValue::ComRsIn(x) => input_fields(x, &d, len),
                _ => panic!("value kind"),
            }
        }
        Err(e) => {
            assert!(len > 2 * W - 2, "a valid frame is rejected");
            assert!(matches!(e, Error::BufferLength), "error kind");
        }
    }
    assert!(m.process_input_byte_count() == 2 * W, "frame size");
    nd::forget(r);
    nd::forget(m);
}

fn decode_output<const W: usize>() {
    let m = module(W);
    let d: [u16; W] = nd::u16s();
    let mut d = d;
    let len = if nd::steered() {
        let l = nd::upto(2 * W + 1);
        d[0] = (d[0] & 0xff) | (l as u16) << 8;
        l
    } else {
        (d[0] >> 8) as usize
    };
    let r = m.process_output_data(&d);
    match &r {
        Ok(v) => {
            assert!(len <= 2 * W - 2, "a frame that announces more data than it holds is accepted");
            assert!(v.len() == 1, "one channel");
            match &v[0] {
                ChannelValue::ComRsOut(x) => output_fields(x, &d, len),
                _ => panic!("value kind"),
            }
        }
        Err(e) => {
            assert!(len > 2 * W - 2, "a valid frame is rejected");
            assert!(matches!(e, Error::BufferLength), "error kind");
        }
    }
    assert!(m.process_output_byte_count() == 2 * W, "frame size");
    nd::forget(r);
    nd::forget(m);
}


/// register lists of any other length
fn short<const W: usize>(n: usize) {
    let m = module(W);
    let d: [u16; 10] = nd::u16s();
    let mut d = d;
    if nd::steered() {
        d[0] = (d[0] & 0xff) | (nd::upto(20) as u16) << 8;
    }
    let len = (d[0] >> 8) as usize;
    let fits = n > 0 && len <= 2 * n - 2;
    let r = m.process_input_data(&d[..n]);
    match &r {
        Ok(v) => {
            assert!(fits, "a frame that announces more data than it holds is accepted");
            match &v[0] {
                ChannelValue::ComRsIn(x) => input_fields(x, &d[..n], len),
                _ => panic!("value kind"),
            }
        }
        Err(e) => assert!(matches!(e, Error::BufferLength), "error kind"),
    }
    nd::forget(r);
    let r = m.process_output_data(&d[..n]);
    match &r {
        Ok(v) => {
            assert!(fits, "a frame that announces more data than it holds is accepted");
            match &v[0] {
                ChannelValue::ComRsOut(x) => output_fields(x, &d[..n], len),
                _ => panic!("value kind"),
            }
        }
        Err(e) => assert!(matches!(e, Error::BufferLength), "error kind"),
    }
    nd::forget(r);
    nd::forget(m);
}

/// every record with `n` bytes of user data; read back as it was written
fn encode<const W: usize>(n: usize) {
    let m = module(W);
    let user: [u8; 16] = nd::u8s();
    let (tx_cnt, rx_cnt_ack) = (nd::upto(3), nd::upto(3));
    let (rx_buf_flush, tx_buf_flush, disable_tx_hw_buffer, reset) = (nd::bool(), nd::bool(), nd::bool(), nd::bool());
    let o = ProcessOutput {
        rx_buf_flush,
        tx_buf_flush,
        disable_tx_hw_buffer,
        tx_cnt,
        rx_cnt_ack,
        reset,
        data: user[..n].to_vec(),
    };
    let v = [ChannelValue::ComRsOut(o)];
    let r = m.process_output_values(&v);
    match &r {
        Ok(w) => {
            assert!(n <= 2 * W - 2, "more data than the frame holds is accepted");
            assert!(w.len() == W, "frame size");
            let s = byte(w, 0);
            assert!(byte(w, 1) as usize == n, "announced length");
            assert!(
                bit(s, 0) == rx_buf_flush && bit(s, 1) == tx_buf_flush && bit(s, 2) == disable_tx_hw_buffer && bit(s, 7) == reset,
                "flags"
            );
            assert!(cnt(s, 3) == tx_cnt && cnt(s, 5) == rx_cnt_ack, "counters");
            for i in 0..n {
                assert!(byte(w, i + 2) == user[i], "user data");
            }
        }
        Err(e) => {
            assert!(n > 2 * W - 2, "a valid record is rejected");
            assert!(
                matches!(e, Error::DataLength | Error::BufferLength),
                "error kind"
            );
        }
    }
    nd::forget(r);
    nd::forget(v);
    nd::forget(m);
}

/// counters beyond the sequence
fn counters<const W: usize>() {
    let m = module(W);
    let cnt = || if nd::steered() { nd::upto(6) } else { nd::u32() as usize };
    let (tx_cnt, rx_cnt_ack) = (cnt(), cnt());
    nd::assume(tx_cnt > 3 || rx_cnt_ack > 3);
    let v = [ChannelValue::ComRsOut(ProcessOutput { tx_cnt, rx_cnt_ack, ..ProcessOutput::default() })];
    let r = m.process_output_values(&v);
    match &r {
        Ok(_) => panic!("a counter beyond the sequence is accepted"),
        Err(e) => assert!(matches!(e, Error::SequenceNumber), "error kind"),
    }
    nd::forget(r);
    nd::forget(v);
    nd::forget(m);
}

/// any frame is read back as it was written, up to the unused bytes
fn round_trip<const W: usize>() {
    let m = module(W);
    let n = nd::upto(2 * W - 2);
    let user: [u8; 16] = nd::u8s();
    let o = ProcessOutput {
        rx_buf_flush: nd::bool(),
        tx_buf_flush: nd::bool(),
        disable_tx_hw_buffer: nd::bool(),
        tx_cnt: nd::upto(3),
        rx_cnt_ack: nd::upto(3),
        reset: nd::bool(),
        data: user[..n].to_vec(),
    };
    let v = [ChannelValue::ComRsOut(o)];
    let w = m.process_output_values(&v).expect("a valid record is rejected");
    let back = m.process_output_data(&w).expect("the written frame is rejected");
    assert!(back.len() == 1 && back[0] == v[0], "record read back");
}

/// value lists of another kind or length
fn kinds<const W: usize>(part: usize, k: usize) {
    let m = module(W);
    let x = match k {
        0 => ChannelValue::Bit(nd::bool()),
        1 => ChannelValue::Disabled,
        2 => ChannelValue::None,
        _ => ChannelValue::Decimal32(nd::f32()),
    };
    let v = [ChannelValue::ComRsOut(ProcessOutput::default()), x];
    let r = match part {
        0 => m.process_output_values(&v[..0]),
        1 => m.process_output_values(&v),
        _ => m.process_output_values(&v[1..]),
    };
    assert!(matches!(r, Err(Error::ChannelValue)), "a wrong list is accepted");
    nd::forget(r);
    nd::forget(v);
    nd::forget(m);
}

harnesses! {
    #[kani::unwind(20)]
    fn c10_input_8() { decode_input::<4>(); }
    #[kani::unwind(20)]
    fn c10_input_16() { decode_input::<8>(); }
    #[kani::unwind(20)]
    fn c10_output_8() { decode_output::<4>(); }
    #[kani::unwind(20)]
    fn c10_output_16() { decode_output::<8>(); }

    #[kani::unwind(24)]
    fn c10_short_0() {
        for n in 0..4 {
            short::<8>(n);
        }
        short::<8>(9);
    }
    #[kani::unwind(24)]
    fn c10_short_4() {
        for n in 4..8 {
            short::<8>(n);
        }
    }
    #[kani::unwind(24)]
    fn c10_short_8() {
        for n in 0..6 {
            if n != 4 {
                short::<4>(n);
            }
        }
    }
    #[kani::unwind(20)]
    fn c10_encode_8_0() { encode::<4>(0); }
    #[kani::unwind(20)]
    fn c10_encode_8_1() { encode::<4>(1); }
    #[kani::unwind(20)]
    fn c10_encode_8_2() { encode::<4>(2); }
    #[kani::unwind(20)]
    fn c10_encode_8_3() { encode::<4>(3); }
    #[kani::unwind(20)]
    fn c10_encode_8_4() { encode::<4>(4); }
    #[kani::unwind(20)]
    fn c10_encode_8_5() { encode::<4>(5); }
    #[kani::unwind(20)]
    fn c10_encode_8_6() { encode::<4>(6); }
    #[kani::unwind(20)]
    fn c10_encode_8_7() { encode::<4>(7); }
    #[kani::unwind(20)]
    fn c10_encode_8_8() { encode::<4>(8); }
    #[kani::unwind(20)]
    fn c10_encode_16_0() { encode::<8>(0); }
    #[kani::unwind(20)]
    fn c10_encode_16_1() { encode::<8>(1); }
    #[kani::unwind(20)]
    fn c10_encode_16_2() { encode::<8>(2); }
    #[kani::unwind(20)]
    fn c10_encode_16_3() { encode::<8>(3); }
    #[kani::unwind(20)]
    fn c10_encode_16_4() { encode::<8>(4); }
    #[kani::unwind(20)]
    fn c10_encode_16_5() { encode::<8>(5); }
    #[kani::unwind(20)]
    fn c10_encode_16_6() { encode::<8>(6); }
    #[kani::unwind(20)]
    fn c10_encode_16_7() { encode::<8>(7); }
    #[kani::unwind(20)]
    fn c10_encode_16_8() { encode::<8>(8); }
    #[kani::unwind(20)]
    fn c10_encode_16_9() { encode::<8>(9); }
    #[kani::unwind(20)]
    fn c10_encode_16_10() { encode::<8>(10); }
    #[kani::unwind(20)]
    fn c10_encode_16_11() { encode::<8>(11); }
    #[kani::unwind(20)]
    fn c10_encode_16_12() { encode::<8>(12); }
    #[kani::unwind(20)]
    fn c10_encode_16_13() { encode::<8>(13); }
    #[kani::unwind(20)]
    fn c10_encode_16_14() { encode::<8>(14); }
    #[kani::unwind(20)]
    fn c10_encode_16_15() { encode::<8>(15); }
    #[kani::unwind(20)]
    fn c10_encode_16_16() { encode::<8>(16); }
    #[kani::unwind(20)]
    fn c10_counters_8() { counters::<4>(); }
    #[kani::unwind(20)]
    fn c10_counters_16() { counters::<8>(); }
    #[kani::unwind(20)]
    fn c10_kinds_none() { kinds::<4>(0, 0); }
    #[kani::unwind(20)]
    fn c10_kinds_more() { kinds::<4>(1, 0); }
    #[kani::unwind(20)]
    fn c10_kinds_other() { kinds::<8>(2, 0); }
    #[kani::unwind(20)]
    fn c10_kinds_disabled() { kinds::<4>(2, 1); }
    #[kani::unwind(20)]
    fn c10_kinds_unset() { kinds::<4>(2, 2); }
    #[kani::unwind(20)]
    fn c10_kinds_decimal() { kinds::<4>(2, 3); }
}

/// frames of any length; announced lengths around what they hold
#[cfg(not(kani))]
fn any_frame() {
    let n = nd::count(20, 600);
    let mut b: Vec<u8> = (0..n).map(|_| nd::u8()).collect();
    if n > 1 && nd::bool() {
        b[1] = (n + nd::upto(2)).saturating_sub(3).min(255) as u8;
    }
    let fits = n > 1 && usize::from(b[1]) <= n - 2;
    let d: Vec<u16> = b.chunks(2).map(|c| u16::from(c[0]) + 256 * c.get(1).map_or(0, |h| u16::from(*h))).collect();
    match ProcessInput::try_from_byte_message(&b) {
        Ok(x) => {
            assert!(fits, "a frame that announces more data than it holds is accepted");
            input_fields(&x, &d, b[1].into());
        }
        Err(e) => assert!(!fits && matches!(e, Error::BufferLength), "a valid frame is rejected"),
    }
    match ProcessOutput::try_from_byte_message(&b) {
        Ok(x) => {
            assert!(fits, "a frame that announces more data than it holds is accepted");
            output_fields(&x, &d, b[1].into());
        }
        Err(e) => assert!(!fits && matches!(e, Error::BufferLength), "a valid frame is rejected"),
    }
}

/// records with any amount of data, lists of any length
#[cfg(not(kani))]
fn any_record() {
    let w = if nd::bool() { 4 } else { 8 };
    let m = module(w);
    let data: Vec<u8> = (0..nd::count(20, 600)).map(|_| nd::u8()).collect();
    let fits = data.len() <= 2 * w - 2;
    let o = ProcessOutput { tx_cnt: nd::upto(3), data, ..ProcessOutput::default() };
    let n = if nd::bool() { 1 } else { nd::count(10, 300) };
    let v = vec![ChannelValue::ComRsOut(o); n];
    let r = m.process_output_values(&v);
    assert!(r.is_ok() == (fits && n == 1), "records of the frame's size, one per module");
    if let Ok(r) = r {
        let back = m.process_output_data(&r).expect("the written frame is rejected");
        assert!(back == v, "record read back");
    }
}

searches! {
    fn c10_any_frame() { any_frame(); }
    fn c10_any_record() { any_record(); }
    fn c10_round_trip() {
        if nd::bool() { round_trip::<4>() } else { round_trip::<8>() }
    }
}
