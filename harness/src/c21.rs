//! C21 serial modules of a coupler

use crate::nd;
use ur20::ModuleType::*;
use ur20::ur20_fbc_mod_tcp::{Coupler, CouplerConfig};
use ur20::{Address, ChannelValue};

fn coupler(cfg: &CouplerConfig) -> Coupler {
    match Coupler::new(cfg) {
        Ok(c) => c,
        Err(_) => panic!("a valid configuration is rejected"),
    }
}

/// two serial modules with 8 byte frames
fn two() -> CouplerConfig {
    CouplerConfig {
        modules: vec![UR20_1COM_232_485_422, UR20_1COM_232_485_422],
        offsets: vec![0x8000, 0, 0x8040, 0x40],
        params: vec![vec![0; 10], vec![0; 10]],
    }
}

/// registers of a frame
fn frame(status: u8, data: &[u8]) -> [u16; 4] {
    let mut b = [0u8; 8];
    b[0] = status;
    b[1] = data.len() as u8;
    for i in 0..data.len() {
        b[2 + i] = data[i];
    }
    let mut w = [0u16; 4];
    for i in 0..4 {
        w[i] = u16::from(b[2 * i]) | u16::from(b[2 * i + 1]) << 8;
    }
    w
}

fn both(a: [u16; 4], b: [u16; 4]) -> [u16; 8] {
    [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]]
}

fn cycle(c: &mut Coupler, i: &[u16; 8], o: &[u16; 8]) -> [u16; 8] {
    let r = c.next(i, o);
    let mut w = [0u16; 8];
    match &r {
        Ok(x) => {
            assert!(x.len() == 8, "size of the image");
            for k in 0..8 {
                w[k] = x[k];
            }
        }
        Err(_) => panic!("a cycle fails"),
    }
    nd::forget(r);
    w
}

fn started(cfg: &CouplerConfig) -> Coupler {
    let mut c = coupler(cfg);
    cycle(&mut c, &[0; 8], &[0; 8]);
    cycle(&mut c, &[0; 8], &[0; 8]);
    c
}

fn same(a: &[u16; 8], b: &[u16; 8]) -> bool {
    let mut ok = true;
    for i in 0..8 {
        ok &= a[i] == b[i];
    }
    ok
}

fn read(c: &mut Coupler, m: usize, b: &mut [u8]) -> usize {
    match c.reader(m) {
        Some(r) => match r.read(b) {
            Ok(n) => n,
            Err(_) => panic!("a read fails"),
        },
        None => panic!("no reader"),
    }
}

fn reports(v: &ChannelValue, data: &[u8]) {
    match v {
        ChannelValue::Bytes(b) => {
            assert!(b.len() == data.len() && !data.is_empty(), "bytes reported");
            for i in 0..data.len() {
                assert!(b[i] == data[i], "byte reported");
            }
        }
        ChannelValue::None => assert!(data.is_empty(), "data is not reported"),
        _ => panic!("value kind"),
    }
}

const NONE: [u16; 4] = [0; 4];

harnesses! {
    // data for the first or second module
    #[kani::unwind(12)]
    fn c21_send_first() { send(0); }
    #[kani::unwind(12)]
    fn c21_send_second() { send(1); }
    #[kani::unwind(12)]
    fn c21_set_output() {
        let cfg = two();
        let mut c = started(&cfg);
        let b: [u8; 2] = nd::u8s();
        let ok = c.set_output(&Address { module: 1, channel: 0 }, ChannelValue::Bytes(b.to_vec())).is_ok();
        assert!(ok, "a valid write");
        let w = cycle(&mut c, &[0; 8], &[0; 8]);
        assert!(same(&w, &both(NONE, frame(0x08, &b))), "only the second module sends");
        nd::forget(c);
        nd::forget(cfg);
    }
    #[kani::unwind(12)]
    fn c21_receive_first() { receive(0); }
    #[kani::unwind(12)]
    fn c21_receive_second() { receive(1); }
    // both have sent counter 1: reported for both, and once
    #[kani::unwind(12)]
    fn c21_report_sent() {
        let cfg = two();
        let mut c = coupler(&cfg);
        let (x, y): ([u8; 2], [u8; 1]) = (nd::u8s(), nd::u8s());
        let o = both(frame(0x08, &x), frame(0x08, &y));
        cycle(&mut c, &[0; 8], &o);
        reports(&c.outputs()[0][0], &x);
        reports(&c.outputs()[1][0], &y);
        let z: [u8; 2] = nd::u8s();
        let o = both(frame(0x08, &x), frame(0x10, &z));
        cycle(&mut c, &[0; 8], &o);
        reports(&c.outputs()[0][0], &[]);
        reports(&c.outputs()[1][0], &z);
        nd::forget(c);
        nd::forget(cfg);
    }
    // modules of other kinds have no data stream
    #[kani::unwind(12)]
    fn c21_streams() {
        let cfg = CouplerConfig {
            modules: vec![UR20_4DI_P, UR20_1COM_232_485_422, UR20_PF_O_1DI_SIL],
            offsets: vec![0xffff, 0, 0x8000, 0x10, 0xffff, 0x50],
            params: vec![vec![0; 4], vec![0; 10], vec![]],
        };
        let mut c = coupler(&cfg);
        let n = nd::u16() as usize;
        assert!(c.reader(n).is_some() == (n == 1), "reader");
        assert!(c.writer(n).is_some() == (n == 1), "writer");
        nd::forget(c);
        nd::forget(cfg);
    }
}

fn send(m: usize) {
    let cfg = two();
    let mut c = started(&cfg);
    let b: [u8; 3] = nd::u8s();
    match c.writer(m) {
        Some(w) => assert!(w.write(&b).is_ok(), "a write fails"),
        None => panic!("no writer"),
    }
    let w = cycle(&mut c, &[0; 8], &[0; 8]);
    let f = frame(0x08, &b);
    assert!(same(&w, &if m == 0 { both(f, NONE) } else { both(NONE, f) }), "only that module sends");
    nd::forget(c);
    nd::forget(cfg);
}

fn receive(m: usize) {
    let cfg = two();
    let mut c = started(&cfg);
    let b: [u8; 3] = nd::u8s();
    let f = frame(0x09, &b);
    let i = if m == 0 { both(f, NONE) } else { both(NONE, f) };
    let w = cycle(&mut c, &i, &[0; 8]);
    let f = frame(0x20, &[]);
    assert!(same(&w, &if m == 0 { both(f, NONE) } else { both(NONE, f) }), "that module confirms");
    reports(&c.inputs()[m][0], &b);
    reports(&c.inputs()[1 - m][0], &[]);
    let mut r = [0u8; 4];
    assert!(read(&mut c, 1 - m, &mut r) == 0, "nothing for the other module");
    assert!(read(&mut c, m, &mut r) == 3, "all bytes are read");
    assert!(r[0] == b[0] && r[1] == b[1] && r[2] == b[2], "the bytes received");
    nd::forget(c);
    nd::forget(cfg);
}

#[cfg(not(kani))]
mod search {
    use super::*;
    use crate::com::{self, Queue};
    use crate::world::*;
    use ur20::ur20_1com_232_485_422::{ProcessInput, ProcessOutput};

    struct Stream {
        tx: Queue<8192>,
        rx: Queue<8192>,
        last: Option<usize>,
        reported: usize,
        out: ProcessOutput,
        pending: Option<Vec<u8>>,
    }

    fn encode_in(i: &ProcessInput, b: &mut [u8]) {
        b.fill(0);
        b[0] = i.data_available as u8
            | (i.buffer_nearly_full as u8) << 1
            | (i.rx_cnt as u8) << 3
            | (i.tx_cnt_ack as u8) << 5
            | (i.ready as u8) << 7;
        b[1] = i.data.len() as u8;
        b[2..2 + i.data.len()].copy_from_slice(&i.data);
    }

    fn encode_out(o: &ProcessOutput, b: &mut [u8]) {
        b.fill(0);
        b[0] = o.rx_buf_flush as u8
            | (o.tx_buf_flush as u8) << 1
            | (o.disable_tx_hw_buffer as u8) << 2
            | (o.tx_cnt as u8) << 3
            | (o.rx_cnt_ack as u8) << 5
            | (o.reset as u8) << 7;
        b[1] = o.data.len() as u8;
        b[2..2 + o.data.len()].copy_from_slice(&o.data);
    }

    fn decode(b: &[u8]) -> ProcessOutput {
        ProcessOutput {
            rx_buf_flush: b[0] & 1 != 0,
            tx_buf_flush: b[0] & 2 != 0,
            disable_tx_hw_buffer: b[0] & 4 != 0,
            tx_cnt: (b[0] >> 3 & 3) as usize,
            rx_cnt_ack: (b[0] >> 5 & 3) as usize,
            reset: b[0] & 0x80 != 0,
            data: b[2..2 + b[1] as usize].to_vec(),
        }
    }

    pub fn c21_world() {
        let w = World::any(4, true);
        let mut c = w.coupler();
        let mut s: Vec<Option<Stream>> = w
            .slots
            .iter()
            .map(|s| {
                (s.kind == COM).then(|| Stream {
                    tx: Queue::new(),
                    rx: Queue::new(),
                    last: None,
                    reported: 0,
                    out: ProcessOutput::default(),
                    pending: None,
                })
            })
            .collect();
        for step in 0..nd::count(30, 300) {
            let (mut i, mut o) = w.images();
            let mut seen: Vec<Option<ProcessInput>> = vec![];
            for (m, slot) in w.slots.iter().enumerate() {
                let Some(st) = &mut s[m] else {
                    seen.push(None);
                    continue;
                };
                let max = slot.size().0 - 2;
                match nd::upto(7) {
                    0 => {
                        let b: Vec<u8> = (0..nd::count(20, 300)).map(|_| nd::u8()).collect();
                        match c.writer(m) {
                            Some(w) => {
                                assert!(w.write_all(&b).is_ok(), "a write fails");
                                assert!(!nd::bool() || w.flush().is_ok(), "a flush fails");
                            }
                            None => panic!("no writer"),
                        }
                        st.tx.push(&b);
                    }
                    1 => {
                        let b: Vec<u8> = (0..1 + nd::count(9, 300)).map(|_| nd::u8()).collect();
                        let a = Address { module: m, channel: 0 };
                        assert!(c.set_output(&a, ChannelValue::Bytes(b.clone())).is_ok(), "a valid write");
                        st.pending = Some(b);
                    }
                    2 => {
                        let mut b = vec![0; nd::count(20, 300)];
                        let n = read(&mut c, m, &mut b);
                        assert!(n == b.len().min(st.rx.len()), "number of bytes read");
                        assert!(st.rx.take(&b[..n]), "the oldest bytes are read");
                    }
                    _ => {}
                }
                if let Some(b) = st.pending.take() {
                    st.tx.push(&b);
                }
                let b: Vec<u8> = (0..nd::upto(max)).map(|_| nd::u8()).collect();
                let cnt = st.out.tx_cnt;
                let ack = if nd::bool() { cnt } else { (cnt + 3) % 4 };
                let x = com::input(nd::upto(3), ack, nd::bool(), &b);
                let a = slot.inp.unwrap();
                encode_in(&x, &mut i[a..a + max + 2]);
                let a = slot.out.unwrap();
                encode_out(&st.out, &mut o[a..a + max + 2]);
                seen.push(Some(x));
            }
            let r = match c.next(&words(&i), &words(&o)) {
                Ok(r) => r,
                Err(e) => panic!("a cycle fails: {e:?}"),
            };
            let mut image = vec![];
            for x in &r {
                image.extend(x.to_le_bytes());
            }
            for (m, slot) in w.slots.iter().enumerate() {
                assert!(c.writer(m).is_some() == s[m].is_some(), "data stream");
                let (Some(st), Some(x)) = (&mut s[m], &seen[m]) else { continue };
                let max = slot.size().0 - 2;
                let a = slot.out.unwrap();
                let out = decode(&image[a..a + max + 2]);
                if step < 2 {
                    assert!(out.data.is_empty(), "no data during the start-up");
                } else {
                    com::sender(&mut st.tx, max, x, &st.out, &out);
                    com::receiver(&mut st.rx, &mut st.last, x, &out);
                    reports(&c.inputs()[m][0], if x.data_available { &x.data } else { &[] });
                }
                let fresh = st.out.tx_cnt != st.reported;
                reports(&c.outputs()[m][0], if fresh { &st.out.data } else { &[] });
                st.reported = st.out.tx_cnt;
                st.out = out;
            }
        }
    }

    /// much more data than is sent or read in a few cycles
    pub fn c21_flood() {
        let mut w = World { slots: vec![], in_bytes: 0, out_bytes: 0 };
        for _ in 0..1 + nd::upto(2) {
            let mut params = vec![0; 10];
            params[0] = nd::upto(1) as u16;
            let mut s = Slot { kind: COM, params, inp: None, out: None };
            let (i, o) = s.size();
            s.inp = place(&mut w.in_bytes, i);
            s.out = place(&mut w.out_bytes, o);
            w.slots.push(s);
        }
        let mut c = w.coupler();
        let mut s: Vec<_> = w.slots.iter().map(|_| (Queue::<65536>::boxed(), Queue::<65536>::boxed(), ProcessOutput::default(), None)).collect();
        let cycles = 2 + nd::count(1000, 2500);
        let start = nd::upto(2);
        for step in 0..cycles {
            let (mut i, mut o) = (vec![0; w.in_bytes + 2], vec![0; w.out_bytes + 2]);
            let mut seen = vec![];
            for (m, slot) in w.slots.iter().enumerate() {
                let (tx, _, out, _) = &mut s[m];
                let max = slot.size().0 - 2;
                if step == start {
                    let b = com::text(nd::count(2000, 8000));
                    match c.writer(m) {
                        Some(w) => assert!(w.write_all(&b).is_ok(), "a write fails"),
                        None => panic!("no writer"),
                    }
                    tx.push(&b);
                    let b = com::text(1 + nd::count(2000, 8000));
                    let a = Address { module: m, channel: 0 };
                    assert!(c.set_output(&a, ChannelValue::Bytes(b.clone())).is_ok(), "a valid write");
                    tx.push(&b);
                }
                let x = ProcessInput {
                    data_available: true,
                    rx_cnt: step % 4,
                    tx_cnt_ack: out.tx_cnt,
                    data: [m as u8, step as u8, (step >> 8) as u8, 7].iter().cycle().take(max).copied().collect(),
                    ..Default::default()
                };
                let a = slot.inp.unwrap();
                encode_in(&x, &mut i[a..a + max + 2]);
                let a = slot.out.unwrap();
                encode_out(out, &mut o[a..a + max + 2]);
                seen.push(x);
            }
            let r = match c.next(&words(&i), &words(&o)) {
                Ok(r) => r,
                Err(e) => panic!("a cycle fails: {e:?}"),
            };
            let image: Vec<u8> = r.iter().flat_map(|x| x.to_le_bytes()).collect();
            for (m, slot) in w.slots.iter().enumerate() {
                let (tx, rx, old, last) = &mut s[m];
                let max = slot.size().0 - 2;
                let a = slot.out.unwrap();
                let out = decode(&image[a..a + max + 2]);
                if step >= 2 {
                    com::sender(tx, max, &seen[m], old, &out);
                    com::receiver(rx, last, &seen[m], &out);
                    reports(&c.inputs()[m][0], &seen[m].data);
                }
                *old = out;
            }
        }
        for m in 0..w.slots.len() {
            let (_, rx, _, _) = &mut s[m];
            let mut b = vec![0; 65536];
            let n = read(&mut c, m, &mut b);
            assert!(n == rx.len(), "number of bytes read");
            assert!(rx.take(&b[..n]), "the oldest bytes are read");
        }
    }
}

#[cfg(not(kani))]
pub const SEARCHES: &[crate::Entry] = &[
    (concat!(module_path!(), "::c21_world"), false, search::c21_world),
    (concat!(module_path!(), "::c21_flood"), false, search::c21_flood),
];
