//! C08 frequency counter records

use crate::nd;
use std::time::Duration;
use ur20::ur20_2fcnt_100::{ChannelParameters, Command, Mod, ProcessInput, ProcessOutput};
use ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData;
use ur20::{ChannelValue, Error, InputFilter};

/// a 32 bit value, mostly in range of the counter when searching
fn value() -> u32 {
    let v = nd::u32();
    if nd::steered() && nd::upto(3) > 0 { v & 0x07ff_ffff } else { v }
}

fn command() -> Option<Command> {
    match nd::upto(2) {
        0 => None,
        1 => Some(Command::Start),
        _ => Some(Command::Stop),
    }
}

/// `d` is exactly `nanos`
fn is_nanos(d: &Duration, nanos: u64) -> bool {
    d.subsec_nanos() < 1_000_000_000
        && d.as_secs() < 10_000
        && d.as_secs() * 1_000_000_000 + d.subsec_nanos() as u64 == nanos
}

fn check_input(v: &ChannelValue, d: u32, count: u32, status: u16) {
    match v {
        ChannelValue::FcntIn(ProcessInput { duration, count: c, active }) => {
            assert!(*c == count, "count of the channel");
            assert!(*active == (status & 0x100 != 0), "activity of the channel");
            match duration {
                Some(x) => {
                    assert!(d < 0x07ff_ffff, "measurement range exceeded");
                    assert!(is_nanos(x, d as u64 * 125), "period of the channel");
                }
                None => assert!(d >= 0x07ff_ffff, "a valid period is dropped"),
            }
        }
        _ => panic!("value kind"),
    }
}

fn check_output(v: &ChannelValue, micros: u32, control: u16) {
    match v {
        ChannelValue::FcntOut(ProcessOutput { duration, command }) => {
            assert!(is_nanos(duration, micros as u64 * 1000), "preset period");
            let start = control & 0x100 != 0;
            let stop = control & 0x200 != 0;
            match command {
                Some(Command::Start) => assert!(start, "start command"),
                Some(Command::Stop) => assert!(stop && !start, "stop command"),
                None => assert!(!start && !stop, "command is dropped"),
            }
        }
        _ => panic!("value kind"),
    }
}

fn filters(m: &mut Mod) {
    for p in &mut m.ch_params {
        if nd::bool() {
            p.input_filter = InputFilter::ms1;
        }
    }
}

/// `ch`: the channel with arbitrary content, the other one is fixed
fn decode_input(ch: usize) {
    let mut m = Mod::default();
    filters(&mut m);
    let (d, c) = (value(), value());
    let (s0, s1) = (nd::u16(), nd::u16());
    let mut r = [0u16; 10];
    let other = 1 - ch;
    r[4 * ch] = (d >> 16) as u16;
    r[4 * ch + 1] = d as u16;
    r[4 * ch + 2] = (c >> 16) as u16;
    r[4 * ch + 3] = c as u16;
    r[4 * other] = 0x0012;
    r[4 * other + 1] = 0x3456;
    r[4 * other + 2] = 0x789a;
    r[4 * other + 3] = 0xbcde;
    r[8] = s0;
    r[9] = s1;
    let v = m.process_input_data(&r);
    match &v {
        Ok(v) => {
            assert!(v.len() == 2, "one value per channel");
            check_input(&v[ch], d, c, r[8 + ch]);
            check_input(&v[other], 0x0012_3456, 0x789a_bcde, r[8 + other]);
        }
        Err(_) => panic!("register content is rejected"),
    }
    nd::forget(v);
    nd::forget(m);
}

fn decode_output(ch: usize) {
    let mut m = Mod::default();
    filters(&mut m);
    let d = value();
    let (s0, s1) = (nd::u16(), nd::u16());
    let other = 1 - ch;
    let mut r = [0u16; 6];
    r[2 * ch] = (d >> 16) as u16;
    r[2 * ch + 1] = d as u16;
    r[2 * other] = 0x0012;
    r[2 * other + 1] = 0x3456;
    r[4] = s0;
    r[5] = s1;
    let v = m.process_output_data(&r);
    match &v {
        Ok(v) => {
            assert!(v.len() == 2, "one value per channel");
            check_output(&v[ch], d, r[4 + ch]);
            check_output(&v[other], 0x0012_3456, r[4 + other]);
        }
        Err(_) => panic!("register content is rejected"),
    }
    nd::forget(v);
    nd::forget(m);
}

/// any duration and command on one channel
fn encode(ch: usize) {
    let m = Mod::default();
    let mut secs = (nd::u32() as u64) << 32 | nd::u32() as u64;
    if nd::steered() && nd::upto(9) > 0 {
        secs %= 12;
    }
    let nanos = nd::u32();
    nd::assume(nanos < 1_000_000_000);
    let (c0, c1) = (command(), command());
    let unused = nd::bool();
    let duration = Duration::new(secs, nanos);
    let v: [ChannelValue; 2] = std::array::from_fn(|i| {
        if i == ch {
            ChannelValue::FcntOut(ProcessOutput { duration, command: c0 })
        } else if unused {
            ChannelValue::Disabled
        } else {
            ChannelValue::FcntOut(ProcessOutput { duration: Duration::new(1, 0), command: c1 })
        }
    });
    let r = m.process_output_values(&v);
    match &r {
        Ok(w) => {
            assert!(secs < 8 || (secs == 8 && nanos < 388_608_000), "a duration beyond the range is accepted");
            assert!(w.len() == 6, "register count");
            let micros = (w[2 * ch] as u32) << 16 | w[2 * ch + 1] as u32;
            let whole = secs as u32 * 1_000_000;
            assert!(micros >= whole && micros - whole < 1_000_000, "preset period: seconds");
            let part = (micros - whole) * 1000;
            assert!(part <= nanos && nanos - part < 1000, "preset period: microseconds");
            let bits = |c: Option<Command>| match c {
                None => 0,
                Some(Command::Start) => 0x100,
                Some(Command::Stop) => 0x200,
            };
            assert!(w[4 + ch] == bits(c0), "command of the channel");
            let o = 1 - ch;
            let (hi, lo, ctl) = if unused { (0, 0, 0) } else { (15, 16960, bits(c1)) };
            assert!(w[2 * o] == hi && w[2 * o + 1] == lo && w[4 + o] == ctl, "the other channel");
        }
        Err(e) => {
            assert!(secs > 8 || (secs == 8 && nanos > 388_607_000), "a valid duration is rejected");
            assert!(matches!(e, Error::ChannelValue), "error kind");
        }
    }
    nd::forget(r);
    nd::forget(v);
    nd::forget(m);
}

/// a record of whole microseconds is read back as it was written
fn round_trip(ch: usize) {
    let m = Mod::default();
    let micros = nd::u32() & 0x007f_ffff;
    let command = command();
    let duration = Duration::from_micros(micros as u64);
    let v: [ChannelValue; 2] = std::array::from_fn(|i| {
        if i == ch {
            ChannelValue::FcntOut(ProcessOutput { duration, command })
        } else {
            ChannelValue::Disabled
        }
    });
    let r = m.process_output_values(&v);
    match &r {
        Ok(w) => match m.process_output_data(w) {
            Ok(back) => {
                match &back[ch] {
                    ChannelValue::FcntOut(o) => {
                        assert!(o.command == command, "command read back");
                        assert!(o.duration == duration, "period read back");
                    }
                    _ => panic!("value kind"),
                }
                nd::forget(back);
            }
            Err(_) => panic!("written registers are rejected"),
        },
        Err(_) => panic!("a valid record is rejected"),
    }
    nd::forget(r);
    nd::forget(v);
    nd::forget(m);
}

harnesses! {
    #[kani::unwind(12)]
    fn c08_input_0() { decode_input(0); }
    #[kani::unwind(12)]
    fn c08_input_1() { decode_input(1); }
    #[kani::unwind(12)]
    fn c08_output_0() { decode_output(0); }
    #[kani::unwind(12)]
    fn c08_output_1() { decode_output(1); }
    #[kani::unwind(12)]
    fn c08_encode_0() { encode(0); }
    #[kani::unwind(12)]
    fn c08_encode_1() { encode(1); }
    // wrong numbers of registers, values or channels
    #[kani::unwind(16)]
    fn c08_lengths() {
        let m = Mod::default();
        let d: [u16; 12] = nd::u16s();
        let len = nd::upto(12);
        let r = m.process_input_data(&d[..len]);
        match &r {
            Ok(_) => assert!(len == 10, "a wrong number is accepted"),
            Err(e) => assert!(len != 10 && matches!(e, Error::BufferLength), "register count"),
        }
        nd::forget(r);
        let r = m.process_output_data(&d[..len]);
        match &r {
            Ok(_) => assert!(len == 6, "a wrong number is accepted"),
            Err(e) => assert!(len != 6 && matches!(e, Error::BufferLength), "register count"),
        }
        nd::forget(r);
        assert!(m.process_input_byte_count() == 20 && m.process_output_byte_count() == 12, "data size");
        nd::forget(m);
    }
    #[kani::unwind(12)]
    fn c08_value_lists() {
        let missing = nd::bool();
        let mut m = Mod::default();
        if missing {
            m.ch_params = vec![ChannelParameters::default()];
        }
        let len = nd::upto(3);
        let mut good = true;
        let v: [ChannelValue; 3] = std::array::from_fn(|i| {
            let kind = nd::upto(4);
            if i < len && kind > 1 {
                good = false;
            }
            match kind {
                0 => ChannelValue::FcntOut(ProcessOutput::default()),
                1 => ChannelValue::Disabled,
                2 => ChannelValue::Bit(true),
                3 => ChannelValue::Decimal32(1.0),
                _ => ChannelValue::None,
            }
        });
        let r = m.process_output_values(&v[..len]);
        match &r {
            Ok(w) => assert!(len == 2 && good && !missing && w.len() == 6, "a wrong list is accepted"),
            Err(Error::ChannelValue) => assert!(len != 2 || !good, "a valid list is rejected"),
            Err(Error::ChannelParameter) => assert!(missing, "channel count"),
            Err(_) => panic!("error kind"),
        }
        nd::forget(r);
        nd::forget(v);
        nd::forget(m);
    }
}

searches! {
    fn c08_round_trip() { round_trip(nd::upto(1)); }
    fn c08_any_length() {
        let m = Mod::default();
        let d: Vec<u16> = (0..nd::count(80, 700)).map(|_| nd::u16()).collect();
        assert!(m.process_input_data(&d).is_ok() == (d.len() == 10), "register count");
        assert!(m.process_output_data(&d).is_ok() == (d.len() == 6), "register count");
        let v: Vec<_> = (0..nd::count(80, 700)).map(|_| ChannelValue::FcntOut(ProcessOutput::default())).collect();
        assert!(m.process_output_values(&v).is_ok() == (v.len() == 2), "value count");
    }
}
