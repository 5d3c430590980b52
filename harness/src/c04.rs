//! C04 digital and relay outputs

use crate::nd;
use ur20::ur20_do_generic::{self as dog, UR20_4DO_P, UR20_4DO_P_2A, UR20_8DO_P};
use ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData;
use ur20::{ChannelValue, Error};
use ur20::{ur20_4ro_co_255 as ro, ur20_16do_p as do16};

/// decode: every register list
fn decode<M: ProcessModbusTcpData>(m: &M, n: usize) {
    let d: [u16; 3] = nd::u16s();
    let len = nd::upto(3);
    let r = m.process_output_data(&d[..len]);
    match &r {
        Ok(v) => {
            assert!(len == 1, "only a single register is accepted");
            assert!(v.len() == n, "one value per channel");
            for i in 0..n {
                match v[i] {
                    ChannelValue::Bit(b) => {
                        assert!(b == ((d[0] >> i) % 2 == 1), "channel state is its bit");
                    }
                    _ => panic!("a digital channel is a bit"),
                }
            }
        }
        Err(e) => {
            assert!(len != 1, "a single register is accepted");
            assert!(matches!(e, Error::BufferLength), "wrong register count");
        }
    }
    assert!(
        m.process_output_byte_count() == n.div_ceil(8),
        "size of the output data"
    );
    assert!(m.process_input_byte_count() == 0, "no input data");
    nd::forget(r);
}

/// encode: every list of values of any kind (`N` is the channel count + 1)
fn encode<const N: usize, M: ProcessModbusTcpData>(m: &M) {
    let n = N - 1;
    let len = nd::upto(N);
    let mut want = 0u16;
    let mut digital = true;
    let v: [ChannelValue; N] = std::array::from_fn(|i| {
        let kind = nd::upto(nd::bound(5, 60));
        let on = nd::bool();
        if i < len && (2..=4).contains(&kind) {
            digital = false;
        }
        if i < len && i < 16 && on && (kind == 0 || kind > 5) {
            want |= 1 << i;
        }
        match kind {
            1 => ChannelValue::Disabled,
            2 => ChannelValue::Decimal32(1.0),
            3 => ChannelValue::None,
            4 => ChannelValue::Bytes(vec![]),
            5 => ChannelValue::Disabled,
            _ => ChannelValue::Bit(on),
        }
    });
    let r = m.process_output_values(&v[..len]);
    match &r {
        Ok(w) => {
            assert!(len == n, "a list of the wrong length is accepted");
            assert!(digital, "a non-digital value is accepted");
            assert!(w.len() == 1 && w[0] == want, "register content");
        }
        Err(e) => {
            assert!(len != n || !digital, "a valid list is rejected");
            assert!(matches!(e, Error::ChannelValue), "error kind");
        }
    }
    nd::forget(r);
    nd::forget(v);
}

/// decode, then encode: the channels' bits come back, all others are zero
fn round_trip<M: ProcessModbusTcpData>(m: &M, n: usize) {
    let w = nd::u16();
    let v = m.process_output_data(&[w]).unwrap();
    let r = m.process_output_values(&v).unwrap();
    let mask = if n == 16 { 0xffff } else { (1u16 << n) - 1 };
    assert!(r.len() == 1 && r[0] == w & mask, "written back unchanged");
    nd::forget(r);
    nd::forget(v);
}

fn with_params<V>(mut m: dog::Mod<V>) -> dog::Mod<V> {
    for p in &mut m.ch_params {
        p.substitute_value = nd::bool();
    }
    m
}

macro_rules! dos {
    ($($d:ident, $e:ident, $r:ident, $n:literal, $new:expr;)*) => {
        harnesses! {
            $(
                #[kani::unwind(20)]
                fn $d() {
                    let m = $new;
                    decode(&m, $n);
                    nd::forget(m);
                }
                #[kani::unwind(20)]
                fn $e() {
                    let m = $new;
                    encode::<{ $n + 1 }, _>(&m);
                    nd::forget(m);
                }
                #[kani::unwind(20)]
                fn $r() {
                    let m = $new;
                    round_trip(&m, $n);
                    nd::forget(m);
                }
            )*
        }
    };
}

dos! {
    c04_dec_4do, c04_enc_4do, c04_rt_4do, 4, with_params(dog::Mod::<UR20_4DO_P>::default());
    c04_dec_4do2a, c04_enc_4do2a, c04_rt_4do2a, 4, with_params(dog::Mod::<UR20_4DO_P_2A>::default());
    c04_dec_8do, c04_enc_8do, c04_rt_8do, 8, with_params(dog::Mod::<UR20_8DO_P>::default());
    c04_dec_16do, c04_enc_16do, c04_rt_16do, 16, do16::Mod;
    c04_dec_ro, c04_enc_ro, c04_rt_ro, 4, ro::Mod::default();
}

fn any_length<M: ProcessModbusTcpData>(m: &M, n: usize) {
    let d: Vec<u16> = (0..nd::count(80, 700)).map(|_| nd::u16()).collect();
    assert!(m.process_output_data(&d).is_ok() == (d.len() == 1), "only a single register is accepted");
    let v: Vec<_> = (0..nd::count(80, 700)).map(|_| ChannelValue::Bit(nd::bool())).collect();
    assert!(m.process_output_values(&v).is_ok() == (v.len() == n), "one value per channel");
}

searches! {
    fn c04_any_length() {
        any_length(&dog::Mod::<UR20_4DO_P>::default(), 4);
        any_length(&dog::Mod::<UR20_4DO_P_2A>::default(), 4);
        any_length(&dog::Mod::<UR20_8DO_P>::default(), 8);
        any_length(&do16::Mod, 16);
        any_length(&ro::Mod::default(), 4);
    }
}
