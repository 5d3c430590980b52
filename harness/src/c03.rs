//! C03 digital inputs

use crate::nd;
use ur20::ur20_di_generic::{ChannelParameters, Mod, UR20_4DI_P, UR20_8DI_P_2W};
use ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData;
use ur20::{ChannelValue, Error, InputDelay};

fn delay() -> InputDelay {
    match nd::upto(5) {
        0 => InputDelay::no,
        1 => InputDelay::us300,
        2 => InputDelay::ms3,
        3 => InputDelay::ms10,
        4 => InputDelay::ms20,
        _ => InputDelay::ms40,
    }
}

fn check<M: ProcessModbusTcpData>(m: &M, n: usize) {
    let d: [u16; 3] = nd::u16s();
    let len = nd::upto(3);
    let r = m.process_input_data(&d[..len]);
    match &r {
        Ok(v) => {
            assert!(len == 1, "only a single register is accepted");
            assert!(v.len() == n, "one value per channel");
            for i in 0..n {
                match v[i] {
                    ChannelValue::Bit(b) => {
                        assert!(b == ((d[0] >> i) % 2 == 1), "channel state is its bit");
                    }
                    _ => panic!("a digital channel is a bit"),
                }
            }
        }
        Err(e) => {
            assert!(len != 1, "a single register is accepted");
            assert!(matches!(e, Error::BufferLength), "wrong register count");
        }
    }
    assert!(m.process_input_byte_count() == 1, "one byte of process data");
    assert!(m.process_output_byte_count() == 0, "no output data");
    nd::forget(r);
}

harnesses! {
    #[kani::unwind(10)]
    fn c03_4di() {
        let mut m = Mod::<UR20_4DI_P>::default();
        for i in 0..4 {
            m.ch_params[i] = ChannelParameters { input_delay: delay() };
        }
        check(&m, 4);
        nd::forget(m);
    }

    #[kani::unwind(10)]
    fn c03_8di() {
        let mut m = Mod::<UR20_8DI_P_2W>::default();
        for i in 0..8 {
            m.ch_params[i] = ChannelParameters { input_delay: delay() };
        }
        check(&m, 8);
        nd::forget(m);
    }
}

fn any_length<M: ProcessModbusTcpData>(m: &M) {
    let d: Vec<u16> = (0..nd::count(80, 700)).map(|_| nd::u16()).collect();
    assert!(m.process_input_data(&d).is_ok() == (d.len() == 1), "only a single register is accepted");
}

searches! {
    fn c03_any_length() {
        any_length(&Mod::<UR20_4DI_P>::default());
        any_length(&Mod::<UR20_8DI_P_2W>::default());
    }
}
