//! C09 safety status record

use crate::nd;
use ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData;
use ur20::ur20_pf_o_1di_sil::{Mod, ProcessInput};
use ur20::{ChannelValue, Error};

harnesses! {
    #[kani::unwind(6)]
    fn c09_status() {
        let d: [u16; 4] = nd::u16s();
        let len = nd::upto(4);
        let r = Mod.process_input_data(&d[..len]);
        match &r {
            Ok(v) => {
                assert!(len == 2, "two registers are accepted");
                assert!(v.len() == 1, "one record");
                match &v[0] {
                    ChannelValue::SilPFIn(ProcessInput {
                        safety_input,
                        autostart,
                        manual_start,
                        safety_input_channel_1,
                        safety_input_channel_2,
                        volt_24_safe_output,
                        volt_24_dc,
                    }) => {
                        let bit = |n: u32| (d[0] as u32 / (1 << n)) % 2 == 1;
                        assert!(*safety_input == bit(0), "byte 0 bit 0: safety input");
                        assert!(*autostart == bit(2), "byte 0 bit 2: autostart");
                        assert!(*manual_start == bit(3), "byte 0 bit 3: manual start");
                        assert!(*safety_input_channel_1 == bit(4), "byte 0 bit 4: channel 1");
                        assert!(*safety_input_channel_2 == bit(5), "byte 0 bit 5: channel 2");
                        assert!(*volt_24_safe_output == bit(8), "byte 1 bit 0: safe output");
                        assert!(*volt_24_dc == bit(10), "byte 1 bit 2: 24 V DC");
                    }
                    _ => panic!("value kind"),
                }
            }
            Err(e) => {
                assert!(len != 2, "two registers are accepted");
                assert!(matches!(e, Error::BufferLength), "error kind");
            }
        }
        nd::forget(r);
        assert!(Mod.process_input_byte_count() == 4 && Mod.process_output_byte_count() == 0, "data size");
    }

    #[kani::unwind(6)]
    fn c09_no_output() {
        let d: [u16; 4] = nd::u16s();
        let len = nd::upto(4);
        let r = Mod.process_output_data(&d[..len]);
        assert!(r.is_ok() == (len == 0), "output data");
        nd::forget(r);
        let v = [ChannelValue::Bit(nd::bool())];
        let r = Mod.process_output_values(&v[..0]);
        match &r {
            Ok(w) => assert!(w.is_empty(), "output data"),
            Err(_) => panic!("an empty list is rejected"),
        }
        nd::forget(r);
        let r = Mod.process_output_values(&v);
        if let Ok(w) = &r {
            assert!(w.is_empty(), "output data");
        }
        nd::forget(r);
    }
}

searches! {
    fn c09_any_length() {
        let d: Vec<u16> = (0..nd::count(80, 700)).map(|_| nd::u16()).collect();
        assert!(Mod.process_input_data(&d).is_ok() == (d.len() == 2), "two registers are accepted");
        assert!(Mod.process_output_data(&d).is_ok() == d.is_empty(), "output data");
    }
}
