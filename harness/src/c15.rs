//! C15 parameter addresses and sizes

use crate::nd;
use crate::spec::SUPPORTED;
use ur20::ur20_fbc_mod_tcp::{
    param_addresses_and_register_counts, FromModbusParameterData, ModbusParameterRegisterCount, ProcessModbusTcpData,
};
use ur20::*;

/// The size known by the coupler is the least that the parser takes.
fn tied<M: FromModbusParameterData + ProcessModbusTcpData>(t: ModuleType, len: usize) {
    let n = t.param_register_count() as usize;
    let d = [0u16; 40];
    let r = M::from_modbus_parameter_data(&d[..len]);
    assert!(r.is_ok() == (len == n), "the size is what the parser needs");
    if let Ok(m) = &r {
        assert!(m.module_type() == t, "module type");
    }
    nd::forget(r);
}

/// every number of registers up to the documented one
fn ties<M: FromModbusParameterData + ProcessModbusTcpData>(k: usize) {
    let (t, n) = (&SUPPORTED[k].0, SUPPORTED[k].1 as usize);
    assert!(t.param_register_count() as usize == n, "documented size");
    let mut len = 0;
    while len <= n {
        tied::<M>(t.clone(), len);
        len += 1;
    }
}

fn list<const N: usize>(len: usize) {
    let mut k = [0usize; N];
    let v: [ModuleType; N] = std::array::from_fn(|i| {
        k[i] = nd::upto(17);
        SUPPORTED[k[i]].0.clone()
    });
    let r = param_addresses_and_register_counts(&v[..len]);
    assert!(r.len() == len, "one entry per slot");
    for i in 0..len {
        assert!(r[i].0 as usize == 0xC000 + 256 * i, "address of the slot");
        assert!(r[i].1 == SUPPORTED[k[i]].1, "size of the slot");
    }
    nd::forget(r);
    nd::forget(v);
}

harnesses! {
    #[kani::unwind(40)]
    fn c15_4di() { ties::<ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>>(0); }
    #[kani::unwind(40)]
    fn c15_8di() { ties::<ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>>(1); }
    #[kani::unwind(40)]
    fn c15_4do() { ties::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>>(2); }
    #[kani::unwind(40)]
    fn c15_4do_2a() { ties::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>>(3); }
    #[kani::unwind(40)]
    fn c15_8do() { ties::<ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>>(4); }
    #[kani::unwind(40)]
    fn c15_16do() { ties::<ur20_16do_p::Mod>(5); }
    #[kani::unwind(40)]
    fn c15_4ro() { ties::<ur20_4ro_co_255::Mod>(6); }
    #[kani::unwind(40)]
    fn c15_4ao() { ties::<ur20_4ao_ui_16::Mod>(7); }
    #[kani::unwind(40)]
    fn c15_4ao_diag() { ties::<ur20_4ao_ui_16_diag::Mod>(8); }
    #[kani::unwind(40)]
    fn c15_rtd() { ties::<ur20_4ai_rtd_diag::Mod>(9); }
    #[kani::unwind(40)]
    fn c15_tc() { ties::<ur20_4ai_tc_diag::Mod>(10); }
    #[kani::unwind(40)]
    fn c15_4ai_diag() { ties::<ur20_4ai_ui_16_diag::Mod>(11); }
    #[kani::unwind(40)]
    fn c15_4ai_12() { ties::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>>(12); }
    #[kani::unwind(40)]
    fn c15_4ai_16() { ties::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>>(13); }
    #[kani::unwind(40)]
    fn c15_8ai() { ties::<ur20_8ai_i_16_diag_hd::Mod>(14); }
    #[kani::unwind(40)]
    fn c15_fcnt() { ties::<ur20_2fcnt_100::Mod>(15); }
    #[kani::unwind(40)]
    fn c15_com() { ties::<ur20_1com_232_485_422::Mod>(16); }
    #[kani::unwind(40)]
    fn c15_sil() { ties::<ur20_pf_o_1di_sil::Mod>(17); }
    #[kani::unwind(66)]
    fn c15_list_64() { list::<64>(64); }
    #[kani::unwind(20)]
    fn c15_list_short() {
        for n in 0..7 {
            list::<6>(n);
        }
    }
}
