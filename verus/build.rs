// Building a coupler from its configuration: C22.
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::slice::slice_subrange;
use std::collections::HashMap;

//@include common
//@include com_body
//@include lists_body
//@include digital_body
//@include analog_body
//@include fcnt_body
//@include frames_body

//@subst \bBox::new\( => boxed(
//@subst \bur20_1com_232_485_422::MessageProcessor\b => MessageProcessor

verus! {

/// stands for `Box::new(m)` with its coercion to the trait object
#[verifier::external_body]
pub fn boxed<T: ProcessModbusTcpData + 'static>(m: T) -> (r: Box<dyn ProcessModbusTcpData>)
    ensures r.kind() == m.kind(), forall|p: Seq<u16>| r.parsed(p) == m.parsed(p)
{ Box::new(m) }

/// the block is valid for the type (the modules' parsers, C14)
pub open spec fn valid(t: ModuleType, p: Seq<u16>) -> bool {
    match t {
        ModuleType::UR20_4DI_P => ur20_di_generic::valid::<ur20_di_generic::UR20_4DI_P>(p),
        ModuleType::UR20_8DI_P_2W => ur20_di_generic::valid::<ur20_di_generic::UR20_8DI_P_2W>(p),
        ModuleType::UR20_4DO_P => ur20_do_generic::valid::<ur20_do_generic::UR20_4DO_P>(p),
        ModuleType::UR20_4DO_P_2A => ur20_do_generic::valid::<ur20_do_generic::UR20_4DO_P_2A>(p),
        ModuleType::UR20_8DO_P => ur20_do_generic::valid::<ur20_do_generic::UR20_8DO_P>(p),
        ModuleType::UR20_4AI_UI_12 => ur20_ai_ui_generic::valid(p),
        ModuleType::UR20_4AI_UI_16 => ur20_ai_ui_generic::valid(p),
        ModuleType::UR20_16DO_P => ur20_16do_p::valid(p),
        ModuleType::UR20_4RO_CO_255 => ur20_4ro_co_255::valid(p),
        ModuleType::UR20_4AO_UI_16 => ur20_4ao_ui_16::valid(p),
        ModuleType::UR20_4AO_UI_16_DIAG => ur20_4ao_ui_16_diag::valid(p),
        ModuleType::UR20_4AI_RTD_DIAG => ur20_4ai_rtd_diag::valid(p),
        ModuleType::UR20_4AI_UI_16_DIAG => ur20_4ai_ui_16_diag::valid(p),
        ModuleType::UR20_8AI_I_16_DIAG_HD => ur20_8ai_i_16_diag_hd::valid(p),
        ModuleType::UR20_4AI_TC_DIAG => ur20_4ai_tc_diag::valid(p),
        ModuleType::UR20_2FCNT_100 => ur20_2fcnt_100::valid(p),
        ModuleType::UR20_1COM_232_485_422 => ur20_1com_232_485_422::valid(p),
        ModuleType::UR20_PF_O_1DI_SIL => ur20_pf_o_1di_sil::valid(p),
        _ => false,
    }
}
/// the frame size that the block of a serial module selects
pub open spec fn frame(p: Seq<u16>) -> ProcessDataLength { ProcessDataLength::of(p[0])->0 }

//@item src/lib.rs struct Address
//@item src/ur20_fbc_mod_tcp.rs struct Coupler

/// the types that the coupler supports
pub open spec fn supported(t: ModuleType) -> bool {
    t == ModuleType::UR20_4DI_P
        || t == ModuleType::UR20_8DI_P_2W
        || t == ModuleType::UR20_4DO_P
        || t == ModuleType::UR20_4DO_P_2A
        || t == ModuleType::UR20_8DO_P
        || t == ModuleType::UR20_4AI_UI_12
        || t == ModuleType::UR20_4AI_UI_16
        || t == ModuleType::UR20_16DO_P
        || t == ModuleType::UR20_4RO_CO_255
        || t == ModuleType::UR20_4AO_UI_16
        || t == ModuleType::UR20_4AO_UI_16_DIAG
        || t == ModuleType::UR20_4AI_RTD_DIAG
        || t == ModuleType::UR20_4AI_UI_16_DIAG
        || t == ModuleType::UR20_8AI_I_16_DIAG_HD
        || t == ModuleType::UR20_4AI_TC_DIAG
        || t == ModuleType::UR20_2FCNT_100
        || t == ModuleType::UR20_1COM_232_485_422
        || t == ModuleType::UR20_PF_O_1DI_SIL
}
/// C15: no module is configured from fewer registers than the documented size
pub proof fn no_smaller_block(t: ModuleType, p: Seq<u16>)
    requires supported(t), valid(t, p)
    ensures t.block() is Some, p.len() >= t.block()->0
{
    reveal(ModuleType::block);
    reveal(ModuleType::channels);
}
/// C15: and from that many registers it can be
pub proof fn a_block_of_that_size(t: ModuleType)
    requires supported(t)
    ensures t.block() is Some, valid(t, Seq::new(t.block()->0 as nat, |i: int| 0u16))
{
    reveal(ModuleType::block);
    reveal(ModuleType::channels);
    let p = Seq::new(t.block()->0 as nat, |i: int| 0u16);
    assert(t.block()->0 > 0 ==> p[0] == 0);
}
/// a coupler built from the configuration of the first `n` slots
pub open spec fn built(m: Seq<Box<dyn ProcessModbusTcpData>>, p: Map<usize, MessageProcessor>, cfg: CouplerConfig, n: int) -> bool {
    &&& m.len() == n
    // a module of the slot's type, made from the slot's block
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] m[i]).kind() == cfg.modules@[i] && m[i].parsed(cfg.params@[i]@)
    // a processor of the slot's frame size for each serial module
    &&& forall|i: usize| #[trigger] p.contains_key(i) <==> i < n && cfg.modules@[i as int].is_com()
    &&& forall|i: usize| #[trigger] p.contains_key(i) ==> {
        &&& p[i].wf() && p[i].init_state == InitState::ClearBuffers && p[i].process_data_len == frame(cfg.params@[i as int]@)
        &&& p[i].waiting() == Seq::<u8>::empty() && p[i].in_data@ == Seq::<u8>::empty()
    }
}

impl Coupler {
//@fn src/ur20_fbc_mod_tcp.rs impl Coupler :: new
//@ params cfg
//@  requires
//@    cfg.modules@.len() * 2 <= usize::MAX, // no vector is longer than isize::MAX bytes
//@    forall|i: int| 0 <= i < cfg.modules@.len() ==> supported(#[trigger] cfg.modules@[i]),
//@  ensures
//@    r is Ok <==> cfg.params@.len() == cfg.modules@.len() && cfg.offsets@.len() == 2 * cfg.modules@.len()
//@      && forall|i: int| 0 <= i < cfg.modules@.len() ==> valid(#[trigger] cfg.modules@[i], cfg.params@[i]@),
//@    r is Ok ==> built(r->Ok_0.modules@, r->Ok_0.processors@, *cfg, cfg.modules@.len() as int)
//@      && offsets_of(r->Ok_0.offsets@, cfg.offsets@, cfg.modules@.len() as int)
//@      && r->Ok_0.write@ == Map::<Address, ChannelValue>::empty() && r->Ok_0.last_tx_cnt@ == Map::<usize, usize>::empty()
//@      && r->Ok_0.in_values@.len() == 0 && r->Ok_0.out_values@.len() == 0,
//@ start
//@   broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ loop 0 indexed-for
//@   invariant
//@     cfg.params@.len() == cfg.modules@.len(), cfg.offsets@.len() == 2 * cfg.modules@.len(),
//@     forall|i: int| 0 <= i < cfg.modules@.len() ==> supported(#[trigger] cfg.modules@[i]),
//@     offsets_of(offsets@, cfg.offsets@, cfg.modules@.len() as int),
//@     built(modules@, processors@, *cfg, n_ as int),
//@     forall|i: int| 0 <= i < n_ ==> valid(#[trigger] cfg.modules@[i], cfg.params@[i]@),
//@   enter
//@     let ghost ms = modules@; let ghost ps = processors@;
//@     proof { assert(supported(cfg.modules@[n_ as int])); }
//@   leave proof {
//@     assert(modules@.len() == n_ + 1);
//@     assert(modules@.take(n_ as int) =~= ms);
//@     assert forall|j: int| 0 <= j < n_ + 1 implies (#[trigger] modules@[j]).kind() == cfg.modules@[j] && modules@[j].parsed(cfg.params@[j]@) by {
//@       if j < n_ { assert(modules@[j] == ms[j]); }
//@     }
//@   }
//@end
}

} // verus!
fn main() {}
