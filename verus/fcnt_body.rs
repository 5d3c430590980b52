// The frequency counter against its data format: C08, C14.
//@include module_trait
//@include params
//@include bits

verus! {

//@prefix fcnt
pub mod ur20_2fcnt_100 {
use super::*;
use super::fcnt_data::{ProcessInput, ProcessOutput};
//@item src/ur20_2fcnt_100.rs struct ChannelParameters
//@item src/ur20_2fcnt_100.rs struct Mod
//@const src/ur20_2fcnt_100.rs MICROS_PER_SEC
//@const src/ur20_2fcnt_100.rs MAX_MEASUREMENT_PERIOD
//@lazy src/ur20_2fcnt_100.rs MAX_MEASUREMENT_DURATION

/// what a parameter block says about a channel
pub open spec fn channel_valid(w: Seq<u16>, i: int) -> bool { InputFilter::of(w[i]) is Some }
pub open spec fn channel(p: ChannelParameters, w: Seq<u16>, i: int) -> bool { InputFilter::of(w[i]) == Some(p.input_filter) }
/// a block that the module accepts
pub open spec fn valid(w: Seq<u16>) -> bool { w.len() >= 2 && forall|i: int| 0 <= i < 2 ==> #[trigger] channel_valid(w, i) }
//@fn src/ur20_2fcnt_100.rs - :: parameters_from_raw_data
//@ params data
//@  ensures
//@    r is Ok == valid(data@),
//@    r is Ok ==> r->Ok_0@.len() == 2 && forall|i: int| 0 <= i < 2 ==> channel(#[trigger] r->Ok_0@[i], data@, i),
//@ whole
//@ lift 0.0 :: channel_parameters :: data: &[u16]; i: usize :: Result<ChannelParameters, Error>
//@  requires i < 2, data@.len() >= 2
//@  ensures r is Ok == channel_valid(data@, i as int), r is Ok ==> channel(r->Ok_0, data@, i as int)
//@ end-lift
//@ elem 0 :: ChannelParameters
//@ loop 0
//@   invariant
//@     err_ is None ==> out_@.len() == n_ && (forall|j: int| 0 <= j < n_ ==> #[trigger] channel_valid(data@, j)) && forall|j: int| 0 <= j < n_ ==> channel(#[trigger] out_@[j], data@, j),
//@     err_ is Some ==> exists|j: int| 0 <= j < 2 && !#[trigger] channel_valid(data@, j),
//@end
impl Mod {
//@fn src/ur20_2fcnt_100.rs impl FromModbusParameterData for Mod :: from_modbus_parameter_data
//@ params data
//@  ensures r is Ok == valid(data@), r is Ok ==> r->Ok_0.parsed(data@)
//@end
}

/// two registers, high word first
pub open spec fn double(h: u16, l: u16) -> int { h * 0x10000 + l }
/// the period counts 125 ns; all ones (27 bits): there is none
pub open spec fn input(w: Seq<u16>, i: int) -> ProcessInput {
    ProcessInput {
        duration: if double(w[4 * i], w[4 * i + 1]) >= 0x7FF_FFFF { None } else { Some(duration(double(w[4 * i], w[4 * i + 1]) * 125)) },
        count: double(w[4 * i + 2], w[4 * i + 3]) as u32,
        active: bit(w[8 + i], 8),
    }
}
/// the preset counts microseconds
pub open spec fn output(w: Seq<u16>, i: int) -> ProcessOutput {
    ProcessOutput {
        duration: duration(double(w[2 * i], w[2 * i + 1]) * 1000),
        command: if bit(w[4 + i], 8) { Some(Command::Start) } else if bit(w[4 + i], 9) { Some(Command::Stop) } else { None },
    }
}
/// what the module takes: a preset of at most 0x7FFFFF microseconds, or nothing
pub open spec fn takes(v: ChannelValue) -> bool { v is Disabled || v is FcntOut && v->FcntOut_0.duration.nanos() <= 8_388_607_000 }
pub open spec fn micros(v: ChannelValue) -> int { if v is FcntOut { v->FcntOut_0.duration.nanos() / 1000 } else { 0 } }
pub open spec fn control(v: ChannelValue) -> u16 {
    if v is FcntOut && v->FcntOut_0.command is Some { if v->FcntOut_0.command->0 == Command::Start { 0x100 } else { 0x200 } } else { 0 }
}
pub open spec fn command(v: Seq<ChannelValue>) -> Seq<u16> {
    seq![
        (micros(v[0]) / 0x10000) as u16, (micros(v[0]) % 0x10000) as u16, (micros(v[1]) / 0x10000) as u16, (micros(v[1]) % 0x10000) as u16,
        control(v[0]), control(v[1]),
    ]
}
pub proof fn arithmetic()
    ensures
        forall|h: u32, l: u32| h < 0x10000 && l < 0x10000 ==> #[trigger] ((h << 16) | l) == h * 0x10000 + l,
        forall|n: u32| #[trigger] (n & 0x0000_FFFF) == n % 0x10000,
        forall|n: u32| #[trigger] ((n & 0xFFFF_0000) >> 16) == n / 0x10000,
        forall|n: u32| #[trigger] (n >> 16) == n / 0x10000,
        0u16 | (1u16 << 8u16) == 0x100, 0u16 | (1u16 << 9u16) == 0x200,
{
    assert forall|h: u32, l: u32| h < 0x10000 && l < 0x10000 implies #[trigger] ((h << 16) | l) == h * 0x10000 + l by { assert((h << 16) | l == h * 0x10000 + l) by (bit_vector) requires h < 0x10000, l < 0x10000; }
    assert forall|n: u32| #[trigger] (n & 0x0000_FFFF) == n % 0x10000 by { assert((n & 0x0000_FFFF) == n % 0x10000) by (bit_vector); }
    assert forall|n: u32| #[trigger] ((n & 0xFFFF_0000) >> 16) == n / 0x10000 by { assert(((n & 0xFFFF_0000) >> 16) == n / 0x10000) by (bit_vector); }
    assert forall|n: u32| #[trigger] (n >> 16) == n / 0x10000 by { assert((n >> 16) == n / 0x10000) by (bit_vector); }
    assert(0u16 | (1u16 << 8u16) == 0x100) by (bit_vector);
    assert(0u16 | (1u16 << 9u16) == 0x200) by (bit_vector);
}
/// C08: what is commanded is read back, to the microsecond
pub proof fn read_back(v: Seq<ChannelValue>, i: int)
    requires v.len() == 2, takes(v[0]), takes(v[1]), 0 <= i < 2, v[i] is FcntOut, v[i]->FcntOut_0.duration.nanos() >= 0
    ensures
        output(command(v), i).command == v[i]->FcntOut_0.command,
        output(command(v), i).duration == duration(v[i]->FcntOut_0.duration.nanos() / 1000 * 1000),
{
    assert(0x100u16 & (1u16 << 8) != 0) by (bit_vector);
    assert(0x200u16 & (1u16 << 8) == 0) by (bit_vector);
    assert(0x200u16 & (1u16 << 9) != 0) by (bit_vector);
    assert(0u16 & (1u16 << 8) == 0) by (bit_vector);
    assert(0u16 & (1u16 << 9) == 0) by (bit_vector);
}
// lifted
impl ProcessModbusTcpData for Mod {
    open spec fn kind(&self) -> ModuleType { ModuleType::UR20_2FCNT_100 }
    open spec fn n(&self) -> int { 12 }
    open spec fn n_in(&self) -> int { 20 }
    open spec fn parsed(&self, w: Seq<u16>) -> bool { self.ch_params@.len() == 2 && forall|i: int| 0 <= i < 2 ==> channel(#[trigger] self.ch_params@[i], w, i) }
    open spec fn dec_in(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> {
        if w.len() == 10 && self.ch_params@.len() == 2 { Some(Seq::new(2, |i: int| ChannelValue::FcntIn(input(w, i)))) } else { None }
    }
    open spec fn dec_out(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> {
        if w.len() == 6 { Some(Seq::new(2, |i: int| ChannelValue::FcntOut(output(w, i)))) } else { None }
    }
    open spec fn enc(&self, v: Seq<ChannelValue>) -> Option<Seq<u16>> {
        if v.len() == 2 && self.ch_params@.len() == 2 && takes(v[0]) && takes(v[1]) { Some(command(v)) } else { None }
    }
//@fn src/ur20_2fcnt_100.rs impl Module for Mod :: module_type
//@ of-trait
//@end
//@fn src/ur20_2fcnt_100.rs impl ProcessModbusTcpData for Mod :: process_input_byte_count
//@ of-trait
//@end
//@fn src/ur20_2fcnt_100.rs impl ProcessModbusTcpData for Mod :: process_output_byte_count
//@ of-trait
//@end
//@fn src/ur20_2fcnt_100.rs impl ProcessModbusTcpData for Mod :: process_input_data
//@ of-trait
//@ params data
//@ whole
//@ loop 0
//@   invariant
//@     out_@ =~= Seq::new(n_ as nat, |i: int| ChannelValue::FcntIn(input(data@, i))),
//@ start
//@   proof { reveal(ModuleType::channels); arithmetic(); }
//@end
//@fn src/ur20_2fcnt_100.rs impl ProcessModbusTcpData for Mod :: process_output_data
//@ of-trait
//@ params data
//@ whole
//@ loop 0
//@   invariant
//@     out_@ =~= Seq::new(n_ as nat, |i: int| ChannelValue::FcntOut(output(data@, i))),
//@ start
//@   proof { reveal(ModuleType::channels); arithmetic(); }
//@end
//@fn src/ur20_2fcnt_100.rs impl ProcessModbusTcpData for Mod :: process_output_values
//@ of-trait
//@ params values
//@ whole
//@ loop 0 indexed-for
//@   invariant
//@     forall|j: int| 0 <= j < n_ ==> takes(#[trigger] values@[j]),
//@     out@.len() == 6,
//@     n_ == 0 ==> out@ =~= seq![0u16, 0, 0, 0, 0, 0],
//@     n_ == 1 ==> out@ =~= command(values@).subrange(0, 2) + seq![0u16, 0, control(values@[0]), 0],
//@     n_ == 2 ==> out@ =~= command(values@),
//@ start
//@   proof { reveal(ModuleType::channels); arithmetic(); }
//@end
}
}
//@prefix

} // verus!
