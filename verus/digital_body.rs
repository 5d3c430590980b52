// Each digital module against its data format: C03, C04, C09; and the contract
// of a module towards the coupler that C19 and C20 rest on.
//@include module_trait
//@include params
//@include bits
//@scope

verus! {

/// a value that a switched output takes
pub open spec fn switch(v: ChannelValue) -> bool { v is Bit || v is Disabled }
pub open spec fn switches(v: Seq<ChannelValue>) -> bool { forall|i: int| 0 <= i < v.len() ==> switch(#[trigger] v[i]) }
/// the register of the first `k` values
pub open spec fn lit(v: Seq<ChannelValue>, k: int) -> u16
    decreases k
{
    if k <= 0 { 0 } else if v[k - 1] == ChannelValue::Bit(true) { lit(v, k - 1) | (1u16 << ((k - 1) as u16)) } else { lit(v, k - 1) }
}
/// C04: exactly the outputs that are switched on have their bits set
pub proof fn exactly_the_lit(v: Seq<ChannelValue>, k: int, i: int)
    requires 0 <= k <= 16, 0 <= i < 16
    ensures bit(lit(v, k), i) == (i < k && v[i] == ChannelValue::Bit(true))
    decreases k
{
    let n = i as u16;
    if k == 0 {
        assert(0u16 & (1u16 << n) == 0) by (bit_vector);
    } else {
        exactly_the_lit(v, k - 1, i);
        let m = (k - 1) as u16;
        let x = lit(v, k - 1);
        assert(n < 16 && m < 16 ==> ((x | (1u16 << m)) & (1u16 << n) != 0) == (n == m || x & (1u16 << n) != 0)) by (bit_vector);
    }
}
/// C04: what is written is read back, nothing at the place of a disabled channel
pub proof fn read_back(v: Seq<ChannelValue>, i: int)
    requires switches(v), 0 <= i < v.len() <= 16
    ensures ChannelValue::Bit(bit(lit(v, v.len() as int), i)) == if v[i] is Bit { v[i] } else { ChannelValue::Bit(false) }
{
    exactly_the_lit(v, v.len() as int, i);
    assert(switch(v[i]));
}

} // verus!
verus! {

//@prefix di
pub mod ur20_di_generic {
use super::*;
use std::marker::PhantomData;
//@expect src/ur20_di_generic.rs const MODULE_TYPE: ModuleType = ModuleType::$name;
pub trait DIVariant: Sized {
    const MODULE_TYPE: ModuleType;
    spec fn the_type() -> ModuleType;
    proof fn facts() ensures Self::MODULE_TYPE == Self::the_type(), Self::MODULE_TYPE.channels() == 4 || Self::MODULE_TYPE.channels() == 8, !Self::MODULE_TYPE.is_com(), !Self::MODULE_TYPE.is_safety();
}
//@for T in UR20_4DI_P UR20_8DI_P_2W
pub struct $T;
impl DIVariant for $T {
    const MODULE_TYPE: ModuleType = ModuleType::$T;
    open spec fn the_type() -> ModuleType { ModuleType::$T }
    proof fn facts() { reveal(ModuleType::channels); }
}
//@endfor
//@item src/ur20_di_generic.rs struct ChannelParameters
pub struct Mod<Variant> { pub ch_params: Vec<ChannelParameters>, pub _phantom: PhantomData<Variant> }

/// what a parameter block says about a channel
pub open spec fn channel_valid(w: Seq<u16>, i: int) -> bool { InputDelay::of(w[i]) is Some }
pub open spec fn channel(p: ChannelParameters, w: Seq<u16>, i: int) -> bool { InputDelay::of(w[i]) == Some(p.input_delay) }
/// a block that the module accepts
pub open spec fn valid<Variant: DIVariant>(w: Seq<u16>) -> bool { w.len() >= Variant::the_type().channels() && forall|i: int| 0 <= i < Variant::the_type().channels() ==> #[trigger] channel_valid(w, i) }
//@fn src/ur20_di_generic.rs - :: parameters_from_raw_data
//@ params data
//@  ensures
//@    r is Ok == valid::<Variant>(data@),
//@    r is Ok ==> r->Ok_0@.len() == Variant::MODULE_TYPE.channels() && forall|i: int| 0 <= i < Variant::MODULE_TYPE.channels() ==> channel(#[trigger] r->Ok_0@[i], data@, i),
//@ lift 0.0 :: channel_parameters :: data: &[u16]; i: usize :: Result<ChannelParameters, Error>
//@  requires i < data@.len()
//@  ensures r is Ok == channel_valid(data@, i as int), r is Ok ==> channel(r->Ok_0, data@, i as int)
//@ end-lift
//@ elem 0 :: ChannelParameters
//@ whole
//@ loop 0
//@   invariant
//@     data@.len() >= Variant::MODULE_TYPE.channels(),
//@     err_ is None ==> out_@.len() == n_ && (forall|j: int| 0 <= j < n_ ==> #[trigger] channel_valid(data@, j)) && forall|j: int| 0 <= j < n_ ==> channel(#[trigger] out_@[j], data@, j),
//@     err_ is Some ==> exists|j: int| 0 <= j < Variant::MODULE_TYPE.channels() && !#[trigger] channel_valid(data@, j),
//@ start
//@   proof { Variant::facts(); }
//@end
impl<Variant: DIVariant> Mod<Variant> {
//@fn src/ur20_di_generic.rs impl<Variant: DIVariant> FromModbusParameterData for Mod<Variant> :: from_modbus_parameter_data
//@ params data
//@  ensures r is Ok == valid::<Variant>(data@), r is Ok ==> r->Ok_0.parsed(data@)
//@ start
//@   proof { Variant::facts(); }
//@end
}
impl<Variant: DIVariant> ProcessModbusTcpData for Mod<Variant> {
    open spec fn kind(&self) -> ModuleType { Variant::the_type() }
    open spec fn n(&self) -> int { 0 }
    open spec fn n_in(&self) -> int { 1 }
    open spec fn parsed(&self, w: Seq<u16>) -> bool { self.ch_params@.len() == self.kind().channels() && forall|i: int| 0 <= i < self.kind().channels() ==> channel(#[trigger] self.ch_params@[i], w, i) }
    open spec fn dec_in(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> {
        if w.len() == 1 { Some(Seq::new(self.kind().channels(), |i: int| ChannelValue::Bit(bit(w[0], i)))) } else { None }
    }
    open spec fn dec_out(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> { no_values(self.kind(), w) }
    open spec fn enc(&self, v: Seq<ChannelValue>) -> Option<Seq<u16>> { no_registers(self.kind(), v) }
//@fn src/ur20_di_generic.rs impl<Variant: DIVariant> Module for Mod<Variant> :: module_type
//@ of-trait
//@ start
//@   proof { Variant::facts(); }
//@end
//@fn src/ur20_di_generic.rs impl<Variant: DIVariant> ProcessModbusTcpData for Mod<Variant> :: process_input_byte_count
//@ of-trait
//@ start
//@   proof { Variant::facts(); }
//@end
//@fn src/ur20_di_generic.rs impl<Variant: DIVariant> ProcessModbusTcpData for Mod<Variant> :: process_output_byte_count
//@ of-trait
//@end
//@fn src/ur20_di_generic.rs impl<Variant: DIVariant> ProcessModbusTcpData for Mod<Variant> :: process_input_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ whole
//@ loop 0
//@   invariant
//@     data@.len() == 1, Variant::MODULE_TYPE.channels() <= 16,
//@     out_@ =~= Seq::new(n_ as nat, |i: int| ChannelValue::Bit(bit(data@[0], i))),
//@ start
//@   proof { Variant::facts(); }
//@end
//@fn src/ur20_di_generic.rs impl<Variant: DIVariant> ProcessModbusTcpData for Mod<Variant> :: process_output_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ start
//@   proof { Variant::facts(); }
//@end
//@fn src/ur20_di_generic.rs impl<Variant: DIVariant> ProcessModbusTcpData for Mod<Variant> :: process_output_values
//@ of-trait
//@ params values
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ start
//@   proof { Variant::facts(); }
//@end
}
}
//@prefix do
pub mod ur20_do_generic {
use super::*;
use std::marker::PhantomData;
//@expect src/ur20_do_generic.rs const MODULE_TYPE: ModuleType = ModuleType::$name;
pub trait DOVariant: Sized {
    const MODULE_TYPE: ModuleType;
    spec fn the_type() -> ModuleType;
    proof fn facts() ensures Self::MODULE_TYPE == Self::the_type(), Self::MODULE_TYPE.channels() == 4 || Self::MODULE_TYPE.channels() == 8, !Self::MODULE_TYPE.is_com(), !Self::MODULE_TYPE.is_safety();
}
//@for T in UR20_4DO_P UR20_4DO_P_2A UR20_8DO_P
pub struct $T;
impl DOVariant for $T {
    const MODULE_TYPE: ModuleType = ModuleType::$T;
    open spec fn the_type() -> ModuleType { ModuleType::$T }
    proof fn facts() { reveal(ModuleType::channels); }
}
//@endfor
//@item src/ur20_do_generic.rs struct ChannelParameters
pub struct Mod<Variant> { pub ch_params: Vec<ChannelParameters>, pub _phantom: PhantomData<Variant> }

/// what a parameter block says about a channel
pub open spec fn channel_valid(w: Seq<u16>, i: int) -> bool { flag(w[i]) is Some }
pub open spec fn channel(p: ChannelParameters, w: Seq<u16>, i: int) -> bool { flag(w[i]) == Some(p.substitute_value) }
/// a block that the module accepts
pub open spec fn valid<Variant: DOVariant>(w: Seq<u16>) -> bool { w.len() >= Variant::the_type().channels() && forall|i: int| 0 <= i < Variant::the_type().channels() ==> #[trigger] channel_valid(w, i) }
//@fn src/ur20_do_generic.rs - :: parameters_from_raw_data
//@ params data
//@  ensures
//@    r is Ok == valid::<Variant>(data@),
//@    r is Ok ==> r->Ok_0@.len() == Variant::MODULE_TYPE.channels() && forall|i: int| 0 <= i < Variant::MODULE_TYPE.channels() ==> channel(#[trigger] r->Ok_0@[i], data@, i),
//@ lift 0.0 :: channel_parameters :: data: &[u16]; i: usize :: Result<ChannelParameters, Error>
//@  requires i < data@.len()
//@  ensures r is Ok == channel_valid(data@, i as int), r is Ok ==> channel(r->Ok_0, data@, i as int)
//@ end-lift
//@ elem 0 :: ChannelParameters
//@ whole
//@ loop 0
//@   invariant
//@     data@.len() >= Variant::MODULE_TYPE.channels(),
//@     err_ is None ==> out_@.len() == n_ && (forall|j: int| 0 <= j < n_ ==> #[trigger] channel_valid(data@, j)) && forall|j: int| 0 <= j < n_ ==> channel(#[trigger] out_@[j], data@, j),
//@     err_ is Some ==> exists|j: int| 0 <= j < Variant::MODULE_TYPE.channels() && !#[trigger] channel_valid(data@, j),
//@ start
//@   proof { Variant::facts(); }
//@end
impl<Variant: DOVariant> Mod<Variant> {
//@fn src/ur20_do_generic.rs impl<Variant: DOVariant> FromModbusParameterData for Mod<Variant> :: from_modbus_parameter_data
//@ params data
//@  ensures r is Ok == valid::<Variant>(data@), r is Ok ==> r->Ok_0.parsed(data@)
//@ start
//@   proof { Variant::facts(); }
//@end
}
impl<Variant: DOVariant> ProcessModbusTcpData for Mod<Variant> {
    open spec fn kind(&self) -> ModuleType { Variant::the_type() }
    open spec fn n(&self) -> int { 1 }
    open spec fn n_in(&self) -> int { 0 }
    open spec fn parsed(&self, w: Seq<u16>) -> bool { self.ch_params@.len() == self.kind().channels() && forall|i: int| 0 <= i < self.kind().channels() ==> channel(#[trigger] self.ch_params@[i], w, i) }
    open spec fn dec_out(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> {
        if w.len() == 1 { Some(Seq::new(self.kind().channels(), |i: int| ChannelValue::Bit(bit(w[0], i)))) } else { None }
    }
    open spec fn dec_in(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> { no_values(self.kind(), w) }
    open spec fn enc(&self, v: Seq<ChannelValue>) -> Option<Seq<u16>> {
        if v.len() == self.kind().channels() && switches(v) { Some(seq![lit(v, v.len() as int)]) } else { None }
    }
//@fn src/ur20_do_generic.rs impl<Variant: DOVariant> Module for Mod<Variant> :: module_type
//@ of-trait
//@ start
//@   proof { Variant::facts(); }
//@end
//@fn src/ur20_do_generic.rs impl<Variant: DOVariant> ProcessModbusTcpData for Mod<Variant> :: process_input_byte_count
//@ of-trait
//@end
//@fn src/ur20_do_generic.rs impl<Variant: DOVariant> ProcessModbusTcpData for Mod<Variant> :: process_output_byte_count
//@ of-trait
//@ start
//@   proof { Variant::facts(); }
//@end
//@fn src/ur20_do_generic.rs impl<Variant: DOVariant> ProcessModbusTcpData for Mod<Variant> :: process_input_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ start
//@   proof { Variant::facts(); }
//@end
//@fn src/ur20_do_generic.rs impl<Variant: DOVariant> ProcessModbusTcpData for Mod<Variant> :: process_output_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ whole
//@ loop 0
//@   invariant
//@     data@.len() == 1, Variant::MODULE_TYPE.channels() <= 16,
//@     out_@ =~= Seq::new(n_ as nat, |i: int| ChannelValue::Bit(bit(data@[0], i))),
//@ start
//@   proof { Variant::facts(); }
//@end
//@fn src/ur20_do_generic.rs impl<Variant: DOVariant> ProcessModbusTcpData for Mod<Variant> :: process_output_values
//@ of-trait
//@ params values
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ whole
//@ loop 0 indexed-for
//@   invariant
//@     values@.len() == Variant::MODULE_TYPE.channels(), Variant::MODULE_TYPE.channels() <= 16,
//@     res == lit(values@, n_ as int), forall|j: int| 0 <= j < n_ ==> switch(#[trigger] values@[j]),
//@ start
//@   proof { Variant::facts(); }
//@end
}
}
//@prefix ro
pub mod ur20_4ro_co_255 {
use super::*;
//@item src/ur20_4ro_co_255.rs struct ChannelParameters
//@item src/ur20_4ro_co_255.rs struct Mod

/// what a parameter block says about a channel
pub open spec fn channel_valid(w: Seq<u16>, i: int) -> bool { flag(w[i]) is Some }
pub open spec fn channel(p: ChannelParameters, w: Seq<u16>, i: int) -> bool { flag(w[i]) == Some(p.substitute_value) }
/// a block that the module accepts
pub open spec fn valid(w: Seq<u16>) -> bool { w.len() >= 4 && forall|i: int| 0 <= i < 4 ==> #[trigger] channel_valid(w, i) }
//@fn src/ur20_4ro_co_255.rs - :: parameters_from_raw_data
//@ params data
//@  ensures
//@    r is Ok == valid(data@),
//@    r is Ok ==> r->Ok_0@.len() == 4 && forall|i: int| 0 <= i < 4 ==> channel(#[trigger] r->Ok_0@[i], data@, i),
//@ lift 0.0 :: channel_parameters :: data: &[u16]; i: usize :: Result<ChannelParameters, Error>
//@  requires i < data@.len()
//@  ensures r is Ok == channel_valid(data@, i as int), r is Ok ==> channel(r->Ok_0, data@, i as int)
//@ end-lift
//@ elem 0 :: ChannelParameters
//@ whole
//@ loop 0
//@   invariant
//@     data@.len() >= 4,
//@     err_ is None ==> out_@.len() == n_ && (forall|j: int| 0 <= j < n_ ==> #[trigger] channel_valid(data@, j)) && forall|j: int| 0 <= j < n_ ==> channel(#[trigger] out_@[j], data@, j),
//@     err_ is Some ==> exists|j: int| 0 <= j < 4 && !#[trigger] channel_valid(data@, j),
//@end
impl Mod {
//@fn src/ur20_4ro_co_255.rs impl FromModbusParameterData for Mod :: from_modbus_parameter_data
//@ params data
//@  ensures r is Ok == valid(data@), r is Ok ==> r->Ok_0.parsed(data@)
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
}

impl ProcessModbusTcpData for Mod {
    open spec fn kind(&self) -> ModuleType { ModuleType::UR20_4RO_CO_255 }
    open spec fn n(&self) -> int { 1 }
    open spec fn n_in(&self) -> int { 0 }
    open spec fn parsed(&self, w: Seq<u16>) -> bool { self.ch_params@.len() == self.kind().channels() && forall|i: int| 0 <= i < self.kind().channels() ==> channel(#[trigger] self.ch_params@[i], w, i) }
    open spec fn dec_out(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> {
        if w.len() == 1 { Some(Seq::new(self.kind().channels(), |i: int| ChannelValue::Bit(bit(w[0], i)))) } else { None }
    }
    open spec fn dec_in(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> { no_values(self.kind(), w) }
    open spec fn enc(&self, v: Seq<ChannelValue>) -> Option<Seq<u16>> {
        if v.len() == self.kind().channels() && switches(v) { Some(seq![lit(v, v.len() as int)]) } else { None }
    }
//@fn src/ur20_4ro_co_255.rs impl Module for Mod :: module_type
//@ of-trait
//@end
//@fn src/ur20_4ro_co_255.rs impl ProcessModbusTcpData for Mod :: process_input_byte_count
//@ of-trait
//@end
//@fn src/ur20_4ro_co_255.rs impl ProcessModbusTcpData for Mod :: process_output_byte_count
//@ of-trait
//@end
//@fn src/ur20_4ro_co_255.rs impl ProcessModbusTcpData for Mod :: process_input_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@end
//@fn src/ur20_4ro_co_255.rs impl ProcessModbusTcpData for Mod :: process_output_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ whole
//@ loop 0
//@   invariant
//@     data@.len() == 1, 4 <= 16,
//@     out_@ =~= Seq::new(n_ as nat, |i: int| ChannelValue::Bit(bit(data@[0], i))),
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
//@fn src/ur20_4ro_co_255.rs impl ProcessModbusTcpData for Mod :: process_output_values
//@ of-trait
//@ params values
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ whole
//@ loop 0 indexed-for
//@   invariant
//@     values@.len() == 4, 4 <= 16,
//@     res == lit(values@, n_ as int), forall|j: int| 0 <= j < n_ ==> switch(#[trigger] values@[j]),
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
}
}
//@prefix 16do
pub mod ur20_16do_p {
use super::*;
//@item src/ur20_16do_p.rs struct Mod
pub open spec fn valid(w: Seq<u16>) -> bool { w.len() == 0 }
impl Mod {
//@fn src/ur20_16do_p.rs impl FromModbusParameterData for Mod :: from_modbus_parameter_data
//@ params data
//@  ensures r is Ok == valid(data@), r is Ok ==> r->Ok_0.parsed(data@)
//@end
}
impl ProcessModbusTcpData for Mod {
    open spec fn kind(&self) -> ModuleType { ModuleType::UR20_16DO_P }
    open spec fn n(&self) -> int { 2 }
    open spec fn n_in(&self) -> int { 0 }
    open spec fn parsed(&self, w: Seq<u16>) -> bool { true }
    open spec fn dec_out(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> {
        if w.len() == 1 { Some(Seq::new(self.kind().channels(), |i: int| ChannelValue::Bit(bit(w[0], i)))) } else { None }
    }
    open spec fn dec_in(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> { no_values(self.kind(), w) }
    open spec fn enc(&self, v: Seq<ChannelValue>) -> Option<Seq<u16>> {
        if v.len() == self.kind().channels() && switches(v) { Some(seq![lit(v, v.len() as int)]) } else { None }
    }
//@fn src/ur20_16do_p.rs impl Module for Mod :: module_type
//@ of-trait
//@end
//@fn src/ur20_16do_p.rs impl ProcessModbusTcpData for Mod :: process_input_byte_count
//@ of-trait
//@end
//@fn src/ur20_16do_p.rs impl ProcessModbusTcpData for Mod :: process_output_byte_count
//@ of-trait
//@end
//@fn src/ur20_16do_p.rs impl ProcessModbusTcpData for Mod :: process_input_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@end
//@fn src/ur20_16do_p.rs impl ProcessModbusTcpData for Mod :: process_output_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ whole
//@ loop 0
//@   invariant
//@     data@.len() == 1, 16 <= 16,
//@     out_@ =~= Seq::new(n_ as nat, |i: int| ChannelValue::Bit(bit(data@[0], i))),
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
//@fn src/ur20_16do_p.rs impl ProcessModbusTcpData for Mod :: process_output_values
//@ of-trait
//@ params values
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ whole
//@ loop 0 indexed-for
//@   invariant
//@     values@.len() == 16, 16 <= 16,
//@     res == lit(values@, n_ as int), forall|j: int| 0 <= j < n_ ==> switch(#[trigger] values@[j]),
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
}
}
//@prefix sil
//@subst \]\s*\.into\(\) => ]
pub mod ur20_pf_o_1di_sil {
use super::*;
use super::sil_data::ProcessInput;
//@item src/ur20_pf_o_1di_sil.rs struct Mod
pub open spec fn valid(w: Seq<u16>) -> bool { w.len() == 0 }
impl Mod {
//@fn src/ur20_pf_o_1di_sil.rs impl FromModbusParameterData for Mod :: from_modbus_parameter_data
//@ params data
//@  ensures r is Ok == valid(data@), r is Ok ==> r->Ok_0.parsed(data@)
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<ProcessInput> for ChannelValue {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(o: ProcessInput) -> ChannelValue { ChannelValue::SilPFIn(o) }
}
impl From<ProcessInput> for ChannelValue {
//@fn src/ur20_pf_o_1di_sil.rs impl From<ProcessInput> for ChannelValue :: from
//@ of-trait
//@ params o
//@end
}
pub proof fn byte_bits(w: u16)
    ensures
        forall|i: int| 0 <= i < 8 ==> #[trigger] bit(low(w) as u16, i) == bit(w, i),
        forall|i: int| 0 <= i < 8 ==> #[trigger] bit(high(w) as u16, i) == bit(w, i + 8),
{
    assert forall|i: int| 0 <= i < 8 implies #[trigger] bit(low(w) as u16, i) == bit(w, i) by {
        let n = i as u16;
        assert(n < 8 ==> (((w & 0xff) as u8) as u16 & (1u16 << n) != 0) == (w & (1u16 << n) != 0)) by (bit_vector);
    }
    assert forall|i: int| 0 <= i < 8 implies #[trigger] bit(high(w) as u16, i) == bit(w, i + 8) by {
        let n = i as u16;
        let m = (i + 8) as u16;
        assert(n < 8 && m == n + 8 ==> (((w >> 8) as u8) as u16 & (1u16 << n) != 0) == (w & (1u16 << m) != 0)) by (bit_vector);
    }
}
/// C09: the documented status bits
pub open spec fn status(w: Seq<u16>) -> ProcessInput {
    ProcessInput {
        safety_input: bit(w[0], 0), autostart: bit(w[0], 2), manual_start: bit(w[0], 3), safety_input_channel_1: bit(w[0], 4),
        safety_input_channel_2: bit(w[0], 5), volt_24_safe_output: bit(w[0], 8), volt_24_dc: bit(w[0], 10),
    }
}
impl ProcessModbusTcpData for Mod {
    open spec fn kind(&self) -> ModuleType { ModuleType::UR20_PF_O_1DI_SIL }
    open spec fn n(&self) -> int { 0 }
    open spec fn n_in(&self) -> int { 4 }
    open spec fn parsed(&self, w: Seq<u16>) -> bool { true }
    open spec fn dec_in(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> { if w.len() == 2 { Some(seq![ChannelValue::SilPFIn(status(w))]) } else { None } }
    open spec fn dec_out(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> { no_values(self.kind(), w) }
    open spec fn enc(&self, v: Seq<ChannelValue>) -> Option<Seq<u16>> { no_registers(self.kind(), v) }
//@fn src/ur20_pf_o_1di_sil.rs impl Module for Mod :: module_type
//@ of-trait
//@end
//@fn src/ur20_pf_o_1di_sil.rs impl ProcessModbusTcpData for Mod :: process_input_byte_count
//@ of-trait
//@end
//@fn src/ur20_pf_o_1di_sil.rs impl ProcessModbusTcpData for Mod :: process_output_byte_count
//@ of-trait
//@end
//@fn src/ur20_pf_o_1di_sil.rs impl ProcessModbusTcpData for Mod :: process_input_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ start
//@   proof {
//@     assert forall|w: u16, i: int| 0 <= i < 8 implies #[trigger] bit(low(w) as u16, i) == bit(w, i) by { byte_bits(w); }
//@     assert forall|w: u16, i: int| 0 <= i < 8 implies #[trigger] bit(high(w) as u16, i) == bit(w, i + 8) by { byte_bits(w); }
//@     assert(data@.len() == 2 ==> low(data@[0]) == (data@[0] & 0xff) as u8 && high(data@[0]) == (data@[0] >> 8) as u8);
//@   }
//@end
//@fn src/ur20_pf_o_1di_sil.rs impl ProcessModbusTcpData for Mod :: process_output_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@end
//@fn src/ur20_pf_o_1di_sil.rs impl ProcessModbusTcpData for Mod :: process_output_values
//@ of-trait
//@ params values
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@end
}
}
//@prefix

} // verus!
//@endscope
