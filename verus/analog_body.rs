// Each analog module against its data format: C05, C06, C07, C14. The conversions
// of single values are functions whose results Verus takes as they are (Kani
// decides them for every input).
//@include module_trait
//@include params
//@scope
//@subst \butil:: => super::
//@subst \bf32::from\( => float_of(
//@subst (\w+)\s*\.try_into\(\)\s*\.expect\("[^"]*"\) => array_of(\1)

verus! {

/// `f32::from(i16)`
pub uninterp spec fn float(n: i16) -> f32;
#[verifier::external_body]
pub fn float_of(n: i16) -> (r: f32) ensures r == float(n) { f32::from(n) }

/// `Vec::try_into().expect(..)`: the number of elements is the length of the array
#[verifier::external_body]
pub fn array_of<T, const N: usize>(v: Vec<T>) -> (r: [T; N]) requires v@.len() == N ensures r@ == v@ { unimplemented!() }

/// what a register stands for; `None`: the channel is disabled
pub uninterp spec fn analog(w: u16, range: AnalogUIRange, format: DataFormat) -> Option<f32>;
pub uninterp spec fn code(v: f32, range: AnalogUIRange, format: DataFormat) -> u16;
pub uninterp spec fn resistance(w: u16, range: RtdRange) -> Option<f32>;
pub uninterp spec fn thermal(w: u16, range: MeasurementRange) -> Option<f32>;
pub uninterp spec fn current(v: f32, range: AnalogIRange, format: DataFormat) -> Option<f32>;
pub open spec fn shown(v: Option<f32>) -> ChannelValue { match v { Some(v) => ChannelValue::Decimal32(v), None => ChannelValue::Disabled } }

//@fn src/util.rs - :: u16_to_analog_ui_value
//@ params data range format
//@ taken
//@  ensures r == analog(data, *range, *format)
//@end
//@fn src/util.rs - :: analog_ui_value_to_u16
//@ params v range format
//@ taken
//@  ensures r == code(v, *range, *format)
//@end
//@fn src/util.rs - :: u16_to_rtd_value
//@ params data range
//@ taken
//@  ensures r == resistance(data, *range)
//@end

//@prefix ai
pub mod ur20_ai_ui_generic {
use super::*;
//@item src/ur20_ai_ui_generic.rs struct ChannelParameters
//@item src/ur20_ai_ui_generic.rs struct ModuleParameters
use std::marker::PhantomData;
//@expect src/ur20_ai_ui_generic.rs const MODULE_TYPE: ModuleType = ModuleType::$name;
pub trait AIVariant: Sized {
    const MODULE_TYPE: ModuleType;
    spec fn the_type() -> ModuleType;
    proof fn facts() ensures Self::MODULE_TYPE == Self::the_type(), Self::MODULE_TYPE.channels() == 4, !Self::MODULE_TYPE.is_com(), !Self::MODULE_TYPE.is_safety();
}
//@for T in UR20_4AI_UI_12 UR20_4AI_UI_16
pub struct $T;
impl AIVariant for $T {
    const MODULE_TYPE: ModuleType = ModuleType::$T;
    open spec fn the_type() -> ModuleType { ModuleType::$T }
    proof fn facts() { reveal(ModuleType::channels); }
}
//@endfor
pub struct Mod<Variant> { pub mod_params: ModuleParameters, pub ch_params: Vec<ChannelParameters>, pub _phantom: PhantomData<Variant> }
impl ChannelParameters {
//@fn src/ur20_ai_ui_generic.rs impl Default for ChannelParameters :: default
//@
//@end
}
/// what a parameter block says about a channel
pub open spec fn channel_valid(w: Seq<u16>, i: int) -> bool { DataFormat::of(w[2 * i + 1]) is Some && AnalogUIRange::of(w[2 * i + 2]) is Some }
pub open spec fn channel(p: ChannelParameters, w: Seq<u16>, i: int) -> bool {
    &&& DataFormat::of(w[2 * i + 1]) == Some(p.data_format)
    &&& AnalogUIRange::of(w[2 * i + 2]) == Some(p.measurement_range)
}
/// a block that the module accepts
pub open spec fn valid(w: Seq<u16>) -> bool { w.len() >= 9 && FrequencySuppression::of(w[0]) is Some && forall|i: int| 0 <= i < 4 ==> #[trigger] channel_valid(w, i) }
//@fn src/ur20_ai_ui_generic.rs - :: parameters_from_raw_data
//@ params data
//@  ensures
//@    r is Ok == valid(data@),
//@    r is Ok ==> FrequencySuppression::of(data@[0]) == Some(r->Ok_0.0.frequency_suppression) && r->Ok_0.1@.len() == 4 && forall|i: int| 0 <= i < 4 ==> channel(#[trigger] r->Ok_0.1@[i], data@, i),
//@ start
//@   proof { Variant::facts(); }
//@ whole
//@ lift 0.0 :: channel_parameters :: data: &[u16]; i: usize :: Result<ChannelParameters, Error>
//@  requires i < 4, data@.len() >= 9
//@  ensures r is Ok == channel_valid(data@, i as int), r is Ok ==> channel(r->Ok_0, data@, i as int)
//@ end-lift
//@ elem 0 :: ChannelParameters
//@ loop 0
//@   invariant
//@     err_ is None ==> out_@.len() == n_ && (forall|j: int| 0 <= j < n_ ==> #[trigger] channel_valid(data@, j)) && forall|j: int| 0 <= j < n_ ==> channel(#[trigger] out_@[j], data@, j),
//@     err_ is Some ==> exists|j: int| 0 <= j < 4 && !#[trigger] channel_valid(data@, j),
//@end
impl<Variant: AIVariant> Mod<Variant> {
//@fn src/ur20_ai_ui_generic.rs impl<Variant: AIVariant> FromModbusParameterData for Mod<Variant> :: from_modbus_parameter_data
//@ params data
//@  ensures r is Ok == valid(data@), r is Ok ==> r->Ok_0.parsed(data@)
//@ start
//@   proof { Variant::facts(); }
//@end
}
// lifted
impl<Variant: AIVariant> ProcessModbusTcpData for Mod<Variant> {
    open spec fn kind(&self) -> ModuleType { Variant::the_type() }
    open spec fn n(&self) -> int { 0 }
    open spec fn n_in(&self) -> int { 8 }
    open spec fn parsed(&self, w: Seq<u16>) -> bool { self.ch_params@.len() == 4 && FrequencySuppression::of(w[0]) == Some(self.mod_params.frequency_suppression) && forall|i: int| 0 <= i < 4 ==> channel(#[trigger] self.ch_params@[i], w, i) }
    open spec fn dec_in(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> {
        if w.len() == 4 && self.ch_params@.len() == 4 { Some(Seq::new(4, |i: int| shown(analog(w[i], self.ch_params@[i].measurement_range, self.ch_params@[i].data_format)))) } else { None }
    }
    open spec fn dec_out(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> { no_values(self.kind(), w) }
    open spec fn enc(&self, v: Seq<ChannelValue>) -> Option<Seq<u16>> { no_registers(self.kind(), v) }
//@fn src/ur20_ai_ui_generic.rs impl<Variant: AIVariant> Module for Mod<Variant> :: module_type
//@ of-trait
//@ start
//@   proof { Variant::facts(); }
//@end
//@fn src/ur20_ai_ui_generic.rs impl<Variant: AIVariant> ProcessModbusTcpData for Mod<Variant> :: process_input_byte_count
//@ of-trait
//@ start
//@   proof { Variant::facts(); }
//@end
//@fn src/ur20_ai_ui_generic.rs impl<Variant: AIVariant> ProcessModbusTcpData for Mod<Variant> :: process_output_byte_count
//@ of-trait
//@end
//@fn src/ur20_ai_ui_generic.rs impl<Variant: AIVariant> ProcessModbusTcpData for Mod<Variant> :: process_input_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ whole
//@ loop 0
//@   invariant
//@     out_@ =~= Seq::new(n_ as nat, |i: int| shown(analog(data@[i], self.ch_params@[i].measurement_range, self.ch_params@[i].data_format))),
//@ start
//@   proof { Variant::facts(); }
//@end
//@fn src/ur20_ai_ui_generic.rs impl<Variant: AIVariant> ProcessModbusTcpData for Mod<Variant> :: process_output_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ start
//@   proof { Variant::facts(); }
//@end
//@fn src/ur20_ai_ui_generic.rs impl<Variant: AIVariant> ProcessModbusTcpData for Mod<Variant> :: process_output_values
//@ of-trait
//@ params values
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ start
//@   proof { Variant::facts(); }
//@end
}
}
//@prefix ai_diag
pub mod ur20_4ai_ui_16_diag {
use super::*;
//@item src/ur20_4ai_ui_16_diag.rs struct ChannelParameters
//@item src/ur20_4ai_ui_16_diag.rs struct ModuleParameters
//@item src/ur20_4ai_ui_16_diag.rs struct Mod
impl ChannelParameters {
//@fn src/ur20_4ai_ui_16_diag.rs impl Default for ChannelParameters :: default
//@
//@end
}
/// what a parameter block says about a channel
pub open spec fn channel_valid(w: Seq<u16>, i: int) -> bool { flag(w[5 * i + 1]) is Some && flag(w[5 * i + 2]) is Some && flag(w[5 * i + 3]) is Some && DataFormat::of(w[5 * i + 4]) is Some && AnalogUIRange::of(w[5 * i + 5]) is Some }
pub open spec fn channel(p: ChannelParameters, w: Seq<u16>, i: int) -> bool {
    &&& flag(w[5 * i + 1]) == Some(p.channel_diagnostics)
    &&& flag(w[5 * i + 2]) == Some(p.diag_short_circuit)
    &&& flag(w[5 * i + 3]) == Some(p.diag_line_break)
    &&& DataFormat::of(w[5 * i + 4]) == Some(p.data_format)
    &&& AnalogUIRange::of(w[5 * i + 5]) == Some(p.measurement_range)
}
/// a block that the module accepts
pub open spec fn valid(w: Seq<u16>) -> bool { w.len() >= 21 && FrequencySuppression::of(w[0]) is Some && forall|i: int| 0 <= i < 4 ==> #[trigger] channel_valid(w, i) }
//@fn src/ur20_4ai_ui_16_diag.rs - :: parameters_from_raw_data
//@ params data
//@  ensures
//@    r is Ok == valid(data@),
//@    r is Ok ==> FrequencySuppression::of(data@[0]) == Some(r->Ok_0.0.frequency_suppression) && r->Ok_0.1@.len() == 4 && forall|i: int| 0 <= i < 4 ==> channel(#[trigger] r->Ok_0.1@[i], data@, i),
//@ whole
//@ lift 0.0 :: channel_parameters :: data: &[u16]; i: usize :: Result<ChannelParameters, Error>
//@  requires i < 4, data@.len() >= 21
//@  ensures r is Ok == channel_valid(data@, i as int), r is Ok ==> channel(r->Ok_0, data@, i as int)
//@ end-lift
//@ elem 0 :: ChannelParameters
//@ loop 0
//@   invariant
//@     err_ is None ==> out_@.len() == n_ && (forall|j: int| 0 <= j < n_ ==> #[trigger] channel_valid(data@, j)) && forall|j: int| 0 <= j < n_ ==> channel(#[trigger] out_@[j], data@, j),
//@     err_ is Some ==> exists|j: int| 0 <= j < 4 && !#[trigger] channel_valid(data@, j),
//@end
impl Mod {
//@fn src/ur20_4ai_ui_16_diag.rs impl FromModbusParameterData for Mod :: from_modbus_parameter_data
//@ params data
//@  ensures r is Ok == valid(data@), r is Ok ==> r->Ok_0.parsed(data@)
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
}
// lifted
impl ProcessModbusTcpData for Mod {
    open spec fn kind(&self) -> ModuleType { ModuleType::UR20_4AI_UI_16_DIAG }
    open spec fn n(&self) -> int { 0 }
    open spec fn n_in(&self) -> int { 8 }
    open spec fn parsed(&self, w: Seq<u16>) -> bool { self.ch_params@.len() == 4 && FrequencySuppression::of(w[0]) == Some(self.mod_params.frequency_suppression) && forall|i: int| 0 <= i < 4 ==> channel(#[trigger] self.ch_params@[i], w, i) }
    open spec fn dec_in(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> {
        if w.len() == 4 && self.ch_params@.len() == 4 { Some(Seq::new(4, |i: int| shown(analog(w[i], self.ch_params@[i].measurement_range, self.ch_params@[i].data_format)))) } else { None }
    }
    open spec fn dec_out(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> { no_values(self.kind(), w) }
    open spec fn enc(&self, v: Seq<ChannelValue>) -> Option<Seq<u16>> { no_registers(self.kind(), v) }
//@fn src/ur20_4ai_ui_16_diag.rs impl Module for Mod :: module_type
//@ of-trait
//@end
//@fn src/ur20_4ai_ui_16_diag.rs impl ProcessModbusTcpData for Mod :: process_input_byte_count
//@ of-trait
//@end
//@fn src/ur20_4ai_ui_16_diag.rs impl ProcessModbusTcpData for Mod :: process_output_byte_count
//@ of-trait
//@end
//@fn src/ur20_4ai_ui_16_diag.rs impl ProcessModbusTcpData for Mod :: process_input_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ whole
//@ loop 0
//@   invariant
//@     out_@ =~= Seq::new(n_ as nat, |i: int| shown(analog(data@[i], self.ch_params@[i].measurement_range, self.ch_params@[i].data_format))),
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
//@fn src/ur20_4ai_ui_16_diag.rs impl ProcessModbusTcpData for Mod :: process_output_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ whole
//@ loop 0
//@   invariant out_@ =~= Seq::new(n_ as nat, |i: int| ChannelValue::None),
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
//@fn src/ur20_4ai_ui_16_diag.rs impl ProcessModbusTcpData for Mod :: process_output_values
//@ of-trait
//@ params values
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@end
}
}
//@prefix ai8
pub mod ur20_8ai_i_16_diag_hd {
use super::*;
//@item src/ur20_8ai_i_16_diag_hd.rs struct ChannelParameters
//@item src/ur20_8ai_i_16_diag_hd.rs struct ModuleParameters
//@item src/ur20_8ai_i_16_diag_hd.rs struct Mod
impl ChannelParameters {
//@fn src/ur20_8ai_i_16_diag_hd.rs impl Default for ChannelParameters :: default
//@
//@end
}
/// what a parameter block says about a channel
pub open spec fn channel_valid(w: Seq<u16>, i: int) -> bool { flag(w[4 * i + 1]) is Some && flag(w[4 * i + 2]) is Some && DataFormat::of(w[4 * i + 3]) is Some && AnalogIRange::of(w[4 * i + 4]) is Some }
pub open spec fn channel(p: ChannelParameters, w: Seq<u16>, i: int) -> bool {
    &&& flag(w[4 * i + 1]) == Some(p.channel_diagnostics)
    &&& flag(w[4 * i + 2]) == Some(p.diag_short_circuit)
    &&& DataFormat::of(w[4 * i + 3]) == Some(p.data_format)
    &&& AnalogIRange::of(w[4 * i + 4]) == Some(p.measurement_range)
}
/// a block that the module accepts
pub open spec fn valid(w: Seq<u16>) -> bool { w.len() >= 33 && FrequencySuppression::of(w[0]) is Some && forall|i: int| 0 <= i < 8 ==> #[trigger] channel_valid(w, i) }
//@fn src/ur20_8ai_i_16_diag_hd.rs - :: parameters_from_raw_data
//@ params data
//@  ensures
//@    r is Ok == valid(data@),
//@    r is Ok ==> FrequencySuppression::of(data@[0]) == Some(r->Ok_0.0.frequency_suppression) && r->Ok_0.1@.len() == 8 && forall|i: int| 0 <= i < 8 ==> channel(#[trigger] r->Ok_0.1@[i], data@, i),
//@ whole
//@ lift 0.0 :: channel_parameters :: data: &[u16]; i: usize :: Result<ChannelParameters, Error>
//@  requires i < 8, data@.len() >= 33
//@  ensures r is Ok == channel_valid(data@, i as int), r is Ok ==> channel(r->Ok_0, data@, i as int)
//@ end-lift
//@ elem 0 :: ChannelParameters
//@ loop 0
//@   invariant
//@     err_ is None ==> out_@.len() == n_ && (forall|j: int| 0 <= j < n_ ==> #[trigger] channel_valid(data@, j)) && forall|j: int| 0 <= j < n_ ==> channel(#[trigger] out_@[j], data@, j),
//@     err_ is Some ==> exists|j: int| 0 <= j < 8 && !#[trigger] channel_valid(data@, j),
//@end
impl Mod {
//@fn src/ur20_8ai_i_16_diag_hd.rs impl FromModbusParameterData for Mod :: from_modbus_parameter_data
//@ params data
//@  ensures r is Ok == valid(data@), r is Ok ==> r->Ok_0.parsed(data@)
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
}
// lifted
impl ProcessModbusTcpData for Mod {
    open spec fn kind(&self) -> ModuleType { ModuleType::UR20_8AI_I_16_DIAG_HD }
    open spec fn n(&self) -> int { 0 }
    open spec fn n_in(&self) -> int { 16 }
    open spec fn parsed(&self, w: Seq<u16>) -> bool { self.ch_params@.len() == 8 && FrequencySuppression::of(w[0]) == Some(self.mod_params.frequency_suppression) && forall|i: int| 0 <= i < 8 ==> channel(#[trigger] self.ch_params@[i], w, i) }
    open spec fn dec_in(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> {
        if w.len() == 8 && self.ch_params@.len() == 8 { Some(Seq::new(8, |i: int| shown(current(float(w[i] as i16), self.ch_params@[i].measurement_range, self.ch_params@[i].data_format)))) } else { None }
    }
    open spec fn dec_out(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> { no_values(self.kind(), w) }
    open spec fn enc(&self, v: Seq<ChannelValue>) -> Option<Seq<u16>> { no_registers(self.kind(), v) }
//@fn src/ur20_8ai_i_16_diag_hd.rs impl Module for Mod :: module_type
//@ of-trait
//@end
//@fn src/ur20_8ai_i_16_diag_hd.rs impl ProcessModbusTcpData for Mod :: process_input_byte_count
//@ of-trait
//@end
//@fn src/ur20_8ai_i_16_diag_hd.rs impl ProcessModbusTcpData for Mod :: process_output_byte_count
//@ of-trait
//@end
//@fn src/ur20_8ai_i_16_diag_hd.rs impl ProcessModbusTcpData for Mod :: process_input_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ lift 0.1 :: current_shown :: a: (f32, &AnalogIRange, &DataFormat) :: ChannelValue
//@  taken
//@  ensures r == shown(current(a.0, *a.1, *a.2))
//@ end-lift
//@ whole
//@ loop 0
//@   invariant
//@     out_@ =~= Seq::new(n_ as nat, |i: int| shown(current(float(data@[i] as i16), self.ch_params@[i].measurement_range, self.ch_params@[i].data_format))),
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
//@fn src/ur20_8ai_i_16_diag_hd.rs impl ProcessModbusTcpData for Mod :: process_output_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@end
//@fn src/ur20_8ai_i_16_diag_hd.rs impl ProcessModbusTcpData for Mod :: process_output_values
//@ of-trait
//@ params values
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@end
}
}
//@prefix ao
pub mod ur20_4ao_ui_16 {
use super::*;
/// a value that an output takes, and its register
pub open spec fn output(v: ChannelValue) -> bool { v is Decimal32 || v is Disabled }
pub open spec fn register(v: ChannelValue, range: AnalogUIRange, format: DataFormat) -> u16 { if v is Decimal32 { code(v->Decimal32_0, range, format) } else { 0 } }
//@fn src/ur20_4ao_ui_16.rs - :: value_to_u16
//@ params v range format
//@  ensures r is Ok == output(*v), r is Ok ==> r->Ok_0 == register(*v, *range, *format)
//@end
//@item src/ur20_4ao_ui_16.rs struct ChannelParameters

//@item src/ur20_4ao_ui_16.rs struct Mod
impl ChannelParameters {
//@fn src/ur20_4ao_ui_16.rs impl Default for ChannelParameters :: default
//@  ensures r.substitute_value == 0.0f32
//@end
}
/// what a parameter block says about a channel
pub open spec fn channel_valid(w: Seq<u16>, i: int) -> bool { DataFormat::of(w[3 * i + 0]) is Some && AnalogUIRange::of(w[3 * i + 1]) is Some }
pub open spec fn channel(p: ChannelParameters, w: Seq<u16>, i: int) -> bool {
    &&& DataFormat::of(w[3 * i + 0]) == Some(p.data_format)
    &&& AnalogUIRange::of(w[3 * i + 1]) == Some(p.output_range)
    &&& match analog(w[3 * i + 2], p.output_range, p.data_format) { Some(v) => p.substitute_value == v, None => p.substitute_value == 0.0f32 }
}
/// a block that the module accepts
pub open spec fn valid(w: Seq<u16>) -> bool { w.len() >= 12 && forall|i: int| 0 <= i < 4 ==> #[trigger] channel_valid(w, i) }
//@fn src/ur20_4ao_ui_16.rs - :: parameters_from_raw_data
//@ params data
//@  ensures
//@    r is Ok == valid(data@),
//@    r is Ok ==> r->Ok_0@.len() == 4 && forall|i: int| 0 <= i < 4 ==> channel(#[trigger] r->Ok_0@[i], data@, i),
//@ whole
//@ lift 0.0 :: channel_parameters :: data: &[u16]; i: usize :: Result<ChannelParameters, Error>
//@  requires i < 4, data@.len() >= 12
//@  ensures r is Ok == channel_valid(data@, i as int), r is Ok ==> channel(r->Ok_0, data@, i as int)
//@ end-lift
//@ elem 0 :: ChannelParameters
//@ loop 0
//@   invariant
//@     err_ is None ==> out_@.len() == n_ && (forall|j: int| 0 <= j < n_ ==> #[trigger] channel_valid(data@, j)) && forall|j: int| 0 <= j < n_ ==> channel(#[trigger] out_@[j], data@, j),
//@     err_ is Some ==> exists|j: int| 0 <= j < 4 && !#[trigger] channel_valid(data@, j),
//@end
impl Mod {
//@fn src/ur20_4ao_ui_16.rs impl FromModbusParameterData for Mod :: from_modbus_parameter_data
//@ params data
//@  ensures r is Ok == valid(data@), r is Ok ==> r->Ok_0.parsed(data@)
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
}
// lifted
impl ProcessModbusTcpData for Mod {
    open spec fn kind(&self) -> ModuleType { ModuleType::UR20_4AO_UI_16 }
    open spec fn n(&self) -> int { 8 }
    open spec fn n_in(&self) -> int { 0 }
    open spec fn parsed(&self, w: Seq<u16>) -> bool { self.ch_params@.len() == 4 && forall|i: int| 0 <= i < 4 ==> channel(#[trigger] self.ch_params@[i], w, i) }
    open spec fn dec_out(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> {
        if w.len() == 4 && self.ch_params@.len() == 4 { Some(Seq::new(4, |i: int| shown(analog(w[i], self.ch_params@[i].output_range, self.ch_params@[i].data_format)))) } else { None }
    }
    open spec fn dec_in(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> { no_values(self.kind(), w) }
    open spec fn enc(&self, v: Seq<ChannelValue>) -> Option<Seq<u16>> {
        if v.len() == 4 && self.ch_params@.len() == 4 && forall|i: int| 0 <= i < 4 ==> output(#[trigger] v[i]) {
            Some(Seq::new(4, |i: int| register(v[i], self.ch_params@[i].output_range, self.ch_params@[i].data_format)))
        } else { None }
    }
//@fn src/ur20_4ao_ui_16.rs impl Module for Mod :: module_type
//@ of-trait
//@end
//@fn src/ur20_4ao_ui_16.rs impl ProcessModbusTcpData for Mod :: process_input_byte_count
//@ of-trait
//@end
//@fn src/ur20_4ao_ui_16.rs impl ProcessModbusTcpData for Mod :: process_output_byte_count
//@ of-trait
//@end
//@fn src/ur20_4ao_ui_16.rs impl ProcessModbusTcpData for Mod :: process_input_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@end
//@fn src/ur20_4ao_ui_16.rs impl ProcessModbusTcpData for Mod :: process_output_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ whole
//@ loop 0
//@   invariant
//@     out_@ =~= Seq::new(n_ as nat, |i: int| shown(analog(data@[i], self.ch_params@[i].output_range, self.ch_params@[i].data_format))),
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
//@fn src/ur20_4ao_ui_16.rs impl ProcessModbusTcpData for Mod :: process_output_values
//@ of-trait
//@ params values
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ whole
//@ loop 0
//@   invariant
//@     err_ is None ==> out_@ =~= Seq::new(n_ as nat, |i: int| register(values@[i], self.ch_params@[i].output_range, self.ch_params@[i].data_format)),
//@     err_ is None ==> forall|i: int| 0 <= i < n_ ==> output(#[trigger] values@[i]),
//@     err_ is Some ==> exists|i: int| 0 <= i < 4 && !output(#[trigger] values@[i]),
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
}
}
//@prefix ao_diag
pub mod ur20_4ao_ui_16_diag {
use super::*;
/// a value that an output takes, and its register
pub open spec fn output(v: ChannelValue) -> bool { v is Decimal32 || v is Disabled }
pub open spec fn register(v: ChannelValue, range: AnalogUIRange, format: DataFormat) -> u16 { if v is Decimal32 { code(v->Decimal32_0, range, format) } else { 0 } }
//@fn src/ur20_4ao_ui_16_diag.rs - :: value_to_u16
//@ params v range format
//@  ensures r is Ok == output(*v), r is Ok ==> r->Ok_0 == register(*v, *range, *format)
//@end
//@item src/ur20_4ao_ui_16_diag.rs struct ChannelParameters

//@item src/ur20_4ao_ui_16_diag.rs struct Mod
impl ChannelParameters {
//@fn src/ur20_4ao_ui_16_diag.rs impl Default for ChannelParameters :: default
//@  ensures r.substitute_value == 0.0f32
//@end
}
/// what a parameter block says about a channel
pub open spec fn channel_valid(w: Seq<u16>, i: int) -> bool { DataFormat::of(w[4 * i + 0]) is Some && AnalogUIRange::of(w[4 * i + 1]) is Some && flag(w[4 * i + 3]) is Some }
pub open spec fn channel(p: ChannelParameters, w: Seq<u16>, i: int) -> bool {
    &&& DataFormat::of(w[4 * i + 0]) == Some(p.data_format)
    &&& AnalogUIRange::of(w[4 * i + 1]) == Some(p.output_range)
    &&& match analog(w[4 * i + 2], p.output_range, p.data_format) { Some(v) => p.substitute_value == v, None => p.substitute_value == 0.0f32 }
    &&& flag(w[4 * i + 3]) == Some(p.channel_diagnostics)
}
/// a block that the module accepts
pub open spec fn valid(w: Seq<u16>) -> bool { w.len() >= 16 && forall|i: int| 0 <= i < 4 ==> #[trigger] channel_valid(w, i) }
//@fn src/ur20_4ao_ui_16_diag.rs - :: parameters_from_raw_data
//@ params data
//@  ensures
//@    r is Ok == valid(data@),
//@    r is Ok ==> r->Ok_0@.len() == 4 && forall|i: int| 0 <= i < 4 ==> channel(#[trigger] r->Ok_0@[i], data@, i),
//@ whole
//@ lift 0.0 :: channel_parameters :: data: &[u16]; i: usize :: Result<ChannelParameters, Error>
//@  requires i < 4, data@.len() >= 16
//@  ensures r is Ok == channel_valid(data@, i as int), r is Ok ==> channel(r->Ok_0, data@, i as int)
//@ end-lift
//@ elem 0 :: ChannelParameters
//@ loop 0
//@   invariant
//@     err_ is None ==> out_@.len() == n_ && (forall|j: int| 0 <= j < n_ ==> #[trigger] channel_valid(data@, j)) && forall|j: int| 0 <= j < n_ ==> channel(#[trigger] out_@[j], data@, j),
//@     err_ is Some ==> exists|j: int| 0 <= j < 4 && !#[trigger] channel_valid(data@, j),
//@end
impl Mod {
//@fn src/ur20_4ao_ui_16_diag.rs impl FromModbusParameterData for Mod :: from_modbus_parameter_data
//@ params data
//@  ensures r is Ok == valid(data@), r is Ok ==> r->Ok_0.parsed(data@)
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
}
// lifted
impl ProcessModbusTcpData for Mod {
    open spec fn kind(&self) -> ModuleType { ModuleType::UR20_4AO_UI_16_DIAG }
    open spec fn n(&self) -> int { 8 }
    open spec fn n_in(&self) -> int { 0 }
    open spec fn parsed(&self, w: Seq<u16>) -> bool { self.ch_params@.len() == 4 && forall|i: int| 0 <= i < 4 ==> channel(#[trigger] self.ch_params@[i], w, i) }
    open spec fn dec_out(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> {
        if w.len() == 4 && self.ch_params@.len() == 4 { Some(Seq::new(4, |i: int| shown(analog(w[i], self.ch_params@[i].output_range, self.ch_params@[i].data_format)))) } else { None }
    }
    open spec fn dec_in(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> { no_values(self.kind(), w) }
    open spec fn enc(&self, v: Seq<ChannelValue>) -> Option<Seq<u16>> {
        if v.len() == 4 && self.ch_params@.len() == 4 && forall|i: int| 0 <= i < 4 ==> output(#[trigger] v[i]) {
            Some(Seq::new(4, |i: int| register(v[i], self.ch_params@[i].output_range, self.ch_params@[i].data_format)))
        } else { None }
    }
//@fn src/ur20_4ao_ui_16_diag.rs impl Module for Mod :: module_type
//@ of-trait
//@end
//@fn src/ur20_4ao_ui_16_diag.rs impl ProcessModbusTcpData for Mod :: process_input_byte_count
//@ of-trait
//@end
//@fn src/ur20_4ao_ui_16_diag.rs impl ProcessModbusTcpData for Mod :: process_output_byte_count
//@ of-trait
//@end
//@fn src/ur20_4ao_ui_16_diag.rs impl ProcessModbusTcpData for Mod :: process_input_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@end
//@fn src/ur20_4ao_ui_16_diag.rs impl ProcessModbusTcpData for Mod :: process_output_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ whole
//@ loop 0
//@   invariant
//@     out_@ =~= Seq::new(n_ as nat, |i: int| shown(analog(data@[i], self.ch_params@[i].output_range, self.ch_params@[i].data_format))),
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
//@fn src/ur20_4ao_ui_16_diag.rs impl ProcessModbusTcpData for Mod :: process_output_values
//@ of-trait
//@ params values
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ whole
//@ loop 0
//@   invariant
//@     err_ is None ==> out_@ =~= Seq::new(n_ as nat, |i: int| register(values@[i], self.ch_params@[i].output_range, self.ch_params@[i].data_format)),
//@     err_ is None ==> forall|i: int| 0 <= i < n_ ==> output(#[trigger] values@[i]),
//@     err_ is Some ==> exists|i: int| 0 <= i < 4 && !output(#[trigger] values@[i]),
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
}
}
//@prefix rtd
pub mod ur20_4ai_rtd_diag {
use super::*;
//@item src/ur20_4ai_rtd_diag.rs struct ChannelParameters
//@item src/ur20_4ai_rtd_diag.rs struct ModuleParameters
//@item src/ur20_4ai_rtd_diag.rs struct Mod
impl ChannelParameters {
//@fn src/ur20_4ai_rtd_diag.rs impl Default for ChannelParameters :: default
//@
//@end
}
/// what a parameter block says about a channel
pub open spec fn channel_valid(w: Seq<u16>, i: int) -> bool { RtdRange::of(w[7 * i + 1]) is Some && ConnectionType::of(w[7 * i + 2]) is Some && ConversionTime::of(w[7 * i + 3]) is Some && flag(w[7 * i + 4]) is Some && flag(w[7 * i + 5]) is Some }
pub open spec fn channel(p: ChannelParameters, w: Seq<u16>, i: int) -> bool {
    &&& RtdRange::of(w[7 * i + 1]) == Some(p.measurement_range)
    &&& ConnectionType::of(w[7 * i + 2]) == Some(p.connection_type)
    &&& ConversionTime::of(w[7 * i + 3]) == Some(p.conversion_time)
    &&& flag(w[7 * i + 4]) == Some(p.channel_diagnostics)
    &&& flag(w[7 * i + 5]) == Some(p.limit_value_monitoring)
    &&& p.high_limit_value == w[7 * i + 6] as i16
    &&& p.low_limit_value == w[7 * i + 7] as i16
}
/// a block that the module accepts
pub open spec fn valid(w: Seq<u16>) -> bool { w.len() >= 29 && TemperatureUnit::of(w[0]) is Some && forall|i: int| 0 <= i < 4 ==> #[trigger] channel_valid(w, i) }
//@fn src/ur20_4ai_rtd_diag.rs - :: parameters_from_raw_data
//@ params data
//@  ensures
//@    r is Ok == valid(data@),
//@    r is Ok ==> TemperatureUnit::of(data@[0]) == Some(r->Ok_0.0.temperature_unit) && r->Ok_0.1@.len() == 4 && forall|i: int| 0 <= i < 4 ==> channel(#[trigger] r->Ok_0.1@[i], data@, i),
//@ whole
//@ lift 0.0 :: channel_parameters :: data: &[u16]; i: usize :: Result<ChannelParameters, Error>
//@  requires i < 4, data@.len() >= 29
//@  ensures r is Ok == channel_valid(data@, i as int), r is Ok ==> channel(r->Ok_0, data@, i as int)
//@ end-lift
//@ elem 0 :: ChannelParameters
//@ loop 0
//@   invariant
//@     err_ is None ==> out_@.len() == n_ && (forall|j: int| 0 <= j < n_ ==> #[trigger] channel_valid(data@, j)) && forall|j: int| 0 <= j < n_ ==> channel(#[trigger] out_@[j], data@, j),
//@     err_ is Some ==> exists|j: int| 0 <= j < 4 && !#[trigger] channel_valid(data@, j),
//@end
impl Mod {
//@fn src/ur20_4ai_rtd_diag.rs impl FromModbusParameterData for Mod :: from_modbus_parameter_data
//@ params data
//@  ensures r is Ok == valid(data@), r is Ok ==> r->Ok_0.parsed(data@)
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
}
// lifted
impl ProcessModbusTcpData for Mod {
    open spec fn kind(&self) -> ModuleType { ModuleType::UR20_4AI_RTD_DIAG }
    open spec fn n(&self) -> int { 0 }
    open spec fn n_in(&self) -> int { 8 }
    open spec fn parsed(&self, w: Seq<u16>) -> bool { self.ch_params@.len() == 4 && TemperatureUnit::of(w[0]) == Some(self.mod_params.temperature_unit) && forall|i: int| 0 <= i < 4 ==> channel(#[trigger] self.ch_params@[i], w, i) }
    open spec fn dec_in(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> {
        if w.len() == 4 && self.ch_params@.len() == 4 { Some(Seq::new(4, |i: int| shown(resistance(w[i], self.ch_params@[i].measurement_range)))) } else { None }
    }
    open spec fn dec_out(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> { no_values(self.kind(), w) }
    open spec fn enc(&self, v: Seq<ChannelValue>) -> Option<Seq<u16>> { no_registers(self.kind(), v) }
//@fn src/ur20_4ai_rtd_diag.rs impl Module for Mod :: module_type
//@ of-trait
//@end
//@fn src/ur20_4ai_rtd_diag.rs impl ProcessModbusTcpData for Mod :: process_input_byte_count
//@ of-trait
//@end
//@fn src/ur20_4ai_rtd_diag.rs impl ProcessModbusTcpData for Mod :: process_output_byte_count
//@ of-trait
//@end
//@fn src/ur20_4ai_rtd_diag.rs impl ProcessModbusTcpData for Mod :: process_input_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ whole
//@ loop 0
//@   invariant
//@     out_@ =~= Seq::new(n_ as nat, |i: int| shown(resistance(data@[i], self.ch_params@[i].measurement_range))),
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
//@fn src/ur20_4ai_rtd_diag.rs impl ProcessModbusTcpData for Mod :: process_output_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@end
//@fn src/ur20_4ai_rtd_diag.rs impl ProcessModbusTcpData for Mod :: process_output_values
//@ of-trait
//@ params values
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@end
}
}
//@prefix tc
pub mod ur20_4ai_tc_diag {
use super::*;
pub open spec fn thermal_shown(w: u16, range: MeasurementRange) -> ChannelValue {
    if range is Disabled { ChannelValue::Disabled } else { match thermal(w, range) { Some(v) => ChannelValue::Decimal32(v), None => ChannelValue::None } }
}
//@fn src/ur20_4ai_tc_diag.rs - :: u16_to_thermal_value
//@ params val measurement_range
//@ taken
//@  ensures r == thermal(val, measurement_range)
//@end
impl ChannelParameters {
//@fn src/ur20_4ai_tc_diag.rs impl ChannelParameters :: is_enabled
//@  ensures r == !(self.measurement_range is Disabled)
//@end
}
//@item src/ur20_4ai_tc_diag.rs struct ChannelParameters
//@item src/ur20_4ai_tc_diag.rs struct ModuleParameters
//@item src/ur20_4ai_tc_diag.rs struct Mod
/// what a parameter block says about a channel
pub open spec fn channel_valid(w: Seq<u16>, i: int) -> bool { MeasurementRange::of(w[7 * i + 1]) is Some && ColdJunctionCompensation::of(w[7 * i + 2]) is Some && ConversionTime::of(w[7 * i + 3]) is Some && flag(w[7 * i + 4]) is Some && flag(w[7 * i + 5]) is Some }
pub open spec fn channel(p: ChannelParameters, w: Seq<u16>, i: int) -> bool {
    &&& MeasurementRange::of(w[7 * i + 1]) == Some(p.measurement_range)
    &&& ColdJunctionCompensation::of(w[7 * i + 2]) == Some(p.cold_junction_compensation)
    &&& ConversionTime::of(w[7 * i + 3]) == Some(p.conversion_time)
    &&& flag(w[7 * i + 4]) == Some(p.channel_diagnostics)
    &&& flag(w[7 * i + 5]) == Some(p.limit_value_monitoring)
    &&& p.high_limit_value == w[7 * i + 6] as i16
    &&& p.low_limit_value == w[7 * i + 7] as i16
}
/// a block that the module accepts
pub open spec fn valid(w: Seq<u16>) -> bool { w.len() >= 29 && TemperatureUnit::of(w[0]) is Some && forall|i: int| 0 <= i < 4 ==> #[trigger] channel_valid(w, i) }
//@fn src/ur20_4ai_tc_diag.rs - :: parameters_from_raw_data
//@ params data
//@  ensures
//@    r is Ok == valid(data@),
//@    r is Ok ==> TemperatureUnit::of(data@[0]) == Some(r->Ok_0.0.temperature_unit) && r->Ok_0.1@.len() == 4 && forall|i: int| 0 <= i < 4 ==> channel(#[trigger] r->Ok_0.1@[i], data@, i),
//@ whole
//@ lift 0.0 :: channel_parameters :: data: &[u16] :: Result<ChannelParameters, Error>
//@  requires data@.len() == 7
//@  ensures
//@    r is Ok == channel_valid(seq![0u16] + data@, 0), r is Ok ==> channel(r->Ok_0, seq![0u16] + data@, 0),
//@ end-lift
//@ elem 0 :: ChannelParameters
//@ loop 0
//@   invariant
//@     err_ is None ==> out_@.len() == n_ && (forall|j: int| 0 <= j < n_ ==> #[trigger] channel_valid(data@, j)) && forall|j: int| 0 <= j < n_ ==> channel(#[trigger] out_@[j], data@, j),
//@     err_ is Some ==> exists|j: int| 0 <= j < 4 && !#[trigger] channel_valid(data@, j),
//@   leave
//@     proof {
//@       let part = seq![0u16] + data@.subrange(1 + 7 * n_, 8 + 7 * n_);
//@       assert(forall|j: int| 1 <= j <= 7 ==> part[j] == #[trigger] data@[7 * n_ + j]);
//@       assert(channel_valid(data@, n_ as int) == channel_valid(part, 0));
//@       if err_ is None { assert(channel(out_@[n_ as int], data@, n_ as int)); }
//@     }
//@end
impl Mod {
//@fn src/ur20_4ai_tc_diag.rs impl FromModbusParameterData for Mod :: from_modbus_parameter_data
//@ params data
//@  ensures r is Ok == valid(data@), r is Ok ==> r->Ok_0.parsed(data@)
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
}
// lifted
impl ProcessModbusTcpData for Mod {
    open spec fn kind(&self) -> ModuleType { ModuleType::UR20_4AI_TC_DIAG }
    open spec fn n(&self) -> int { 0 }
    open spec fn n_in(&self) -> int { 8 }
    open spec fn parsed(&self, w: Seq<u16>) -> bool { self.ch_params@.len() == 4 && TemperatureUnit::of(w[0]) == Some(self.mod_params.temperature_unit) && forall|i: int| 0 <= i < 4 ==> channel(#[trigger] self.ch_params@[i], w, i) }
    open spec fn dec_in(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> {
        if w.len() == 4 && self.ch_params@.len() == 4 { Some(Seq::new(4, |i: int| thermal_shown(w[i], self.ch_params@[i].measurement_range))) } else { None }
    }
    open spec fn dec_out(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> { no_values(self.kind(), w) }
    open spec fn enc(&self, v: Seq<ChannelValue>) -> Option<Seq<u16>> { no_registers(self.kind(), v) }
//@fn src/ur20_4ai_tc_diag.rs impl Module for Mod :: module_type
//@ of-trait
//@end
//@fn src/ur20_4ai_tc_diag.rs impl ProcessModbusTcpData for Mod :: process_input_byte_count
//@ of-trait
//@end
//@fn src/ur20_4ai_tc_diag.rs impl ProcessModbusTcpData for Mod :: process_output_byte_count
//@ of-trait
//@end
//@fn src/ur20_4ai_tc_diag.rs impl ProcessModbusTcpData for Mod :: process_input_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@ whole
//@ loop 0
//@   invariant
//@     out_@ =~= Seq::new(n_ as nat, |i: int| thermal_shown(data@[i], self.ch_params@[i].measurement_range)),
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
//@fn src/ur20_4ai_tc_diag.rs impl ProcessModbusTcpData for Mod :: process_output_data
//@ of-trait
//@ params data
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@end
//@fn src/ur20_4ai_tc_diag.rs impl ProcessModbusTcpData for Mod :: process_output_values
//@ of-trait
//@ params values
//@ provided src/ur20_fbc_mod_tcp.rs trait ProcessModbusTcpData: Module + Send
//@end
}
}
//@prefix

} // verus!
//@endscope
