// What the templates share.
//@subst (?<!io::)\bResult<((?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*)> => Result<\1, Error>
//@subst \bRsIn\b => ProcessInput
//@subst \bRsOut\b => ProcessOutput
//@subst \((FcntIn|FcntOut)\) => (fcnt_data::\1)
//@subst \bur20_pf_o_1di_sil::ProcessInput\b => sil_data::ProcessInput
//@subst \buse (?:crate|super|self)::(?:ModuleType|ModuleCategory)::\*; =>
//@subst \bSelf::(?=UR20_) => ModuleType::
//@include tables

verus! {

use ModuleType::*;
use ModuleCategory::*;

pub enum Error { UnknownModule, UnknownCategory, BufferLength, SequenceNumber, DataLength, RegisterCount,
    ChannelParameter, ChannelValue, ModuleOffset, Address, Io }
pub assume_specification<T: Clone> [ <[T]>::to_vec ] (s: &[T]) -> (r: std::vec::Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(#[trigger] s@[i], r@[i]),
        (forall|x: T, y: T| cloned::<T>(x, y) ==> x == y) ==> r@ == s@;

//@item src/ur20_1com_232_485_422.rs struct ProcessInput
//@item src/ur20_1com_232_485_422.rs struct ProcessOutput

impl Clone for ProcessOutput {
    // `#[derive(Clone)]`
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

/// the length of a zip (in a desugared iterator chain)
pub fn min_(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }

/// stands for `std::time::Duration`
#[verifier::external_body]
pub struct Duration { x: u8 }
/// the one of so many nanoseconds
pub uninterp spec fn duration(n: int) -> Duration;
impl Duration {
    pub uninterp spec fn nanos(self) -> int;
    #[verifier::external_body]
    pub fn from_nanos(n: u64) -> (r: Self) ensures r == duration(n as int), r.nanos() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn new(secs: u64, nanos: u32) -> (r: Self) requires secs < u64::MAX - 4
        ensures r == duration(secs * 1_000_000_000 + nanos), r.nanos() == secs * 1_000_000_000 + nanos { unimplemented!() }
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures self.nanos() >= 0, r == self.nanos() / 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_micros(&self) -> (r: u32) ensures self.nanos() >= 0, r == self.nanos() % 1_000_000_000 / 1000 { unimplemented!() }
}
impl Clone for Duration {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Copy for Duration {}
impl PartialEq for Duration {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl PartialOrd for Duration {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Duration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.nanos() == o.nanos() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<std::cmp::Ordering> {
        if self.nanos() < o.nanos() { Some(std::cmp::Ordering::Less) } else if self.nanos() > o.nanos() { Some(std::cmp::Ordering::Greater) } else { Some(std::cmp::Ordering::Equal) }
    }
}
//@item src/ur20_2fcnt_100.rs enum Command
pub mod fcnt_data {
use super::{Duration, Command};
pub type FcntIn = ProcessInput;
pub type FcntOut = ProcessOutput;
//@item src/ur20_2fcnt_100.rs struct ProcessInput
//@item src/ur20_2fcnt_100.rs struct ProcessOutput
}
pub mod sil_data {
//@item src/ur20_pf_o_1di_sil.rs struct ProcessInput
}
//@item src/lib.rs enum ChannelValue
impl Clone for ChannelValue {
    // `#[derive(Clone)]`
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@item src/lib.rs enum ModuleType
//@item src/lib.rs enum ModuleCategory
impl ModuleType {
    /// the serial module
    pub open spec fn is_com(self) -> bool { self == ModuleType::UR20_1COM_232_485_422 }
    /// the safety module: no channel, but one status record
    pub open spec fn is_safety(self) -> bool { self == ModuleType::UR20_PF_O_1DI_SIL }
//@fn src/lib.rs impl ModuleType :: channel_count
//@  ensures
//@    r == self.channels(), self.is_com() ==> r == 1, self.is_safety() ==> r == 0,
//@ start
//@    proof { reveal(ModuleType::channels); }
//@end
}
//@type src/ur20_fbc_mod_tcp.rs Word
//@type src/ur20_fbc_mod_tcp.rs RegisterAddress
//@type src/ur20_fbc_mod_tcp.rs BitAddress
//@type src/ur20_fbc_mod_tcp.rs BitNr
//@item src/ur20_fbc_mod_tcp.rs struct ModuleOffset

} // verus!
