// The names of products and categories: C23.
use vstd::prelude::*;
//@include names_table
//@subst (?:result::)?Result<Self(?:, Self::Err)?> => Result<Self, Error>
//@subst \buse (?:crate|super|self)::(?:ModuleType|ModuleCategory)::\*; =>
//@subst \.\s*to_(?:ascii_)?uppercase\(\) => .upper_()
//@subst \.\s*replace\( => .replace_(
//@subst \[\.\.\] =>

verus! {

use ModuleType::*;
use ModuleCategory::*;
pub enum Error { UnknownModule, UnknownCategory, BufferLength, SequenceNumber, DataLength, RegisterCount,
    ChannelParameter, ChannelValue, ModuleOffset, Address, Io }
//@item src/lib.rs enum ModuleType
//@item src/lib.rs enum ModuleCategory

pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub open spec fn up(c: char) -> char { if 'a' <= c <= 'z' { ((c as u8) - 32) as u8 as char } else { c } }
pub open spec fn upper(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| up(s[i])) }
pub open spec fn swapped(s: Seq<char>, a: char, b: char) -> Seq<char> { Seq::new(s.len(), |i: int| if s[i] == a { b } else { s[i] }) }
/// a text in the spelling of the names
pub open spec fn spelled(s: Seq<char>) -> Seq<char> { swapped(upper(s), '-', '_') }

/// the methods of `str` that take part, on ASCII texts
pub trait Text: View<V = Seq<char>> {
    /// `to_uppercase`, `to_ascii_uppercase`
    fn upper_(&self) -> (r: String) ensures ascii(self@) ==> r@ == upper(self@) && ascii(r@);
    /// `replace`
    fn replace_(&self, a: char, b: &str) -> (r: String) ensures b@.len() == 1 ==> r@ == swapped(self@, a, b@[0]);
    /// matching a literal
    fn same_(&self, b: &str) -> (r: bool) ensures r == (self@ == b@);
}
impl Text for str {
    #[verifier::external_body]
    fn upper_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn replace_(&self, a: char, b: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn same_(&self, b: &str) -> (r: bool) { unimplemented!() }
}
impl Text for String {
    #[verifier::external_body]
    fn upper_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn replace_(&self, a: char, b: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn same_(&self, b: &str) -> (r: bool) { unimplemented!() }
}

/// letters and separators are spelled independently
proof fn commute(s: Seq<char>) requires ascii(s) ensures upper(swapped(s, '-', '_')) == spelled(s), ascii(swapped(s, '-', '_'))
{
    assert(upper(swapped(s, '-', '_')) =~= spelled(s));
}

impl ModuleType {
//@fn src/lib.rs impl FromStr for ModuleType :: from_str
//@ params s
//@  ensures
//@    ascii(s@) ==> match r {
//@      Ok(t) => t.name() == spelled(s@) && forall|u: Self| #[trigger] u.name() == spelled(s@) ==> u == t,
//@      Err(_) => forall|t: Self| #[trigger] t.name() != spelled(s@),
//@    },
//@ start
//@   proof {
//@     reveal_strlit("_");
//@     assert("_"@[0] == '_');
//@     if ascii(s@) { commute(s@); }
//@     assert forall|a: Self, b: Self| #[trigger] a.name() == #[trigger] b.name() implies a == b by { Self::distinct(a, b); }
//@   }
//@end
}

impl ModuleCategory {
//@fn src/lib.rs impl FromStr for ModuleCategory :: from_str
//@ params s
//@  ensures
//@    ascii(s@) ==> match r {
//@      Ok(t) => t.name() == upper(s@) && forall|u: Self| #[trigger] u.name() == upper(s@) ==> u == t,
//@      Err(_) => forall|t: Self| #[trigger] t.name() != upper(s@),
//@    },
//@ start
//@   proof {
//@     Self::named();
//@     assert forall|a: Self, b: Self| #[trigger] a.name() == #[trigger] b.name() implies a == b by { Self::distinct(a, b); }
//@   }
//@end
}

/// every spelling of every product name [C23]
proof fn every_spelling(t: ModuleType, s: Seq<char>)
    requires s.len() == t.name().len(),
        forall|i: int| 0 <= i < s.len() ==> up(#[trigger] s[i]) == t.name()[i] || s[i] == '-' && t.name()[i] == '_',
        forall|i: int| 0 <= i < s.len() ==> #[trigger] t.name()[i] != '-',
    ensures spelled(s) == t.name()
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] spelled(s)[i] == t.name()[i] by {
        let c = s[i];
        assert(up(s[i]) == t.name()[i] || s[i] == '-' && t.name()[i] == '_');
        assert(t.name()[i] != '-');
    }
    assert(spelled(s) =~= t.name());
}

} // verus!

fn main() {}
