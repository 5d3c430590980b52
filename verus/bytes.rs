// Registers and bytes.
verus! {

// ---- assumed contracts of dependencies ----


/// `byteorder::LittleEndian`
pub struct LittleEndian;
pub open spec fn lo(w: u16) -> u8 { (w % 256) as u8 }
pub open spec fn hi(w: u16) -> u8 { (w / 256) as u8 }
pub open spec fn word(l: u8, h: u8) -> u16 { (l + 256 * h) as u16 }
impl LittleEndian {
    #[verifier::external_body]
    pub fn write_u16_into(src: &[u16], dst: &mut [u8])
        requires old(dst)@.len() == 2 * src@.len()
        ensures final(dst)@ == bytes(src@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u16_into(src: &[u8], dst: &mut [u16])
        requires src@.len() == 2 * old(dst)@.len()
        ensures final(dst)@ == words(src@)
    { unimplemented!() }
}
/// the bytes of registers, low byte first
pub open spec fn bytes(w: Seq<u16>) -> Seq<u8> {
    Seq::new(2 * w.len(), |i: int| if i % 2 == 0 { lo(w[i / 2]) } else { hi(w[i / 2]) })
}
/// the registers of bytes, a missing last byte being zero
pub open spec fn words(b: Seq<u8>) -> Seq<u16> {
    Seq::new(((b.len() + 1) / 2) as nat, |i: int| word(b[2 * i], if 2 * i + 1 < b.len() { b[2 * i + 1] } else { 0 }))
}

pub proof fn word_parts(l: u8, h: u8)
    ensures lo(word(l, h)) == l, hi(word(l, h)) == h
{
}

pub proof fn bytes_of_part(d: Seq<u16>, a: int, b: int)
    requires 0 <= a <= b <= d.len()
    ensures bytes(d.subrange(a, b)) =~= bytes(d).subrange(2 * a, 2 * b)
{
}
pub proof fn bytes_of_shifted(d: Seq<u16>)
    requires d.len() > 0
    ensures bytes(words(bytes(d).skip(1).push(0))) =~= bytes(d).skip(1).push(0)
{
    let b = bytes(d).skip(1).push(0);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] bytes(words(b))[i] == b[i] by {
        word_parts(b[2 * (i / 2)], b[2 * (i / 2) + 1]);
    }
}

// ---- util.rs ----

//@fn src/util.rs - :: u16_to_u8
//@ params words
//@  requires 2 * words@.len() <= usize::MAX
//@  ensures r@ == bytes(words@)
//@end

//@fn src/util.rs - :: u8_to_u16
//@ params bytes
//@  requires bytes@.len() < usize::MAX
//@  ensures r@ == words(bytes@)
//@end

//@fn src/util.rs - :: shift_data
//@ params data
//@  requires data@.len() > 0, 2 * data@.len() < usize::MAX
//@  ensures r@ == words(bytes(data@).skip(1).push(0))
//@end

} // verus!
