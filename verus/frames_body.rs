// The serial module's frames and parameters: C10, C14.
//@include module_trait
//@include params
//@include bits
//@include bytes
//@scope

verus! {

//@prefix frames
pub mod ur20_1com_232_485_422 {
use super::*;
//@subst (\w+\[[^\[\]]*\.\.[^\[\]]*\])\.into\(\) => \1.to_vec()
//@const src/ur20_1com_232_485_422.rs CNT_MASK
//@const src/ur20_1com_232_485_422.rs CNT_ACK_MASK
//@item src/ur20_1com_232_485_422.rs struct ModuleParameters
//@item src/ur20_1com_232_485_422.rs struct ChannelParameters
//@item src/ur20_1com_232_485_422.rs struct Mod

// ---- parameters ----

/// a code of a character
pub open spec fn character(n: u16) -> Option<char> { if n <= 255 { Some((n as u8) as char) } else { None } }
pub open spec fn channel(p: ChannelParameters, w: Seq<u16>) -> bool {
    &&& OperatingMode::of(w[1]) == Some(p.operating_mode)
    &&& BaudRate::of(w[2]) == Some(p.baud_rate)
    &&& StopBit::of(w[3]) == Some(p.stop_bit)
    &&& Parity::of(w[4]) == Some(p.parity)
    &&& FlowControl::of(w[5]) == Some(p.flow_control)
    &&& DataBits::of(w[6]) == Some(p.data_bits)
    &&& flag(w[7]) == Some(p.terminating_resistor)
    &&& character(w[8]) == Some(p.XON_char)
    &&& character(w[9]) == Some(p.XOFF_char)
}
/// a block that the module accepts
pub open spec fn valid(w: Seq<u16>) -> bool {
    w.len() >= 10 && ProcessDataLength::of(w[0]) is Some && OperatingMode::of(w[1]) is Some && BaudRate::of(w[2]) is Some && StopBit::of(w[3]) is Some && Parity::of(w[4]) is Some && FlowControl::of(w[5]) is Some && DataBits::of(w[6]) is Some && flag(w[7]) is Some && character(w[8]) is Some && character(w[9]) is Some
}
impl ModuleParameters {
//@fn src/ur20_1com_232_485_422.rs impl Default for ModuleParameters :: default
//@end
}
impl ChannelParameters {
//@fn src/ur20_1com_232_485_422.rs impl Default for ChannelParameters :: default
//@end
}
//@fn src/ur20_1com_232_485_422.rs - :: parameters_from_raw_data
//@ params data
//@  ensures
//@    r is Ok == valid(data@),
//@    r is Ok ==> ProcessDataLength::of(data@[0]) == Some(r->Ok_0.0.process_data_len) && channel(r->Ok_0.1, data@),
//@end
impl Mod {
//@fn src/ur20_1com_232_485_422.rs impl FromModbusParameterData for Mod :: from_modbus_parameter_data
//@ params data
//@  ensures r is Ok == valid(data@), r is Ok ==> r->Ok_0.parsed(data@)
//@end
}

// ---- the status byte ----

//@fn src/ur20_1com_232_485_422.rs - :: cnt_from_status_byte
//@ params byte
//@  ensures r == byte / 8 % 4
//@ start
//@   proof {
//@     assert((0b_0001_1000u8 & byte) >> 3 == byte / 8 % 4) by (bit_vector);
//@     assert((byte & 0b_0001_1000u8) >> 3 == byte / 8 % 4) by (bit_vector);
//@     assert((byte >> 3) & 3 == byte / 8 % 4) by (bit_vector);
//@   }
//@end
//@fn src/ur20_1com_232_485_422.rs - :: cnt_ack_from_status_byte
//@ params byte
//@  ensures r == byte / 32 % 4
//@ start
//@   proof {
//@     assert((0b_0110_0000u8 & byte) >> 5 == byte / 32 % 4) by (bit_vector);
//@     assert((byte & 0b_0110_0000u8) >> 5 == byte / 32 % 4) by (bit_vector);
//@     assert((byte >> 5) & 3 == byte / 32 % 4) by (bit_vector);
//@   }
//@end
//@fn src/ur20_1com_232_485_422.rs - :: cnt_to_status_byte
//@ params cnt byte
//@  requires cnt <= 3
//@  ensures r == byte | ((cnt * 8) as u8)
//@ start
//@   proof {
//@     let c = cnt as u8;
//@     assert(c <= 3 ==> (0b_0001_1000u8 & (c << 3)) == c * 8) by (bit_vector);
//@     assert(c <= 3 ==> ((c << 3) & 0b_0001_1000u8) == c * 8) by (bit_vector);
//@     assert(c <= 3 ==> (c << 3) == c * 8) by (bit_vector);
//@     assert(c <= 3 ==> ((c & 3) << 3) == c * 8) by (bit_vector);
//@   }
//@end
//@fn src/ur20_1com_232_485_422.rs - :: cnt_ack_to_status_byte
//@ params cnt byte
//@  requires cnt <= 3
//@  ensures r == byte | ((cnt * 32) as u8)
//@ start
//@   proof {
//@     let c = cnt as u8;
//@     assert(c <= 3 ==> (0b_0110_0000u8 & (c << 5)) == c * 32) by (bit_vector);
//@     assert(c <= 3 ==> ((c << 5) & 0b_0110_0000u8) == c * 32) by (bit_vector);
//@     assert(c <= 3 ==> (c << 5) == c * 32) by (bit_vector);
//@     assert(c <= 3 ==> ((c & 3) << 5) == c * 32) by (bit_vector);
//@   }
//@end

/// a byte made of its flags and counters
pub open spec fn status(b0: bool, b1: bool, b2: bool, low: int, high: int, b7: bool) -> u8 {
    ((if b0 { 1int } else { 0 }) + (if b1 { 2int } else { 0 }) + (if b2 { 4int } else { 0 }) + 8 * low + 32 * high + (if b7 { 128int } else { 0 })) as u8
}
pub proof fn made_of(b0: bool, b1: bool, b2: bool, low: u8, high: u8, b7: bool)
    requires low <= 3, high <= 3
    ensures ({
        let s0 = if b0 { 0u8 | (1u8 << 0u8) } else { 0u8 };
        let s1 = if b1 { s0 | (1u8 << 1u8) } else { s0 };
        let s2 = if b2 { s1 | (1u8 << 2u8) } else { s1 };
        let s3 = s2 | ((low * 8) as u8);
        let s4 = s3 | ((high * 32) as u8);
        (if b7 { s4 | (1u8 << 7u8) } else { s4 }) == status(b0, b1, b2, low as int, high as int, b7)
    })
{
    let x0 = if b0 { 1u8 } else { 0u8 };
    let x1 = if b1 { 2u8 } else { 0u8 };
    let x2 = if b2 { 4u8 } else { 0u8 };
    let x7 = if b7 { 128u8 } else { 0u8 };
    let l = (low * 8) as u8;
    let h = (high * 32) as u8;
    assert(1u8 << 0u8 == 1 && 1u8 << 1u8 == 2 && 1u8 << 2u8 == 4 && 1u8 << 7u8 == 128) by (bit_vector);
    assert(forall|a: u8| #[trigger] (a | 0u8) == a) by (bit_vector);
    assert((x0 == 0 || x0 == 1) && (x1 == 0 || x1 == 2) && (x2 == 0 || x2 == 4) && (x7 == 0 || x7 == 128) && (l == 0 || l == 8 || l == 16 || l == 24) && (h == 0 || h == 32 || h == 64 || h == 96)
        ==> (0u8 | x0 | x1 | x2 | l | h | x7) == add(x0, add(x1, add(x2, add(l, add(h, x7))))) && add(x0, add(x1, add(x2, add(l, add(h, x7))))) <= 255) by (bit_vector);
    assert(0u8 | x0 == x0) by (bit_vector);
}
/// and what it says
pub proof fn says(b0: bool, b1: bool, b2: bool, low: u8, high: u8, b7: bool)
    requires low <= 3, high <= 3
    ensures ({
        let s = status(b0, b1, b2, low as int, high as int, b7);
        &&& bit(s as u16, 0) == b0 && bit(s as u16, 1) == b1 && bit(s as u16, 2) == b2 && bit(s as u16, 7) == b7
        &&& s / 8 % 4 == low && s / 32 % 4 == high
    })
{
    let s = status(b0, b1, b2, low as int, high as int, b7);
    let w = s as u16;
    assert(w & (1u16 << 0) == w % 2) by (bit_vector);
    assert((w & (1u16 << 1) != 0) == (w / 2 % 2 == 1)) by (bit_vector);
    assert((w & (1u16 << 2) != 0) == (w / 4 % 2 == 1)) by (bit_vector);
    assert((w & (1u16 << 7) != 0) == (w / 128 % 2 == 1)) by (bit_vector);
}

// ---- frames ----

/// the record that a frame carries
pub open spec fn framed(b: Seq<u8>) -> bool { b.len() >= 2 && b.len() >= b[1] + 2 }
pub open spec fn is_input(r: ProcessInput, b: Seq<u8>) -> bool {
    &&& r.data_available == bit(b[0] as u16, 0) && r.buffer_nearly_full == bit(b[0] as u16, 1) && r.ready == bit(b[0] as u16, 7)
    &&& r.rx_cnt == b[0] / 8 % 4 && r.tx_cnt_ack == b[0] / 32 % 4
    &&& r.data@ =~= b.subrange(2, b[1] + 2)
}
pub open spec fn is_output(r: ProcessOutput, b: Seq<u8>) -> bool {
    &&& r.rx_buf_flush == bit(b[0] as u16, 0) && r.tx_buf_flush == bit(b[0] as u16, 1) && r.disable_tx_hw_buffer == bit(b[0] as u16, 2) && r.reset == bit(b[0] as u16, 7)
    &&& r.tx_cnt == b[0] / 8 % 4 && r.rx_cnt_ack == b[0] / 32 % 4
    &&& r.data@ =~= b.subrange(2, b[1] + 2)
}
/// the records that fit in a frame
pub open spec fn fits(r: ProcessOutput, len: ProcessDataLength) -> bool { r.tx_cnt <= 3 && r.rx_cnt_ack <= 3 && r.data@.len() <= len.size() }
pub open spec fn frame(r: ProcessOutput, len: ProcessDataLength) -> Seq<u8> {
    Seq::new((len.size() + 2) as nat, |i: int|
        if i == 0 { status(r.rx_buf_flush, r.tx_buf_flush, r.disable_tx_hw_buffer, r.tx_cnt as int, r.rx_cnt_ack as int, r.reset) }
        else if i == 1 { r.data@.len() as u8 }
        else if i < r.data@.len() + 2 { r.data@[i - 2] }
        else { 0 })
}
/// C10: what is encoded is decoded again
pub proof fn read_back(r: ProcessOutput, len: ProcessDataLength)
    requires fits(r, len)
    ensures framed(frame(r, len)), is_output(r, frame(r, len))
{
    says(r.rx_buf_flush, r.tx_buf_flush, r.disable_tx_hw_buffer, r.tx_cnt as u8, r.rx_cnt_ack as u8, r.reset);
}

impl ProcessInput {
//@fn src/ur20_1com_232_485_422.rs impl ProcessInput :: try_from_byte_message
//@ params bytes
//@  ensures r is Ok == framed(bytes@), r is Ok ==> is_input(r->Ok_0, bytes@)
//@end
}
impl ProcessOutput {
//@fn src/ur20_1com_232_485_422.rs impl ProcessOutput :: try_from_byte_message
//@ params bytes
//@  ensures r is Ok == framed(bytes@), r is Ok ==> is_output(r->Ok_0, bytes@)
//@end
//@fn src/ur20_1com_232_485_422.rs impl ProcessOutput :: try_into_byte_message
//@ params process_data_length
//@  ensures r is Ok == fits(*self, *process_data_length), r is Ok ==> r->Ok_0@ == frame(*self, *process_data_length)
//@ whole
//@ loop 0 indexed-for
//@   invariant
//@     msg@ =~= Seq::new((process_data_length.size() + 2) as nat, |i: int| if i < n_ + 2 { frame(*self, *process_data_length)[i] } else { 0u8 }),
//@ start
//@   proof { if self.tx_cnt <= 3 && self.rx_cnt_ack <= 3 { made_of(self.rx_buf_flush, self.tx_buf_flush, self.disable_tx_hw_buffer, self.tx_cnt as u8, self.rx_cnt_ack as u8, self.reset); } }
//@end
}

// ---- process data ----

/// byte vectors with the same content are equal
#[verifier::external_body]
pub proof fn same_bytes(a: Vec<u8>, b: Vec<u8>) requires a@ == b@ ensures a == b { }
pub open spec fn input(b: Seq<u8>) -> ProcessInput { choose|r: ProcessInput| is_input(r, b) }
pub open spec fn output(b: Seq<u8>) -> ProcessOutput { choose|r: ProcessOutput| is_output(r, b) }
pub proof fn the_input(r: ProcessInput, b: Seq<u8>) requires is_input(r, b) ensures r == input(b) { same_bytes(r.data, input(b).data); }
pub proof fn the_output(r: ProcessOutput, b: Seq<u8>) requires is_output(r, b) ensures r == output(b) { same_bytes(r.data, output(b).data); }
pub proof fn halves(w: u16) ensures (w & 0xff) as u8 == lo(w), (w >> 8) as u8 == hi(w)
{
    assert((w & 0xff) == w % 256 && (w >> 8) == w / 256) by (bit_vector);
}
// lifted
impl ProcessModbusTcpData for Mod {
    open spec fn kind(&self) -> ModuleType { ModuleType::UR20_1COM_232_485_422 }
    open spec fn n(&self) -> int { self.mod_params.process_data_len.size() + 2 }
    open spec fn n_in(&self) -> int { self.mod_params.process_data_len.size() + 2 }
    open spec fn parsed(&self, w: Seq<u16>) -> bool { ProcessDataLength::of(w[0]) == Some(self.mod_params.process_data_len) && self.ch_params@.len() == 1 && channel(self.ch_params@[0], w) }
    open spec fn dec_in(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> { if framed(bytes(w)) { Some(seq![ChannelValue::ComRsIn(input(bytes(w)))]) } else { None } }
    open spec fn dec_out(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>> { if framed(bytes(w)) { Some(seq![ChannelValue::ComRsOut(output(bytes(w)))]) } else { None } }
    open spec fn enc(&self, v: Seq<ChannelValue>) -> Option<Seq<u16>> {
        if v.len() == 1 && v[0] is ComRsOut && fits(v[0]->ComRsOut_0, self.mod_params.process_data_len) { Some(words(frame(v[0]->ComRsOut_0, self.mod_params.process_data_len))) } else { None }
    }
//@fn src/ur20_1com_232_485_422.rs impl Module for Mod :: module_type
//@ of-trait
//@end
//@fn src/ur20_1com_232_485_422.rs impl ProcessModbusTcpData for Mod :: process_input_byte_count
//@ of-trait
//@end
//@fn src/ur20_1com_232_485_422.rs impl ProcessModbusTcpData for Mod :: process_output_byte_count
//@ of-trait
//@end
//@fn src/ur20_1com_232_485_422.rs impl ProcessModbusTcpData for Mod :: process_input_data
//@ of-trait
//@ params data
//@ whole
//@ loop 0
//@   invariant out_@ =~= bytes(data@).take(2 * n_),
//@   enter
//@     proof { halves(data@[n_ as int]); }
//@ start
//@   proof {
//@     reveal(ModuleType::channels);
//@     assert forall|r: ProcessInput, b: Seq<u8>| #[trigger] is_input(r, b) implies r == input(b) by { the_input(r, b); }
//@     assert(bytes(data@).take(2 * data@.len() as int) =~= bytes(data@));
//@   }
//@end
//@fn src/ur20_1com_232_485_422.rs impl ProcessModbusTcpData for Mod :: process_output_data
//@ of-trait
//@ params data
//@ whole
//@ loop 0
//@   invariant out_@ =~= bytes(data@).take(2 * n_),
//@   enter
//@     proof { halves(data@[n_ as int]); }
//@ start
//@   proof {
//@     reveal(ModuleType::channels);
//@     assert forall|r: ProcessOutput, b: Seq<u8>| #[trigger] is_output(r, b) implies r == output(b) by { the_output(r, b); }
//@     assert(bytes(data@).take(2 * data@.len() as int) =~= bytes(data@));
//@   }
//@end
//@fn src/ur20_1com_232_485_422.rs impl ProcessModbusTcpData for Mod :: process_output_values
//@ of-trait
//@ params values
//@ start
//@   proof { reveal(ModuleType::channels); }
//@end
}
}
//@prefix

} // verus!
//@endscope
