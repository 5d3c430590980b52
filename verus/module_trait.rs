// The contract of a module towards the coupler.
verus! {

/// one value per channel; the safety module has no channel, but one status record
pub open spec fn shaped_in(k: ModuleType, v: Seq<ChannelValue>) -> bool {
    &&& v.len() == k.channels() || k.is_safety() && v.len() == 1
    // the counters of a frame have two bits
    &&& k.is_com() ==> v.len() == 1 && (v[0] is ComRsIn ==> v[0]->ComRsIn_0.tx_cnt_ack <= 3)
}
pub open spec fn shaped_out(k: ModuleType, v: Seq<ChannelValue>) -> bool {
    &&& v.len() == k.channels()
    &&& k.is_com() ==> v.len() == 1
}

/// what a module is assumed to do (proved for every module elsewhere: C04, C06, C08, C09, C10)
pub trait ProcessModbusTcpData {
    /// the module is what a parameter block describes
    spec fn parsed(&self, w: Seq<u16>) -> bool;
    /// the registers that encode the values
    spec fn enc(&self, v: Seq<ChannelValue>) -> Option<Seq<u16>>;
    spec fn kind(&self) -> ModuleType;
    fn module_type(&self) -> (r: ModuleType) ensures r == self.kind();
    /// the values that registers hold
    spec fn dec_in(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>>;
    spec fn dec_out(&self, w: Seq<u16>) -> Option<Seq<ChannelValue>>;
    spec fn n_in(&self) -> int;
    fn process_input_byte_count(&self) -> (r: usize)
        ensures r == self.n_in(), self.n_in() < 2 || self.n_in() % 2 == 0, self.n_in() < 0x10000;
    fn process_input_data(&self, data: &[u16]) -> (r: Result<Vec<ChannelValue>, Error>)
        ensures r is Ok == self.dec_in(data@) is Some, r is Ok ==> self.dec_in(data@)->0 == r->Ok_0@ && shaped_in(self.kind(), r->Ok_0@);
    fn process_output_data(&self, data: &[u16]) -> (r: Result<Vec<ChannelValue>, Error>)
        ensures r is Ok == self.dec_out(data@) is Some, r is Ok ==> self.dec_out(data@)->0 == r->Ok_0@ && shaped_out(self.kind(), r->Ok_0@);
    /// the number of output bytes
    spec fn n(&self) -> int;
    fn process_output_byte_count(&self) -> (r: usize)
        ensures r == self.n(), self.n() == 1 || self.n() % 2 == 0, self.n() < 0x10000;
    fn process_output_values(&self, values: &[ChannelValue]) -> (r: Result<Vec<u16>, Error>)
        ensures r is Ok == self.enc(values@) is Some,
            r is Ok ==> self.enc(values@)->0 == r->Ok_0@ && r->Ok_0@.len() == (self.n() + 1) / 2,
            self.n() == 1 || self.n() % 2 == 0, 0 <= self.n() < 0x10000;
}

} // verus!
