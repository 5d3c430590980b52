// The frame size of a serial module.
verus! {

//@item src/ur20_1com_232_485_422.rs enum ProcessDataLength
impl Clone for ProcessDataLength {
    // `#[derive(Clone)]`
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl ProcessDataLength {
    pub open spec fn size(self) -> int {
        match self { ProcessDataLength::EightBytes => 6, ProcessDataLength::SixteenBytes => 14 }
    }
//@fn src/ur20_1com_232_485_422.rs impl ProcessDataLength :: user_data_len
//@  ensures r == self.size()
//@end
}

} // verus!
