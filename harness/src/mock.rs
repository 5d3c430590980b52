//! A module of any data size that hands its raw data through.

use ur20::ur20_fbc_mod_tcp::ProcessModbusTcpData;
use ur20::{ChannelValue, Error, Module, ModuleType};

/// `size` bytes in and out; presented and accepted as raw bytes
#[derive(Debug)]
pub struct Mock {
    pub size: usize,
}

impl Module for Mock {
    fn module_type(&self) -> ModuleType {
        ModuleType::UR20_2FCNT_100
    }
}

/// the bytes that belong to the module: `size`, low byte first
fn unpack(data: &[u16], size: usize) -> Result<Vec<ChannelValue>, Error> {
    if data.len() != size.div_ceil(2) {
        return Err(Error::UnknownModule);
    }
    let mut b = Vec::with_capacity(size);
    for i in 0..size {
        b.push(if i % 2 == 0 { (data[i / 2] & 0xff) as u8 } else { (data[i / 2] >> 8) as u8 });
    }
    Ok(vec![ChannelValue::Bytes(b)])
}

impl ProcessModbusTcpData for Mock {
    fn process_input_byte_count(&self) -> usize {
        self.size
    }
    fn process_output_byte_count(&self) -> usize {
        self.size
    }
    fn process_input_data(&self, data: &[u16]) -> Result<Vec<ChannelValue>, Error> {
        unpack(data, self.size)
    }
    fn process_output_data(&self, data: &[u16]) -> Result<Vec<ChannelValue>, Error> {
        unpack(data, self.size)
    }
    fn process_output_values(&self, values: &[ChannelValue]) -> Result<Vec<u16>, Error> {
        match values {
            [ChannelValue::Bytes(b)] if b.len() == self.size => {
                let mut w = Vec::with_capacity(self.size.div_ceil(2));
                for i in 0..self.size.div_ceil(2) {
                    let hi = if 2 * i + 1 < b.len() { b[2 * i + 1] } else { 0 };
                    w.push(u16::from(b[2 * i]) | u16::from(hi) << 8);
                }
                Ok(w)
            }
            _ => Err(Error::ChannelValue),
        }
    }
}
