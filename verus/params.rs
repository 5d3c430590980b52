// What the templates of the modules share.
//@include pdl
//@subst ([\w.]+(?:\[[^\[\]]*\])?)\.to_le_bytes\(\) => le_bytes(\1)
verus! {

pub assume_specification [ usize::div_ceil ] (a: usize, b: usize) -> (r: usize)
    requires b != 0
    ensures r == (a as int + b - 1) / b as int;

/// the bytes of a register
pub open spec fn low(w: u16) -> u8 { (w & 0xff) as u8 }
pub open spec fn high(w: u16) -> u8 { (w >> 8) as u8 }
/// stands for `u16::to_le_bytes`
pub fn le_bytes(w: u16) -> (r: [u8; 2]) ensures r@ == seq![low(w), high(w)] { [(w & 0xff) as u8, (w >> 8) as u8] }

pub trait FromPrimitive: Sized {
    spec fn of(n: u16) -> Option<Self>;
    fn from_u16(n: u16) -> (r: Option<Self>) ensures r == Self::of(n);
}

/// a module without such data has no values
pub open spec fn no_values(k: ModuleType, w: Seq<u16>) -> Option<Seq<ChannelValue>> {
    if w.len() == 0 { Some(Seq::new(k.channels(), |i: int| ChannelValue::None)) } else { None }
}
/// and takes any
pub open spec fn no_registers(k: ModuleType, v: Seq<ChannelValue>) -> Option<Seq<u16>> {
    if v.len() == 0 || v.len() == k.channels() { Some(seq![]) } else { None }
}

/// 0 or 1
pub open spec fn flag(n: u16) -> Option<bool> { if n == 0 { Some(false) } else if n == 1 { Some(true) } else { None } }

// ---- codes of the parameters (golden; each enum itself is extracted) ----
impl InputDelay {
    pub open spec fn golden(n: u16) -> Option<InputDelay> {
        if n == 0 { Some(InputDelay::no) } else if n == 1 { Some(InputDelay::us300) } else if n == 2 { Some(InputDelay::ms3) } else if n == 3 { Some(InputDelay::ms10) } else
         if n == 4 { Some(InputDelay::ms20) } else if n == 5 { Some(InputDelay::ms40) } else { None }
    }
}
//@primitive src/lib.rs InputDelay
impl FrequencySuppression {
    pub open spec fn golden(n: u16) -> Option<FrequencySuppression> {
        if n == 0 { Some(FrequencySuppression::Disabled) } else if n == 1 { Some(FrequencySuppression::Hz50) } else if n == 2 { Some(FrequencySuppression::Hz60) } else if n == 3 { Some(FrequencySuppression::Average16) } else
         { None }
    }
}
//@primitive src/lib.rs FrequencySuppression
impl DataFormat {
    pub open spec fn golden(n: u16) -> Option<DataFormat> {
        if n == 0 { Some(DataFormat::S5) } else if n == 1 { Some(DataFormat::S7) } else { None }
    }
}
//@primitive src/lib.rs DataFormat
impl AnalogUIRange {
    pub open spec fn golden(n: u16) -> Option<AnalogUIRange> {
        if n == 0 { Some(AnalogUIRange::mA0To20) } else if n == 1 { Some(AnalogUIRange::mA4To20) } else if n == 2 { Some(AnalogUIRange::V0To10) } else if n == 3 { Some(AnalogUIRange::VMinus10To10) } else
         if n == 4 { Some(AnalogUIRange::V0To5) } else if n == 5 { Some(AnalogUIRange::VMinus5To5) } else if n == 6 { Some(AnalogUIRange::V1To5) } else if n == 7 { Some(AnalogUIRange::V2To10) } else
         if n == 8 { Some(AnalogUIRange::Disabled) } else { None }
    }
}
//@primitive src/lib.rs AnalogUIRange
impl AnalogIRange {
    pub open spec fn golden(n: u16) -> Option<AnalogIRange> {
        if n == 0 { Some(AnalogIRange::mA0To20) } else if n == 1 { Some(AnalogIRange::mA4To20) } else if n == 2 { Some(AnalogIRange::Disabled) } else { None }
    }
}
//@primitive src/lib.rs AnalogIRange
impl RtdRange {
    pub open spec fn golden(n: u16) -> Option<RtdRange> {
        if n == 0 { Some(RtdRange::PT100) } else if n == 1 { Some(RtdRange::PT200) } else if n == 2 { Some(RtdRange::PT500) } else if n == 3 { Some(RtdRange::PT1000) } else
         if n == 4 { Some(RtdRange::NI100) } else if n == 5 { Some(RtdRange::NI120) } else if n == 6 { Some(RtdRange::NI200) } else if n == 7 { Some(RtdRange::NI500) } else
         if n == 8 { Some(RtdRange::NI1000) } else if n == 9 { Some(RtdRange::Cu10) } else if n == 10 { Some(RtdRange::R40) } else if n == 11 { Some(RtdRange::R80) } else
         if n == 12 { Some(RtdRange::R150) } else if n == 13 { Some(RtdRange::R300) } else if n == 14 { Some(RtdRange::R500) } else if n == 15 { Some(RtdRange::R1000) } else
         if n == 16 { Some(RtdRange::R2000) } else if n == 17 { Some(RtdRange::R4000) } else if n == 18 { Some(RtdRange::Disabled) } else { None }
    }
}
//@primitive src/lib.rs RtdRange
impl TemperatureUnit {
    pub open spec fn golden(n: u16) -> Option<TemperatureUnit> {
        if n == 0 { Some(TemperatureUnit::Celsius) } else if n == 1 { Some(TemperatureUnit::Fahrenheit) } else if n == 2 { Some(TemperatureUnit::Kelvin) } else { None }
    }
}
//@primitive src/lib.rs TemperatureUnit
impl ConnectionType {
    pub open spec fn golden(n: u16) -> Option<ConnectionType> {
        if n == 0 { Some(ConnectionType::TwoWire) } else if n == 1 { Some(ConnectionType::ThreeWire) } else if n == 2 { Some(ConnectionType::FourWire) } else { None }
    }
}
//@primitive src/lib.rs ConnectionType
impl ConversionTime {
    pub open spec fn golden(n: u16) -> Option<ConversionTime> {
        if n == 0 { Some(ConversionTime::ms240) } else if n == 1 { Some(ConversionTime::ms130) } else if n == 2 { Some(ConversionTime::ms80) } else if n == 3 { Some(ConversionTime::ms55) } else
         if n == 4 { Some(ConversionTime::ms43) } else if n == 5 { Some(ConversionTime::ms36) } else { None }
    }
}
//@primitive src/lib.rs ConversionTime
impl InputFilter {
    pub open spec fn golden(n: u16) -> Option<InputFilter> {
        if n == 0 { Some(InputFilter::us5) } else if n == 1 { Some(InputFilter::us11) } else if n == 2 { Some(InputFilter::us21) } else if n == 3 { Some(InputFilter::us43) } else
         if n == 4 { Some(InputFilter::us83) } else if n == 5 { Some(InputFilter::us167) } else if n == 6 { Some(InputFilter::us333) } else if n == 7 { Some(InputFilter::us667) } else
         if n == 8 { Some(InputFilter::ms1) } else if n == 9 { Some(InputFilter::ms3) } else if n == 10 { Some(InputFilter::ms5) } else if n == 11 { Some(InputFilter::ms11) } else
         if n == 12 { Some(InputFilter::ms22) } else if n == 13 { Some(InputFilter::ms43) } else if n == 14 { Some(InputFilter::ms91) } else if n == 15 { Some(InputFilter::ms167) } else
         if n == 16 { Some(InputFilter::ms333) } else { None }
    }
}
//@primitive src/lib.rs InputFilter
impl MeasurementRange {
    pub open spec fn golden(n: u16) -> Option<MeasurementRange> {
        if n == 0 { Some(MeasurementRange::TC_Type_J) } else if n == 1 { Some(MeasurementRange::TC_Type_K) } else if n == 2 { Some(MeasurementRange::TC_Type_N) } else if n == 3 { Some(MeasurementRange::TC_Type_R) } else
         if n == 4 { Some(MeasurementRange::TC_Type_S) } else if n == 5 { Some(MeasurementRange::TC_Type_T) } else if n == 6 { Some(MeasurementRange::TC_Type_B) } else if n == 7 { Some(MeasurementRange::TC_Type_C) } else
         if n == 8 { Some(MeasurementRange::TC_Type_E) } else if n == 9 { Some(MeasurementRange::TC_Type_L) } else if n == 10 { Some(MeasurementRange::TC_Type_U) } else if n == 11 { Some(MeasurementRange::uVPlusMinus15625) } else
         if n == 12 { Some(MeasurementRange::uVPlusMinus31250) } else if n == 13 { Some(MeasurementRange::uVPlusMinus62500) } else if n == 14 { Some(MeasurementRange::mVPlusMinus125) } else if n == 15 { Some(MeasurementRange::mVPlusMinus250) } else
         if n == 16 { Some(MeasurementRange::mVPlusMinus500) } else if n == 17 { Some(MeasurementRange::VPlusMinus1) } else if n == 18 { Some(MeasurementRange::VPlusMinus2) } else if n == 19 { Some(MeasurementRange::Disabled) } else
         { None }
    }
}
//@primitive src/ur20_4ai_tc_diag.rs MeasurementRange
impl ColdJunctionCompensation {
    pub open spec fn golden(n: u16) -> Option<ColdJunctionCompensation> {
        if n == 0 { Some(ColdJunctionCompensation::Internal) } else if n == 1 { Some(ColdJunctionCompensation::ExternalChannel0) } else if n == 2 { Some(ColdJunctionCompensation::ExternalChannel1) } else if n == 3 { Some(ColdJunctionCompensation::ExternalChannel2) } else
         if n == 4 { Some(ColdJunctionCompensation::ExternalChannel3) } else { None }
    }
}
//@primitive src/ur20_4ai_tc_diag.rs ColdJunctionCompensation
impl OperatingMode {
    pub open spec fn golden(n: u16) -> Option<OperatingMode> {
        if n == 0 { Some(OperatingMode::Disabled) } else if n == 1 { Some(OperatingMode::RS232) } else if n == 2 { Some(OperatingMode::RS485) } else if n == 3 { Some(OperatingMode::RS422) } else
         { None }
    }
}
//@primitive src/ur20_1com_232_485_422.rs OperatingMode
impl DataBits {
    pub open spec fn golden(n: u16) -> Option<DataBits> {
        if n == 0 { Some(DataBits::SevenBits) } else if n == 1 { Some(DataBits::EightBits) } else { None }
    }
}
//@primitive src/ur20_1com_232_485_422.rs DataBits
impl BaudRate {
    pub open spec fn golden(n: u16) -> Option<BaudRate> {
        if n == 0 { Some(BaudRate::Baud_300) } else if n == 1 { Some(BaudRate::Baud_600) } else if n == 2 { Some(BaudRate::Baud_1200) } else if n == 3 { Some(BaudRate::Baud_2400) } else
         if n == 4 { Some(BaudRate::Baud_4800) } else if n == 5 { Some(BaudRate::Baud_9600) } else if n == 6 { Some(BaudRate::Baud_14400) } else if n == 7 { Some(BaudRate::Baud_19200) } else
         if n == 8 { Some(BaudRate::Baud_28800) } else if n == 9 { Some(BaudRate::Baud_38400) } else if n == 10 { Some(BaudRate::Baud_57600) } else if n == 11 { Some(BaudRate::Baud_115200) } else
         { None }
    }
}
//@primitive src/ur20_1com_232_485_422.rs BaudRate
impl StopBit {
    pub open spec fn golden(n: u16) -> Option<StopBit> {
        if n == 0 { Some(StopBit::OneBit) } else if n == 1 { Some(StopBit::TwoBits) } else { None }
    }
}
//@primitive src/ur20_1com_232_485_422.rs StopBit
impl Parity {
    pub open spec fn golden(n: u16) -> Option<Parity> {
        if n == 0 { Some(Parity::None) } else if n == 1 { Some(Parity::Even) } else if n == 2 { Some(Parity::Odd) } else { None }
    }
}
//@primitive src/ur20_1com_232_485_422.rs Parity
impl FlowControl {
    pub open spec fn golden(n: u16) -> Option<FlowControl> {
        if n == 0 { Some(FlowControl::None) } else if n == 1 { Some(FlowControl::CTS_RTS) } else if n == 2 { Some(FlowControl::XON_XOFF) } else { None }
    }
}
//@primitive src/ur20_1com_232_485_422.rs FlowControl
impl ProcessDataLength {
    pub open spec fn golden(n: u16) -> Option<ProcessDataLength> {
        if n == 0 { Some(ProcessDataLength::EightBytes) } else if n == 1 { Some(ProcessDataLength::SixteenBytes) } else { None }
    }
}
//@primitive src/ur20_1com_232_485_422.rs ProcessDataLength

} // verus!
