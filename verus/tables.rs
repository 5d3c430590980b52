// Golden tables, generated by tools/tables.py from harness/src/spec.rs.
verus! {

/// the type a module id stands for
#[verifier::opaque]
pub open spec fn known(id: u32) -> Option<ModuleType> {
    if id == 0x0009_1F84 { Some(ModuleType::UR20_4DI_P) }
    else if id == 0x001B_1F84 { Some(ModuleType::UR20_4DI_P_3W) }
    else if id == 0x0013_1FC1 { Some(ModuleType::UR20_8DI_P_2W) }
    else if id == 0x000A_1FC1 { Some(ModuleType::UR20_8DI_P_3W) }
    else if id == 0x0003_1FC1 { Some(ModuleType::UR20_8DI_P_3W_HD) }
    else if id == 0x0004_9FC2 { Some(ModuleType::UR20_16DI_P) }
    else if id == 0x0005_9FC2 { Some(ModuleType::UR20_16DI_P_PLC_INT) }
    else if id == 0x0F01_4700 { Some(ModuleType::UR20_2DI_P_TS) }
    else if id == 0x0F02_4700 { Some(ModuleType::UR20_4DI_P_TS) }
    else if id == 0x0001_1F84 { Some(ModuleType::UR20_4DI_N) }
    else if id == 0x0002_1FC1 { Some(ModuleType::UR20_8DI_N_3W) }
    else if id == 0x000C_9FC2 { Some(ModuleType::UR20_16DI_N) }
    else if id == 0x000D_9FC2 { Some(ModuleType::UR20_16DI_N_PLC_INT) }
    else if id == 0x0016_9F84 { Some(ModuleType::UR20_4DI_2W_230V_AC) }
    else if id == 0x0101_2FA0 { Some(ModuleType::UR20_4DO_P) }
    else if id == 0x0105_2FA0 { Some(ModuleType::UR20_4DO_P_2A) }
    else if id == 0x0115_2FC8 { Some(ModuleType::UR20_4DO_PN_2A) }
    else if id == 0x0102_2FC8 { Some(ModuleType::UR20_8DO_P) }
    else if id == 0x0119_2FC8 { Some(ModuleType::UR20_8DO_P_2W_HD) }
    else if id == 0x0103_AFD0 { Some(ModuleType::UR20_16DO_P) }
    else if id == 0x0104_AFD0 { Some(ModuleType::UR20_16DO_P_PLC_INT) }
    else if id == 0x010A_2FA0 { Some(ModuleType::UR20_4DO_N) }
    else if id == 0x010B_2FA0 { Some(ModuleType::UR20_4DO_N_2A) }
    else if id == 0x010C_2FC8 { Some(ModuleType::UR20_8DO_N) }
    else if id == 0x010D_AFD0 { Some(ModuleType::UR20_16DO_N) }
    else if id == 0x010E_AFD0 { Some(ModuleType::UR20_16DO_N_PLC_INT) }
    else if id == 0x0107_2FA0 { Some(ModuleType::UR20_4RO_SSR_255) }
    else if id == 0x0106_2FA0 { Some(ModuleType::UR20_4RO_CO_255) }
    else if id == 0x0908_4880 { Some(ModuleType::UR20_2PWM_PN_0_5A) }
    else if id == 0x0909_4880 { Some(ModuleType::UR20_2PWM_PN_2A) }
    else if id == 0x0401_15C4 { Some(ModuleType::UR20_4AI_UI_16) }
    else if id == 0x0402_1544 { Some(ModuleType::UR20_4AI_UI_16_DIAG) }
    else if id == 0x041E_1544 { Some(ModuleType::UR20_4AI_UI_DIF_16_DIAG) }
    else if id == 0x0413_15C4 { Some(ModuleType::UR20_4AI_UI_16_HD) }
    else if id == 0x0414_1544 { Some(ModuleType::UR20_4AI_UI_16_DIAG_HD) }
    else if id == 0x0411_15C4 { Some(ModuleType::UR20_4AI_UI_12) }
    else if id == 0x0404_15C5 { Some(ModuleType::UR20_8AI_I_16_HD) }
    else if id == 0x0405_1545 { Some(ModuleType::UR20_8AI_I_16_DIAG_HD) }
    else if id == 0x0409_15C5 { Some(ModuleType::UR20_8AI_I_PLC_INT) }
    else if id == 0x041C_1544 { Some(ModuleType::UR20_4AI_R_HS_16_DIAG) }
    else if id == 0x041B_356D { Some(ModuleType::UR20_2AI_SG_24_DIAG) }
    else if id == 0x0418_356D { Some(ModuleType::UR20_3EM_230V_AC) }
    else if id == 0x0502_25E0 { Some(ModuleType::UR20_4AO_UI_16) }
    else if id == 0x0506_25E0 { Some(ModuleType::UR20_4AO_UI_16_M) }
    else if id == 0x0501_2560 { Some(ModuleType::UR20_4AO_UI_16_DIAG) }
    else if id == 0x0505_2560 { Some(ModuleType::UR20_4AO_UI_16_M_DIAG) }
    else if id == 0x0504_25E0 { Some(ModuleType::UR20_4AO_UI_16_HD) }
    else if id == 0x0503_2560 { Some(ModuleType::UR20_4AO_UI_16_DIAG_HD) }
    else if id == 0x08C1_3800 { Some(ModuleType::UR20_1CNT_100_1DO) }
    else if id == 0x08C3_3800 { Some(ModuleType::UR20_2CNT_100) }
    else if id == 0x08C4_3801 { Some(ModuleType::UR20_1CNT_500) }
    else if id == 0x0881_28EE { Some(ModuleType::UR20_2FCNT_100) }
    else if id == 0x09C1_7880 { Some(ModuleType::UR20_1SSI) }
    else if id == 0x0E41_3FED { Some(ModuleType::UR20_1COM_232_485_422) }
    else if id == 0x0BC1_E800 { Some(ModuleType::UR20_1COM_SAI_PRO) }
    else if id == 0x0E81_276D { Some(ModuleType::UR20_4COM_IO_LINK) }
    else if id == 0x0406_1544 { Some(ModuleType::UR20_4AI_RTD_DIAG) }
    else if id == 0x0407_1544 { Some(ModuleType::UR20_4AI_TC_DIAG) }
    else if id == 0x1801_9F43 { Some(ModuleType::UR20_PF_O_1DI_SIL) }
    else if id == 0x1803_9F43 { Some(ModuleType::UR20_PF_O_2DI_SIL) }
    else if id == 0x1802_9F43 { Some(ModuleType::UR20_PF_O_2DI_DELAY_SIL) }
    else { None }
}
impl ModuleType {
    #[verifier::opaque]
    pub open spec fn channels(self) -> nat {
        match self {
            ModuleType::UR20_4DI_P => 4,
            ModuleType::UR20_4DI_P_3W => 4,
            ModuleType::UR20_8DI_P_2W => 8,
            ModuleType::UR20_8DI_P_3W => 8,
            ModuleType::UR20_8DI_P_3W_HD => 8,
            ModuleType::UR20_16DI_P => 16,
            ModuleType::UR20_16DI_P_PLC_INT => 16,
            ModuleType::UR20_2DI_P_TS => 2,
            ModuleType::UR20_4DI_P_TS => 4,
            ModuleType::UR20_4DI_N => 4,
            ModuleType::UR20_8DI_N_3W => 8,
            ModuleType::UR20_16DI_N => 16,
            ModuleType::UR20_16DI_N_PLC_INT => 16,
            ModuleType::UR20_4DI_2W_230V_AC => 4,
            ModuleType::UR20_4DO_P => 4,
            ModuleType::UR20_4DO_P_2A => 4,
            ModuleType::UR20_4DO_PN_2A => 4,
            ModuleType::UR20_8DO_P => 8,
            ModuleType::UR20_8DO_P_2W_HD => 8,
            ModuleType::UR20_16DO_P => 16,
            ModuleType::UR20_16DO_P_PLC_INT => 16,
            ModuleType::UR20_4DO_N => 4,
            ModuleType::UR20_4DO_N_2A => 4,
            ModuleType::UR20_8DO_N => 8,
            ModuleType::UR20_16DO_N => 16,
            ModuleType::UR20_16DO_N_PLC_INT => 16,
            ModuleType::UR20_4RO_SSR_255 => 4,
            ModuleType::UR20_4RO_CO_255 => 4,
            ModuleType::UR20_2PWM_PN_0_5A => 2,
            ModuleType::UR20_2PWM_PN_2A => 2,
            ModuleType::UR20_4AI_UI_16 => 4,
            ModuleType::UR20_4AI_UI_16_DIAG => 4,
            ModuleType::UR20_4AI_UI_DIF_16_DIAG => 4,
            ModuleType::UR20_4AI_UI_16_HD => 4,
            ModuleType::UR20_4AI_UI_16_DIAG_HD => 4,
            ModuleType::UR20_4AI_UI_12 => 4,
            ModuleType::UR20_8AI_I_16_HD => 8,
            ModuleType::UR20_8AI_I_16_DIAG_HD => 8,
            ModuleType::UR20_8AI_I_PLC_INT => 8,
            ModuleType::UR20_4AI_R_HS_16_DIAG => 4,
            ModuleType::UR20_2AI_SG_24_DIAG => 2,
            ModuleType::UR20_3EM_230V_AC => 8,
            ModuleType::UR20_4AO_UI_16 => 4,
            ModuleType::UR20_4AO_UI_16_M => 4,
            ModuleType::UR20_4AO_UI_16_DIAG => 4,
            ModuleType::UR20_4AO_UI_16_M_DIAG => 4,
            ModuleType::UR20_4AO_UI_16_HD => 4,
            ModuleType::UR20_4AO_UI_16_DIAG_HD => 4,
            ModuleType::UR20_1CNT_100_1DO => 1,
            ModuleType::UR20_2CNT_100 => 2,
            ModuleType::UR20_1CNT_500 => 1,
            ModuleType::UR20_2FCNT_100 => 2,
            ModuleType::UR20_1SSI => 1,
            ModuleType::UR20_1COM_232_485_422 => 1,
            ModuleType::UR20_1COM_SAI_PRO => 1,
            ModuleType::UR20_4COM_IO_LINK => 4,
            ModuleType::UR20_4AI_RTD_DIAG => 4,
            ModuleType::UR20_4AI_TC_DIAG => 4,
            ModuleType::UR20_PF_I => 0,
            ModuleType::UR20_PF_O => 0,
            ModuleType::UR20_PF_O_1DI_SIL => 0,
            ModuleType::UR20_PF_O_2DI_SIL => 0,
            ModuleType::UR20_PF_O_2DI_DELAY_SIL => 0,
        }
    }
    #[verifier::opaque]
    pub open spec fn category(self) -> ModuleCategory {
        match self {
            ModuleType::UR20_4DI_P => ModuleCategory::DI,
            ModuleType::UR20_4DI_P_3W => ModuleCategory::DI,
            ModuleType::UR20_8DI_P_2W => ModuleCategory::DI,
            ModuleType::UR20_8DI_P_3W => ModuleCategory::DI,
            ModuleType::UR20_8DI_P_3W_HD => ModuleCategory::DI,
            ModuleType::UR20_16DI_P => ModuleCategory::DI,
            ModuleType::UR20_16DI_P_PLC_INT => ModuleCategory::DI,
            ModuleType::UR20_2DI_P_TS => ModuleCategory::DI,
            ModuleType::UR20_4DI_P_TS => ModuleCategory::DI,
            ModuleType::UR20_4DI_N => ModuleCategory::DI,
            ModuleType::UR20_8DI_N_3W => ModuleCategory::DI,
            ModuleType::UR20_16DI_N => ModuleCategory::DI,
            ModuleType::UR20_16DI_N_PLC_INT => ModuleCategory::DI,
            ModuleType::UR20_4DI_2W_230V_AC => ModuleCategory::DI,
            ModuleType::UR20_4DO_P => ModuleCategory::DO,
            ModuleType::UR20_4DO_P_2A => ModuleCategory::DO,
            ModuleType::UR20_4DO_PN_2A => ModuleCategory::DO,
            ModuleType::UR20_8DO_P => ModuleCategory::DO,
            ModuleType::UR20_8DO_P_2W_HD => ModuleCategory::DO,
            ModuleType::UR20_16DO_P => ModuleCategory::DO,
            ModuleType::UR20_16DO_P_PLC_INT => ModuleCategory::DO,
            ModuleType::UR20_4DO_N => ModuleCategory::DO,
            ModuleType::UR20_4DO_N_2A => ModuleCategory::DO,
            ModuleType::UR20_8DO_N => ModuleCategory::DO,
            ModuleType::UR20_16DO_N => ModuleCategory::DO,
            ModuleType::UR20_16DO_N_PLC_INT => ModuleCategory::DO,
            ModuleType::UR20_4RO_SSR_255 => ModuleCategory::DO,
            ModuleType::UR20_4RO_CO_255 => ModuleCategory::DO,
            ModuleType::UR20_2PWM_PN_0_5A => ModuleCategory::PWM,
            ModuleType::UR20_2PWM_PN_2A => ModuleCategory::PWM,
            ModuleType::UR20_4AI_UI_16 => ModuleCategory::AI,
            ModuleType::UR20_4AI_UI_16_DIAG => ModuleCategory::AI,
            ModuleType::UR20_4AI_UI_DIF_16_DIAG => ModuleCategory::AI,
            ModuleType::UR20_4AI_UI_16_HD => ModuleCategory::AI,
            ModuleType::UR20_4AI_UI_16_DIAG_HD => ModuleCategory::AI,
            ModuleType::UR20_4AI_UI_12 => ModuleCategory::AI,
            ModuleType::UR20_8AI_I_16_HD => ModuleCategory::AI,
            ModuleType::UR20_8AI_I_16_DIAG_HD => ModuleCategory::AI,
            ModuleType::UR20_8AI_I_PLC_INT => ModuleCategory::AI,
            ModuleType::UR20_4AI_R_HS_16_DIAG => ModuleCategory::AI,
            ModuleType::UR20_2AI_SG_24_DIAG => ModuleCategory::AI,
            ModuleType::UR20_3EM_230V_AC => ModuleCategory::AI,
            ModuleType::UR20_4AO_UI_16 => ModuleCategory::AO,
            ModuleType::UR20_4AO_UI_16_M => ModuleCategory::AO,
            ModuleType::UR20_4AO_UI_16_DIAG => ModuleCategory::AO,
            ModuleType::UR20_4AO_UI_16_M_DIAG => ModuleCategory::AO,
            ModuleType::UR20_4AO_UI_16_HD => ModuleCategory::AO,
            ModuleType::UR20_4AO_UI_16_DIAG_HD => ModuleCategory::AO,
            ModuleType::UR20_1CNT_100_1DO => ModuleCategory::CNT,
            ModuleType::UR20_2CNT_100 => ModuleCategory::CNT,
            ModuleType::UR20_1CNT_500 => ModuleCategory::CNT,
            ModuleType::UR20_2FCNT_100 => ModuleCategory::CNT,
            ModuleType::UR20_1SSI => ModuleCategory::COM,
            ModuleType::UR20_1COM_232_485_422 => ModuleCategory::COM,
            ModuleType::UR20_1COM_SAI_PRO => ModuleCategory::COM,
            ModuleType::UR20_4COM_IO_LINK => ModuleCategory::COM,
            ModuleType::UR20_4AI_RTD_DIAG => ModuleCategory::RTD,
            ModuleType::UR20_4AI_TC_DIAG => ModuleCategory::TC,
            ModuleType::UR20_PF_I => ModuleCategory::PF,
            ModuleType::UR20_PF_O => ModuleCategory::PF,
            ModuleType::UR20_PF_O_1DI_SIL => ModuleCategory::PF,
            ModuleType::UR20_PF_O_2DI_SIL => ModuleCategory::PF,
            ModuleType::UR20_PF_O_2DI_DELAY_SIL => ModuleCategory::PF,
        }
    }
    /// size of the parameter block of a supported type
    #[verifier::opaque]
    pub open spec fn block(self) -> Option<u16> {
        match self {
            ModuleType::UR20_4DI_P => Some(4),
            ModuleType::UR20_8DI_P_2W => Some(8),
            ModuleType::UR20_4DO_P => Some(4),
            ModuleType::UR20_4DO_P_2A => Some(4),
            ModuleType::UR20_8DO_P => Some(8),
            ModuleType::UR20_16DO_P => Some(0),
            ModuleType::UR20_4RO_CO_255 => Some(4),
            ModuleType::UR20_4AO_UI_16 => Some(12),
            ModuleType::UR20_4AO_UI_16_DIAG => Some(16),
            ModuleType::UR20_4AI_RTD_DIAG => Some(29),
            ModuleType::UR20_4AI_TC_DIAG => Some(29),
            ModuleType::UR20_4AI_UI_16_DIAG => Some(21),
            ModuleType::UR20_4AI_UI_12 => Some(9),
            ModuleType::UR20_4AI_UI_16 => Some(9),
            ModuleType::UR20_8AI_I_16_DIAG_HD => Some(33),
            ModuleType::UR20_2FCNT_100 => Some(2),
            ModuleType::UR20_1COM_232_485_422 => Some(10),
            ModuleType::UR20_PF_O_1DI_SIL => Some(0),
            _ => None,
        }
    }
}

} // verus!
