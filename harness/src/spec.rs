//! Golden facts about the UR20 product line (from the product names and the
//! module id table of the manual), independent of the code under test.

use ur20::ModuleCategory::{self, *};
use ur20::ModuleType::{self, *};

/// type, product name, module id, number of channels, category
pub type Row = (
    ModuleType,
    &'static str,
    Option<u32>,
    usize,
    ModuleCategory,
);

#[rustfmt::skip]
pub static MODULES: [Row; 63] = [
    (UR20_4DI_P, "UR20_4DI_P", Some(0x0009_1F84), 4, DI),
    (UR20_4DI_P_3W, "UR20_4DI_P_3W", Some(0x001B_1F84), 4, DI),
    (UR20_8DI_P_2W, "UR20_8DI_P_2W", Some(0x0013_1FC1), 8, DI),
    (UR20_8DI_P_3W, "UR20_8DI_P_3W", Some(0x000A_1FC1), 8, DI),
    (UR20_8DI_P_3W_HD, "UR20_8DI_P_3W_HD", Some(0x0003_1FC1), 8, DI),
    (UR20_16DI_P, "UR20_16DI_P", Some(0x0004_9FC2), 16, DI),
    (UR20_16DI_P_PLC_INT, "UR20_16DI_P_PLC_INT", Some(0x0005_9FC2), 16, DI),
    (UR20_2DI_P_TS, "UR20_2DI_P_TS", Some(0x0F01_4700), 2, DI),
    (UR20_4DI_P_TS, "UR20_4DI_P_TS", Some(0x0F02_4700), 4, DI),
    (UR20_4DI_N, "UR20_4DI_N", Some(0x0001_1F84), 4, DI),
    (UR20_8DI_N_3W, "UR20_8DI_N_3W", Some(0x0002_1FC1), 8, DI),
    (UR20_16DI_N, "UR20_16DI_N", Some(0x000C_9FC2), 16, DI),
    (UR20_16DI_N_PLC_INT, "UR20_16DI_N_PLC_INT", Some(0x000D_9FC2), 16, DI),
    (UR20_4DI_2W_230V_AC, "UR20_4DI_2W_230V_AC", Some(0x0016_9F84), 4, DI),
    (UR20_4DO_P, "UR20_4DO_P", Some(0x0101_2FA0), 4, DO),
    (UR20_4DO_P_2A, "UR20_4DO_P_2A", Some(0x0105_2FA0), 4, DO),
    (UR20_4DO_PN_2A, "UR20_4DO_PN_2A", Some(0x0115_2FC8), 4, DO),
    (UR20_8DO_P, "UR20_8DO_P", Some(0x0102_2FC8), 8, DO),
    (UR20_8DO_P_2W_HD, "UR20_8DO_P_2W_HD", Some(0x0119_2FC8), 8, DO),
    (UR20_16DO_P, "UR20_16DO_P", Some(0x0103_AFD0), 16, DO),
    (UR20_16DO_P_PLC_INT, "UR20_16DO_P_PLC_INT", Some(0x0104_AFD0), 16, DO),
    (UR20_4DO_N, "UR20_4DO_N", Some(0x010A_2FA0), 4, DO),
    (UR20_4DO_N_2A, "UR20_4DO_N_2A", Some(0x010B_2FA0), 4, DO),
    (UR20_8DO_N, "UR20_8DO_N", Some(0x010C_2FC8), 8, DO),
    (UR20_16DO_N, "UR20_16DO_N", Some(0x010D_AFD0), 16, DO),
    (UR20_16DO_N_PLC_INT, "UR20_16DO_N_PLC_INT", Some(0x010E_AFD0), 16, DO),
    (UR20_4RO_SSR_255, "UR20_4RO_SSR_255", Some(0x0107_2FA0), 4, DO),
    (UR20_4RO_CO_255, "UR20_4RO_CO_255", Some(0x0106_2FA0), 4, DO),
    (UR20_2PWM_PN_0_5A, "UR20_2PWM_PN_0_5A", Some(0x0908_4880), 2, PWM),
    (UR20_2PWM_PN_2A, "UR20_2PWM_PN_2A", Some(0x0909_4880), 2, PWM),
    (UR20_4AI_UI_16, "UR20_4AI_UI_16", Some(0x0401_15C4), 4, AI),
    (UR20_4AI_UI_16_DIAG, "UR20_4AI_UI_16_DIAG", Some(0x0402_1544), 4, AI),
    (UR20_4AI_UI_DIF_16_DIAG, "UR20_4AI_UI_DIF_16_DIAG", Some(0x041E_1544), 4, AI),
    (UR20_4AI_UI_16_HD, "UR20_4AI_UI_16_HD", Some(0x0413_15C4), 4, AI),
    (UR20_4AI_UI_16_DIAG_HD, "UR20_4AI_UI_16_DIAG_HD", Some(0x0414_1544), 4, AI),
    (UR20_4AI_UI_12, "UR20_4AI_UI_12", Some(0x0411_15C4), 4, AI),
    (UR20_8AI_I_16_HD, "UR20_8AI_I_16_HD", Some(0x0404_15C5), 8, AI),
    (UR20_8AI_I_16_DIAG_HD, "UR20_8AI_I_16_DIAG_HD", Some(0x0405_1545), 8, AI),
    (UR20_8AI_I_PLC_INT, "UR20_8AI_I_PLC_INT", Some(0x0409_15C5), 8, AI),
    (UR20_4AI_R_HS_16_DIAG, "UR20_4AI_R_HS_16_DIAG", Some(0x041C_1544), 4, AI),
    (UR20_2AI_SG_24_DIAG, "UR20_2AI_SG_24_DIAG", Some(0x041B_356D), 2, AI),
    (UR20_3EM_230V_AC, "UR20_3EM_230V_AC", Some(0x0418_356D), 8, AI),
    (UR20_4AO_UI_16, "UR20_4AO_UI_16", Some(0x0502_25E0), 4, AO),
    (UR20_4AO_UI_16_M, "UR20_4AO_UI_16_M", Some(0x0506_25E0), 4, AO),
    (UR20_4AO_UI_16_DIAG, "UR20_4AO_UI_16_DIAG", Some(0x0501_2560), 4, AO),
    (UR20_4AO_UI_16_M_DIAG, "UR20_4AO_UI_16_M_DIAG", Some(0x0505_2560), 4, AO),
    (UR20_4AO_UI_16_HD, "UR20_4AO_UI_16_HD", Some(0x0504_25E0), 4, AO),
    (UR20_4AO_UI_16_DIAG_HD, "UR20_4AO_UI_16_DIAG_HD", Some(0x0503_2560), 4, AO),
    (UR20_1CNT_100_1DO, "UR20_1CNT_100_1DO", Some(0x08C1_3800), 1, CNT),
    (UR20_2CNT_100, "UR20_2CNT_100", Some(0x08C3_3800), 2, CNT),
    (UR20_1CNT_500, "UR20_1CNT_500", Some(0x08C4_3801), 1, CNT),
    (UR20_2FCNT_100, "UR20_2FCNT_100", Some(0x0881_28EE), 2, CNT),
    (UR20_1SSI, "UR20_1SSI", Some(0x09C1_7880), 1, COM),
    (UR20_1COM_232_485_422, "UR20_1COM_232_485_422", Some(0x0E41_3FED), 1, COM),
    (UR20_1COM_SAI_PRO, "UR20_1COM_SAI_PRO", Some(0x0BC1_E800), 1, COM),
    (UR20_4COM_IO_LINK, "UR20_4COM_IO_LINK", Some(0x0E81_276D), 4, COM),
    (UR20_4AI_RTD_DIAG, "UR20_4AI_RTD_DIAG", Some(0x0406_1544), 4, RTD),
    (UR20_4AI_TC_DIAG, "UR20_4AI_TC_DIAG", Some(0x0407_1544), 4, TC),
    (UR20_PF_I, "UR20_PF_I", None, 0, PF),
    (UR20_PF_O, "UR20_PF_O", None, 0, PF),
    (UR20_PF_O_1DI_SIL, "UR20_PF_O_1DI_SIL", Some(0x1801_9F43), 0, PF),
    (UR20_PF_O_2DI_SIL, "UR20_PF_O_2DI_SIL", Some(0x1803_9F43), 0, PF),
    (UR20_PF_O_2DI_DELAY_SIL, "UR20_PF_O_2DI_DELAY_SIL", Some(0x1802_9F43), 0, PF),
];

#[rustfmt::skip]
pub static CATEGORIES: [(ModuleCategory, &str); 11] = [
    (DI, "DI"), (DO, "DO"), (AI, "AI"), (AO, "AO"), (CNT, "CNT"), (PWM, "PWM"),
    (RTD, "RTD"), (TC, "TC"), (COM, "COM"), (RO, "RO"), (PF, "PF"),
];

/// supported module types and the size of their parameter blocks
#[rustfmt::skip]
pub static SUPPORTED: [(ModuleType, u16); 18] = [
    (UR20_4DI_P, 4), (UR20_8DI_P_2W, 8),
    (UR20_4DO_P, 4), (UR20_4DO_P_2A, 4), (UR20_8DO_P, 8), (UR20_16DO_P, 0), (UR20_4RO_CO_255, 4),
    (UR20_4AO_UI_16, 12), (UR20_4AO_UI_16_DIAG, 16),
    (UR20_4AI_RTD_DIAG, 29), (UR20_4AI_TC_DIAG, 29), (UR20_4AI_UI_16_DIAG, 21),
    (UR20_4AI_UI_12, 9), (UR20_4AI_UI_16, 9), (UR20_8AI_I_16_DIAG_HD, 33),
    (UR20_2FCNT_100, 2), (UR20_1COM_232_485_422, 10), (UR20_PF_O_1DI_SIL, 0),
];
