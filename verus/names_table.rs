// Names, generated by tools/tables.py from harness/src/spec.rs.
verus! {

impl ModuleType {
pub open spec fn name(self) -> Seq<char> {
    match self {
        ModuleType::UR20_4DI_P => "UR20_4DI_P"@,
        ModuleType::UR20_4DI_P_3W => "UR20_4DI_P_3W"@,
        ModuleType::UR20_8DI_P_2W => "UR20_8DI_P_2W"@,
        ModuleType::UR20_8DI_P_3W => "UR20_8DI_P_3W"@,
        ModuleType::UR20_8DI_P_3W_HD => "UR20_8DI_P_3W_HD"@,
        ModuleType::UR20_16DI_P => "UR20_16DI_P"@,
        ModuleType::UR20_16DI_P_PLC_INT => "UR20_16DI_P_PLC_INT"@,
        ModuleType::UR20_2DI_P_TS => "UR20_2DI_P_TS"@,
        ModuleType::UR20_4DI_P_TS => "UR20_4DI_P_TS"@,
        ModuleType::UR20_4DI_N => "UR20_4DI_N"@,
        ModuleType::UR20_8DI_N_3W => "UR20_8DI_N_3W"@,
        ModuleType::UR20_16DI_N => "UR20_16DI_N"@,
        ModuleType::UR20_16DI_N_PLC_INT => "UR20_16DI_N_PLC_INT"@,
        ModuleType::UR20_4DI_2W_230V_AC => "UR20_4DI_2W_230V_AC"@,
        ModuleType::UR20_4DO_P => "UR20_4DO_P"@,
        ModuleType::UR20_4DO_P_2A => "UR20_4DO_P_2A"@,
        ModuleType::UR20_4DO_PN_2A => "UR20_4DO_PN_2A"@,
        ModuleType::UR20_8DO_P => "UR20_8DO_P"@,
        ModuleType::UR20_8DO_P_2W_HD => "UR20_8DO_P_2W_HD"@,
        ModuleType::UR20_16DO_P => "UR20_16DO_P"@,
        ModuleType::UR20_16DO_P_PLC_INT => "UR20_16DO_P_PLC_INT"@,
        ModuleType::UR20_4DO_N => "UR20_4DO_N"@,
        ModuleType::UR20_4DO_N_2A => "UR20_4DO_N_2A"@,
        ModuleType::UR20_8DO_N => "UR20_8DO_N"@,
        ModuleType::UR20_16DO_N => "UR20_16DO_N"@,
        ModuleType::UR20_16DO_N_PLC_INT => "UR20_16DO_N_PLC_INT"@,
        ModuleType::UR20_4RO_SSR_255 => "UR20_4RO_SSR_255"@,
        ModuleType::UR20_4RO_CO_255 => "UR20_4RO_CO_255"@,
        ModuleType::UR20_2PWM_PN_0_5A => "UR20_2PWM_PN_0_5A"@,
        ModuleType::UR20_2PWM_PN_2A => "UR20_2PWM_PN_2A"@,
        ModuleType::UR20_4AI_UI_16 => "UR20_4AI_UI_16"@,
        ModuleType::UR20_4AI_UI_16_DIAG => "UR20_4AI_UI_16_DIAG"@,
        ModuleType::UR20_4AI_UI_DIF_16_DIAG => "UR20_4AI_UI_DIF_16_DIAG"@,
        ModuleType::UR20_4AI_UI_16_HD => "UR20_4AI_UI_16_HD"@,
        ModuleType::UR20_4AI_UI_16_DIAG_HD => "UR20_4AI_UI_16_DIAG_HD"@,
        ModuleType::UR20_4AI_UI_12 => "UR20_4AI_UI_12"@,
        ModuleType::UR20_8AI_I_16_HD => "UR20_8AI_I_16_HD"@,
        ModuleType::UR20_8AI_I_16_DIAG_HD => "UR20_8AI_I_16_DIAG_HD"@,
        ModuleType::UR20_8AI_I_PLC_INT => "UR20_8AI_I_PLC_INT"@,
        ModuleType::UR20_4AI_R_HS_16_DIAG => "UR20_4AI_R_HS_16_DIAG"@,
        ModuleType::UR20_2AI_SG_24_DIAG => "UR20_2AI_SG_24_DIAG"@,
        ModuleType::UR20_3EM_230V_AC => "UR20_3EM_230V_AC"@,
        ModuleType::UR20_4AO_UI_16 => "UR20_4AO_UI_16"@,
        ModuleType::UR20_4AO_UI_16_M => "UR20_4AO_UI_16_M"@,
        ModuleType::UR20_4AO_UI_16_DIAG => "UR20_4AO_UI_16_DIAG"@,
        ModuleType::UR20_4AO_UI_16_M_DIAG => "UR20_4AO_UI_16_M_DIAG"@,
        ModuleType::UR20_4AO_UI_16_HD => "UR20_4AO_UI_16_HD"@,
        ModuleType::UR20_4AO_UI_16_DIAG_HD => "UR20_4AO_UI_16_DIAG_HD"@,
        ModuleType::UR20_1CNT_100_1DO => "UR20_1CNT_100_1DO"@,
        ModuleType::UR20_2CNT_100 => "UR20_2CNT_100"@,
        ModuleType::UR20_1CNT_500 => "UR20_1CNT_500"@,
        ModuleType::UR20_2FCNT_100 => "UR20_2FCNT_100"@,
        ModuleType::UR20_1SSI => "UR20_1SSI"@,
        ModuleType::UR20_1COM_232_485_422 => "UR20_1COM_232_485_422"@,
        ModuleType::UR20_1COM_SAI_PRO => "UR20_1COM_SAI_PRO"@,
        ModuleType::UR20_4COM_IO_LINK => "UR20_4COM_IO_LINK"@,
        ModuleType::UR20_4AI_RTD_DIAG => "UR20_4AI_RTD_DIAG"@,
        ModuleType::UR20_4AI_TC_DIAG => "UR20_4AI_TC_DIAG"@,
        ModuleType::UR20_PF_I => "UR20_PF_I"@,
        ModuleType::UR20_PF_O => "UR20_PF_O"@,
        ModuleType::UR20_PF_O_1DI_SIL => "UR20_PF_O_1DI_SIL"@,
        ModuleType::UR20_PF_O_2DI_SIL => "UR20_PF_O_2DI_SIL"@,
        ModuleType::UR20_PF_O_2DI_DELAY_SIL => "UR20_PF_O_2DI_DELAY_SIL"@,
    }
}
pub proof fn distinct(a: ModuleType, b: ModuleType) requires a.name() == b.name() ensures a == b {
    reveal_strlit("UR20_4DI_P");
    reveal_strlit("UR20_4DI_P_3W");
    reveal_strlit("UR20_8DI_P_2W");
    reveal_strlit("UR20_8DI_P_3W");
    reveal_strlit("UR20_8DI_P_3W_HD");
    reveal_strlit("UR20_16DI_P");
    reveal_strlit("UR20_16DI_P_PLC_INT");
    reveal_strlit("UR20_2DI_P_TS");
    reveal_strlit("UR20_4DI_P_TS");
    reveal_strlit("UR20_4DI_N");
    reveal_strlit("UR20_8DI_N_3W");
    reveal_strlit("UR20_16DI_N");
    reveal_strlit("UR20_16DI_N_PLC_INT");
    reveal_strlit("UR20_4DI_2W_230V_AC");
    reveal_strlit("UR20_4DO_P");
    reveal_strlit("UR20_4DO_P_2A");
    reveal_strlit("UR20_4DO_PN_2A");
    reveal_strlit("UR20_8DO_P");
    reveal_strlit("UR20_8DO_P_2W_HD");
    reveal_strlit("UR20_16DO_P");
    reveal_strlit("UR20_16DO_P_PLC_INT");
    reveal_strlit("UR20_4DO_N");
    reveal_strlit("UR20_4DO_N_2A");
    reveal_strlit("UR20_8DO_N");
    reveal_strlit("UR20_16DO_N");
    reveal_strlit("UR20_16DO_N_PLC_INT");
    reveal_strlit("UR20_4RO_SSR_255");
    reveal_strlit("UR20_4RO_CO_255");
    reveal_strlit("UR20_2PWM_PN_0_5A");
    reveal_strlit("UR20_2PWM_PN_2A");
    reveal_strlit("UR20_4AI_UI_16");
    reveal_strlit("UR20_4AI_UI_16_DIAG");
    reveal_strlit("UR20_4AI_UI_DIF_16_DIAG");
    reveal_strlit("UR20_4AI_UI_16_HD");
    reveal_strlit("UR20_4AI_UI_16_DIAG_HD");
    reveal_strlit("UR20_4AI_UI_12");
    reveal_strlit("UR20_8AI_I_16_HD");
    reveal_strlit("UR20_8AI_I_16_DIAG_HD");
    reveal_strlit("UR20_8AI_I_PLC_INT");
    reveal_strlit("UR20_4AI_R_HS_16_DIAG");
    reveal_strlit("UR20_2AI_SG_24_DIAG");
    reveal_strlit("UR20_3EM_230V_AC");
    reveal_strlit("UR20_4AO_UI_16");
    reveal_strlit("UR20_4AO_UI_16_M");
    reveal_strlit("UR20_4AO_UI_16_DIAG");
    reveal_strlit("UR20_4AO_UI_16_M_DIAG");
    reveal_strlit("UR20_4AO_UI_16_HD");
    reveal_strlit("UR20_4AO_UI_16_DIAG_HD");
    reveal_strlit("UR20_1CNT_100_1DO");
    reveal_strlit("UR20_2CNT_100");
    reveal_strlit("UR20_1CNT_500");
    reveal_strlit("UR20_2FCNT_100");
    reveal_strlit("UR20_1SSI");
    reveal_strlit("UR20_1COM_232_485_422");
    reveal_strlit("UR20_1COM_SAI_PRO");
    reveal_strlit("UR20_4COM_IO_LINK");
    reveal_strlit("UR20_4AI_RTD_DIAG");
    reveal_strlit("UR20_4AI_TC_DIAG");
    reveal_strlit("UR20_PF_I");
    reveal_strlit("UR20_PF_O");
    reveal_strlit("UR20_PF_O_1DI_SIL");
    reveal_strlit("UR20_PF_O_2DI_SIL");
    reveal_strlit("UR20_PF_O_2DI_DELAY_SIL");
    assert("UR20_4DI_P"@.len() == 10 && "UR20_4DI_P"@[5] == '4' && "UR20_4DI_P"@[6] == 'D' && "UR20_4DI_P"@[7] == 'I' && "UR20_4DI_P"@[8] == '_' && "UR20_4DI_P"@[9] == 'P');
    assert("UR20_4DI_P_3W"@.len() == 13 && "UR20_4DI_P_3W"@[5] == '4' && "UR20_4DI_P_3W"@[6] == 'D' && "UR20_4DI_P_3W"@[7] == 'I' && "UR20_4DI_P_3W"@[8] == '_' && "UR20_4DI_P_3W"@[9] == 'P' && "UR20_4DI_P_3W"@[10] == '_' && "UR20_4DI_P_3W"@[11] == '3' && "UR20_4DI_P_3W"@[12] == 'W');
    assert("UR20_8DI_P_2W"@.len() == 13 && "UR20_8DI_P_2W"@[5] == '8' && "UR20_8DI_P_2W"@[6] == 'D' && "UR20_8DI_P_2W"@[7] == 'I' && "UR20_8DI_P_2W"@[8] == '_' && "UR20_8DI_P_2W"@[9] == 'P' && "UR20_8DI_P_2W"@[10] == '_' && "UR20_8DI_P_2W"@[11] == '2' && "UR20_8DI_P_2W"@[12] == 'W');
    assert("UR20_8DI_P_3W"@.len() == 13 && "UR20_8DI_P_3W"@[5] == '8' && "UR20_8DI_P_3W"@[6] == 'D' && "UR20_8DI_P_3W"@[7] == 'I' && "UR20_8DI_P_3W"@[8] == '_' && "UR20_8DI_P_3W"@[9] == 'P' && "UR20_8DI_P_3W"@[10] == '_' && "UR20_8DI_P_3W"@[11] == '3' && "UR20_8DI_P_3W"@[12] == 'W');
    assert("UR20_8DI_P_3W_HD"@.len() == 16 && "UR20_8DI_P_3W_HD"@[5] == '8' && "UR20_8DI_P_3W_HD"@[6] == 'D' && "UR20_8DI_P_3W_HD"@[7] == 'I' && "UR20_8DI_P_3W_HD"@[8] == '_' && "UR20_8DI_P_3W_HD"@[9] == 'P' && "UR20_8DI_P_3W_HD"@[10] == '_' && "UR20_8DI_P_3W_HD"@[11] == '3' && "UR20_8DI_P_3W_HD"@[12] == 'W' && "UR20_8DI_P_3W_HD"@[13] == '_' && "UR20_8DI_P_3W_HD"@[14] == 'H' && "UR20_8DI_P_3W_HD"@[15] == 'D');
    assert("UR20_16DI_P"@.len() == 11 && "UR20_16DI_P"@[5] == '1' && "UR20_16DI_P"@[6] == '6' && "UR20_16DI_P"@[7] == 'D' && "UR20_16DI_P"@[8] == 'I' && "UR20_16DI_P"@[9] == '_' && "UR20_16DI_P"@[10] == 'P');
    assert("UR20_16DI_P_PLC_INT"@.len() == 19 && "UR20_16DI_P_PLC_INT"@[5] == '1' && "UR20_16DI_P_PLC_INT"@[6] == '6' && "UR20_16DI_P_PLC_INT"@[7] == 'D' && "UR20_16DI_P_PLC_INT"@[8] == 'I' && "UR20_16DI_P_PLC_INT"@[9] == '_' && "UR20_16DI_P_PLC_INT"@[10] == 'P' && "UR20_16DI_P_PLC_INT"@[11] == '_' && "UR20_16DI_P_PLC_INT"@[12] == 'P' && "UR20_16DI_P_PLC_INT"@[13] == 'L' && "UR20_16DI_P_PLC_INT"@[14] == 'C' && "UR20_16DI_P_PLC_INT"@[15] == '_' && "UR20_16DI_P_PLC_INT"@[16] == 'I' && "UR20_16DI_P_PLC_INT"@[17] == 'N' && "UR20_16DI_P_PLC_INT"@[18] == 'T');
    assert("UR20_2DI_P_TS"@.len() == 13 && "UR20_2DI_P_TS"@[5] == '2' && "UR20_2DI_P_TS"@[6] == 'D' && "UR20_2DI_P_TS"@[7] == 'I' && "UR20_2DI_P_TS"@[8] == '_' && "UR20_2DI_P_TS"@[9] == 'P' && "UR20_2DI_P_TS"@[10] == '_' && "UR20_2DI_P_TS"@[11] == 'T' && "UR20_2DI_P_TS"@[12] == 'S');
    assert("UR20_4DI_P_TS"@.len() == 13 && "UR20_4DI_P_TS"@[5] == '4' && "UR20_4DI_P_TS"@[6] == 'D' && "UR20_4DI_P_TS"@[7] == 'I' && "UR20_4DI_P_TS"@[8] == '_' && "UR20_4DI_P_TS"@[9] == 'P' && "UR20_4DI_P_TS"@[10] == '_' && "UR20_4DI_P_TS"@[11] == 'T' && "UR20_4DI_P_TS"@[12] == 'S');
    assert("UR20_4DI_N"@.len() == 10 && "UR20_4DI_N"@[5] == '4' && "UR20_4DI_N"@[6] == 'D' && "UR20_4DI_N"@[7] == 'I' && "UR20_4DI_N"@[8] == '_' && "UR20_4DI_N"@[9] == 'N');
    assert("UR20_8DI_N_3W"@.len() == 13 && "UR20_8DI_N_3W"@[5] == '8' && "UR20_8DI_N_3W"@[6] == 'D' && "UR20_8DI_N_3W"@[7] == 'I' && "UR20_8DI_N_3W"@[8] == '_' && "UR20_8DI_N_3W"@[9] == 'N' && "UR20_8DI_N_3W"@[10] == '_' && "UR20_8DI_N_3W"@[11] == '3' && "UR20_8DI_N_3W"@[12] == 'W');
    assert("UR20_16DI_N"@.len() == 11 && "UR20_16DI_N"@[5] == '1' && "UR20_16DI_N"@[6] == '6' && "UR20_16DI_N"@[7] == 'D' && "UR20_16DI_N"@[8] == 'I' && "UR20_16DI_N"@[9] == '_' && "UR20_16DI_N"@[10] == 'N');
    assert("UR20_16DI_N_PLC_INT"@.len() == 19 && "UR20_16DI_N_PLC_INT"@[5] == '1' && "UR20_16DI_N_PLC_INT"@[6] == '6' && "UR20_16DI_N_PLC_INT"@[7] == 'D' && "UR20_16DI_N_PLC_INT"@[8] == 'I' && "UR20_16DI_N_PLC_INT"@[9] == '_' && "UR20_16DI_N_PLC_INT"@[10] == 'N' && "UR20_16DI_N_PLC_INT"@[11] == '_' && "UR20_16DI_N_PLC_INT"@[12] == 'P' && "UR20_16DI_N_PLC_INT"@[13] == 'L' && "UR20_16DI_N_PLC_INT"@[14] == 'C' && "UR20_16DI_N_PLC_INT"@[15] == '_' && "UR20_16DI_N_PLC_INT"@[16] == 'I' && "UR20_16DI_N_PLC_INT"@[17] == 'N' && "UR20_16DI_N_PLC_INT"@[18] == 'T');
    assert("UR20_4DI_2W_230V_AC"@.len() == 19 && "UR20_4DI_2W_230V_AC"@[5] == '4' && "UR20_4DI_2W_230V_AC"@[6] == 'D' && "UR20_4DI_2W_230V_AC"@[7] == 'I' && "UR20_4DI_2W_230V_AC"@[8] == '_' && "UR20_4DI_2W_230V_AC"@[9] == '2' && "UR20_4DI_2W_230V_AC"@[10] == 'W' && "UR20_4DI_2W_230V_AC"@[11] == '_' && "UR20_4DI_2W_230V_AC"@[12] == '2' && "UR20_4DI_2W_230V_AC"@[13] == '3' && "UR20_4DI_2W_230V_AC"@[14] == '0' && "UR20_4DI_2W_230V_AC"@[15] == 'V' && "UR20_4DI_2W_230V_AC"@[16] == '_' && "UR20_4DI_2W_230V_AC"@[17] == 'A' && "UR20_4DI_2W_230V_AC"@[18] == 'C');
    assert("UR20_4DO_P"@.len() == 10 && "UR20_4DO_P"@[5] == '4' && "UR20_4DO_P"@[6] == 'D' && "UR20_4DO_P"@[7] == 'O' && "UR20_4DO_P"@[8] == '_' && "UR20_4DO_P"@[9] == 'P');
    assert("UR20_4DO_P_2A"@.len() == 13 && "UR20_4DO_P_2A"@[5] == '4' && "UR20_4DO_P_2A"@[6] == 'D' && "UR20_4DO_P_2A"@[7] == 'O' && "UR20_4DO_P_2A"@[8] == '_' && "UR20_4DO_P_2A"@[9] == 'P' && "UR20_4DO_P_2A"@[10] == '_' && "UR20_4DO_P_2A"@[11] == '2' && "UR20_4DO_P_2A"@[12] == 'A');
    assert("UR20_4DO_PN_2A"@.len() == 14 && "UR20_4DO_PN_2A"@[5] == '4' && "UR20_4DO_PN_2A"@[6] == 'D' && "UR20_4DO_PN_2A"@[7] == 'O' && "UR20_4DO_PN_2A"@[8] == '_' && "UR20_4DO_PN_2A"@[9] == 'P' && "UR20_4DO_PN_2A"@[10] == 'N' && "UR20_4DO_PN_2A"@[11] == '_' && "UR20_4DO_PN_2A"@[12] == '2' && "UR20_4DO_PN_2A"@[13] == 'A');
    assert("UR20_8DO_P"@.len() == 10 && "UR20_8DO_P"@[5] == '8' && "UR20_8DO_P"@[6] == 'D' && "UR20_8DO_P"@[7] == 'O' && "UR20_8DO_P"@[8] == '_' && "UR20_8DO_P"@[9] == 'P');
    assert("UR20_8DO_P_2W_HD"@.len() == 16 && "UR20_8DO_P_2W_HD"@[5] == '8' && "UR20_8DO_P_2W_HD"@[6] == 'D' && "UR20_8DO_P_2W_HD"@[7] == 'O' && "UR20_8DO_P_2W_HD"@[8] == '_' && "UR20_8DO_P_2W_HD"@[9] == 'P' && "UR20_8DO_P_2W_HD"@[10] == '_' && "UR20_8DO_P_2W_HD"@[11] == '2' && "UR20_8DO_P_2W_HD"@[12] == 'W' && "UR20_8DO_P_2W_HD"@[13] == '_' && "UR20_8DO_P_2W_HD"@[14] == 'H' && "UR20_8DO_P_2W_HD"@[15] == 'D');
    assert("UR20_16DO_P"@.len() == 11 && "UR20_16DO_P"@[5] == '1' && "UR20_16DO_P"@[6] == '6' && "UR20_16DO_P"@[7] == 'D' && "UR20_16DO_P"@[8] == 'O' && "UR20_16DO_P"@[9] == '_' && "UR20_16DO_P"@[10] == 'P');
    assert("UR20_16DO_P_PLC_INT"@.len() == 19 && "UR20_16DO_P_PLC_INT"@[5] == '1' && "UR20_16DO_P_PLC_INT"@[6] == '6' && "UR20_16DO_P_PLC_INT"@[7] == 'D' && "UR20_16DO_P_PLC_INT"@[8] == 'O' && "UR20_16DO_P_PLC_INT"@[9] == '_' && "UR20_16DO_P_PLC_INT"@[10] == 'P' && "UR20_16DO_P_PLC_INT"@[11] == '_' && "UR20_16DO_P_PLC_INT"@[12] == 'P' && "UR20_16DO_P_PLC_INT"@[13] == 'L' && "UR20_16DO_P_PLC_INT"@[14] == 'C' && "UR20_16DO_P_PLC_INT"@[15] == '_' && "UR20_16DO_P_PLC_INT"@[16] == 'I' && "UR20_16DO_P_PLC_INT"@[17] == 'N' && "UR20_16DO_P_PLC_INT"@[18] == 'T');
    assert("UR20_4DO_N"@.len() == 10 && "UR20_4DO_N"@[5] == '4' && "UR20_4DO_N"@[6] == 'D' && "UR20_4DO_N"@[7] == 'O' && "UR20_4DO_N"@[8] == '_' && "UR20_4DO_N"@[9] == 'N');
    assert("UR20_4DO_N_2A"@.len() == 13 && "UR20_4DO_N_2A"@[5] == '4' && "UR20_4DO_N_2A"@[6] == 'D' && "UR20_4DO_N_2A"@[7] == 'O' && "UR20_4DO_N_2A"@[8] == '_' && "UR20_4DO_N_2A"@[9] == 'N' && "UR20_4DO_N_2A"@[10] == '_' && "UR20_4DO_N_2A"@[11] == '2' && "UR20_4DO_N_2A"@[12] == 'A');
    assert("UR20_8DO_N"@.len() == 10 && "UR20_8DO_N"@[5] == '8' && "UR20_8DO_N"@[6] == 'D' && "UR20_8DO_N"@[7] == 'O' && "UR20_8DO_N"@[8] == '_' && "UR20_8DO_N"@[9] == 'N');
    assert("UR20_16DO_N"@.len() == 11 && "UR20_16DO_N"@[5] == '1' && "UR20_16DO_N"@[6] == '6' && "UR20_16DO_N"@[7] == 'D' && "UR20_16DO_N"@[8] == 'O' && "UR20_16DO_N"@[9] == '_' && "UR20_16DO_N"@[10] == 'N');
    assert("UR20_16DO_N_PLC_INT"@.len() == 19 && "UR20_16DO_N_PLC_INT"@[5] == '1' && "UR20_16DO_N_PLC_INT"@[6] == '6' && "UR20_16DO_N_PLC_INT"@[7] == 'D' && "UR20_16DO_N_PLC_INT"@[8] == 'O' && "UR20_16DO_N_PLC_INT"@[9] == '_' && "UR20_16DO_N_PLC_INT"@[10] == 'N' && "UR20_16DO_N_PLC_INT"@[11] == '_' && "UR20_16DO_N_PLC_INT"@[12] == 'P' && "UR20_16DO_N_PLC_INT"@[13] == 'L' && "UR20_16DO_N_PLC_INT"@[14] == 'C' && "UR20_16DO_N_PLC_INT"@[15] == '_' && "UR20_16DO_N_PLC_INT"@[16] == 'I' && "UR20_16DO_N_PLC_INT"@[17] == 'N' && "UR20_16DO_N_PLC_INT"@[18] == 'T');
    assert("UR20_4RO_SSR_255"@.len() == 16 && "UR20_4RO_SSR_255"@[5] == '4' && "UR20_4RO_SSR_255"@[6] == 'R' && "UR20_4RO_SSR_255"@[7] == 'O' && "UR20_4RO_SSR_255"@[8] == '_' && "UR20_4RO_SSR_255"@[9] == 'S' && "UR20_4RO_SSR_255"@[10] == 'S' && "UR20_4RO_SSR_255"@[11] == 'R' && "UR20_4RO_SSR_255"@[12] == '_' && "UR20_4RO_SSR_255"@[13] == '2' && "UR20_4RO_SSR_255"@[14] == '5' && "UR20_4RO_SSR_255"@[15] == '5');
    assert("UR20_4RO_CO_255"@.len() == 15 && "UR20_4RO_CO_255"@[5] == '4' && "UR20_4RO_CO_255"@[6] == 'R' && "UR20_4RO_CO_255"@[7] == 'O' && "UR20_4RO_CO_255"@[8] == '_' && "UR20_4RO_CO_255"@[9] == 'C' && "UR20_4RO_CO_255"@[10] == 'O' && "UR20_4RO_CO_255"@[11] == '_' && "UR20_4RO_CO_255"@[12] == '2' && "UR20_4RO_CO_255"@[13] == '5' && "UR20_4RO_CO_255"@[14] == '5');
    assert("UR20_2PWM_PN_0_5A"@.len() == 17 && "UR20_2PWM_PN_0_5A"@[5] == '2' && "UR20_2PWM_PN_0_5A"@[6] == 'P' && "UR20_2PWM_PN_0_5A"@[7] == 'W' && "UR20_2PWM_PN_0_5A"@[8] == 'M' && "UR20_2PWM_PN_0_5A"@[9] == '_' && "UR20_2PWM_PN_0_5A"@[10] == 'P' && "UR20_2PWM_PN_0_5A"@[11] == 'N' && "UR20_2PWM_PN_0_5A"@[12] == '_' && "UR20_2PWM_PN_0_5A"@[13] == '0' && "UR20_2PWM_PN_0_5A"@[14] == '_' && "UR20_2PWM_PN_0_5A"@[15] == '5' && "UR20_2PWM_PN_0_5A"@[16] == 'A');
    assert("UR20_2PWM_PN_2A"@.len() == 15 && "UR20_2PWM_PN_2A"@[5] == '2' && "UR20_2PWM_PN_2A"@[6] == 'P' && "UR20_2PWM_PN_2A"@[7] == 'W' && "UR20_2PWM_PN_2A"@[8] == 'M' && "UR20_2PWM_PN_2A"@[9] == '_' && "UR20_2PWM_PN_2A"@[10] == 'P' && "UR20_2PWM_PN_2A"@[11] == 'N' && "UR20_2PWM_PN_2A"@[12] == '_' && "UR20_2PWM_PN_2A"@[13] == '2' && "UR20_2PWM_PN_2A"@[14] == 'A');
    assert("UR20_4AI_UI_16"@.len() == 14 && "UR20_4AI_UI_16"@[5] == '4' && "UR20_4AI_UI_16"@[6] == 'A' && "UR20_4AI_UI_16"@[7] == 'I' && "UR20_4AI_UI_16"@[8] == '_' && "UR20_4AI_UI_16"@[9] == 'U' && "UR20_4AI_UI_16"@[10] == 'I' && "UR20_4AI_UI_16"@[11] == '_' && "UR20_4AI_UI_16"@[12] == '1' && "UR20_4AI_UI_16"@[13] == '6');
    assert("UR20_4AI_UI_16_DIAG"@.len() == 19 && "UR20_4AI_UI_16_DIAG"@[5] == '4' && "UR20_4AI_UI_16_DIAG"@[6] == 'A' && "UR20_4AI_UI_16_DIAG"@[7] == 'I' && "UR20_4AI_UI_16_DIAG"@[8] == '_' && "UR20_4AI_UI_16_DIAG"@[9] == 'U' && "UR20_4AI_UI_16_DIAG"@[10] == 'I' && "UR20_4AI_UI_16_DIAG"@[11] == '_' && "UR20_4AI_UI_16_DIAG"@[12] == '1' && "UR20_4AI_UI_16_DIAG"@[13] == '6' && "UR20_4AI_UI_16_DIAG"@[14] == '_' && "UR20_4AI_UI_16_DIAG"@[15] == 'D' && "UR20_4AI_UI_16_DIAG"@[16] == 'I' && "UR20_4AI_UI_16_DIAG"@[17] == 'A' && "UR20_4AI_UI_16_DIAG"@[18] == 'G');
    assert("UR20_4AI_UI_DIF_16_DIAG"@.len() == 23 && "UR20_4AI_UI_DIF_16_DIAG"@[5] == '4' && "UR20_4AI_UI_DIF_16_DIAG"@[6] == 'A' && "UR20_4AI_UI_DIF_16_DIAG"@[7] == 'I' && "UR20_4AI_UI_DIF_16_DIAG"@[8] == '_' && "UR20_4AI_UI_DIF_16_DIAG"@[9] == 'U' && "UR20_4AI_UI_DIF_16_DIAG"@[10] == 'I' && "UR20_4AI_UI_DIF_16_DIAG"@[11] == '_' && "UR20_4AI_UI_DIF_16_DIAG"@[12] == 'D' && "UR20_4AI_UI_DIF_16_DIAG"@[13] == 'I' && "UR20_4AI_UI_DIF_16_DIAG"@[14] == 'F' && "UR20_4AI_UI_DIF_16_DIAG"@[15] == '_' && "UR20_4AI_UI_DIF_16_DIAG"@[16] == '1' && "UR20_4AI_UI_DIF_16_DIAG"@[17] == '6' && "UR20_4AI_UI_DIF_16_DIAG"@[18] == '_' && "UR20_4AI_UI_DIF_16_DIAG"@[19] == 'D' && "UR20_4AI_UI_DIF_16_DIAG"@[20] == 'I' && "UR20_4AI_UI_DIF_16_DIAG"@[21] == 'A' && "UR20_4AI_UI_DIF_16_DIAG"@[22] == 'G');
    assert("UR20_4AI_UI_16_HD"@.len() == 17 && "UR20_4AI_UI_16_HD"@[5] == '4' && "UR20_4AI_UI_16_HD"@[6] == 'A' && "UR20_4AI_UI_16_HD"@[7] == 'I' && "UR20_4AI_UI_16_HD"@[8] == '_' && "UR20_4AI_UI_16_HD"@[9] == 'U' && "UR20_4AI_UI_16_HD"@[10] == 'I' && "UR20_4AI_UI_16_HD"@[11] == '_' && "UR20_4AI_UI_16_HD"@[12] == '1' && "UR20_4AI_UI_16_HD"@[13] == '6' && "UR20_4AI_UI_16_HD"@[14] == '_' && "UR20_4AI_UI_16_HD"@[15] == 'H' && "UR20_4AI_UI_16_HD"@[16] == 'D');
    assert("UR20_4AI_UI_16_DIAG_HD"@.len() == 22 && "UR20_4AI_UI_16_DIAG_HD"@[5] == '4' && "UR20_4AI_UI_16_DIAG_HD"@[6] == 'A' && "UR20_4AI_UI_16_DIAG_HD"@[7] == 'I' && "UR20_4AI_UI_16_DIAG_HD"@[8] == '_' && "UR20_4AI_UI_16_DIAG_HD"@[9] == 'U' && "UR20_4AI_UI_16_DIAG_HD"@[10] == 'I' && "UR20_4AI_UI_16_DIAG_HD"@[11] == '_' && "UR20_4AI_UI_16_DIAG_HD"@[12] == '1' && "UR20_4AI_UI_16_DIAG_HD"@[13] == '6' && "UR20_4AI_UI_16_DIAG_HD"@[14] == '_' && "UR20_4AI_UI_16_DIAG_HD"@[15] == 'D' && "UR20_4AI_UI_16_DIAG_HD"@[16] == 'I' && "UR20_4AI_UI_16_DIAG_HD"@[17] == 'A' && "UR20_4AI_UI_16_DIAG_HD"@[18] == 'G' && "UR20_4AI_UI_16_DIAG_HD"@[19] == '_' && "UR20_4AI_UI_16_DIAG_HD"@[20] == 'H' && "UR20_4AI_UI_16_DIAG_HD"@[21] == 'D');
    assert("UR20_4AI_UI_12"@.len() == 14 && "UR20_4AI_UI_12"@[5] == '4' && "UR20_4AI_UI_12"@[6] == 'A' && "UR20_4AI_UI_12"@[7] == 'I' && "UR20_4AI_UI_12"@[8] == '_' && "UR20_4AI_UI_12"@[9] == 'U' && "UR20_4AI_UI_12"@[10] == 'I' && "UR20_4AI_UI_12"@[11] == '_' && "UR20_4AI_UI_12"@[12] == '1' && "UR20_4AI_UI_12"@[13] == '2');
    assert("UR20_8AI_I_16_HD"@.len() == 16 && "UR20_8AI_I_16_HD"@[5] == '8' && "UR20_8AI_I_16_HD"@[6] == 'A' && "UR20_8AI_I_16_HD"@[7] == 'I' && "UR20_8AI_I_16_HD"@[8] == '_' && "UR20_8AI_I_16_HD"@[9] == 'I' && "UR20_8AI_I_16_HD"@[10] == '_' && "UR20_8AI_I_16_HD"@[11] == '1' && "UR20_8AI_I_16_HD"@[12] == '6' && "UR20_8AI_I_16_HD"@[13] == '_' && "UR20_8AI_I_16_HD"@[14] == 'H' && "UR20_8AI_I_16_HD"@[15] == 'D');
    assert("UR20_8AI_I_16_DIAG_HD"@.len() == 21 && "UR20_8AI_I_16_DIAG_HD"@[5] == '8' && "UR20_8AI_I_16_DIAG_HD"@[6] == 'A' && "UR20_8AI_I_16_DIAG_HD"@[7] == 'I' && "UR20_8AI_I_16_DIAG_HD"@[8] == '_' && "UR20_8AI_I_16_DIAG_HD"@[9] == 'I' && "UR20_8AI_I_16_DIAG_HD"@[10] == '_' && "UR20_8AI_I_16_DIAG_HD"@[11] == '1' && "UR20_8AI_I_16_DIAG_HD"@[12] == '6' && "UR20_8AI_I_16_DIAG_HD"@[13] == '_' && "UR20_8AI_I_16_DIAG_HD"@[14] == 'D' && "UR20_8AI_I_16_DIAG_HD"@[15] == 'I' && "UR20_8AI_I_16_DIAG_HD"@[16] == 'A' && "UR20_8AI_I_16_DIAG_HD"@[17] == 'G' && "UR20_8AI_I_16_DIAG_HD"@[18] == '_' && "UR20_8AI_I_16_DIAG_HD"@[19] == 'H' && "UR20_8AI_I_16_DIAG_HD"@[20] == 'D');
    assert("UR20_8AI_I_PLC_INT"@.len() == 18 && "UR20_8AI_I_PLC_INT"@[5] == '8' && "UR20_8AI_I_PLC_INT"@[6] == 'A' && "UR20_8AI_I_PLC_INT"@[7] == 'I' && "UR20_8AI_I_PLC_INT"@[8] == '_' && "UR20_8AI_I_PLC_INT"@[9] == 'I' && "UR20_8AI_I_PLC_INT"@[10] == '_' && "UR20_8AI_I_PLC_INT"@[11] == 'P' && "UR20_8AI_I_PLC_INT"@[12] == 'L' && "UR20_8AI_I_PLC_INT"@[13] == 'C' && "UR20_8AI_I_PLC_INT"@[14] == '_' && "UR20_8AI_I_PLC_INT"@[15] == 'I' && "UR20_8AI_I_PLC_INT"@[16] == 'N' && "UR20_8AI_I_PLC_INT"@[17] == 'T');
    assert("UR20_4AI_R_HS_16_DIAG"@.len() == 21 && "UR20_4AI_R_HS_16_DIAG"@[5] == '4' && "UR20_4AI_R_HS_16_DIAG"@[6] == 'A' && "UR20_4AI_R_HS_16_DIAG"@[7] == 'I' && "UR20_4AI_R_HS_16_DIAG"@[8] == '_' && "UR20_4AI_R_HS_16_DIAG"@[9] == 'R' && "UR20_4AI_R_HS_16_DIAG"@[10] == '_' && "UR20_4AI_R_HS_16_DIAG"@[11] == 'H' && "UR20_4AI_R_HS_16_DIAG"@[12] == 'S' && "UR20_4AI_R_HS_16_DIAG"@[13] == '_' && "UR20_4AI_R_HS_16_DIAG"@[14] == '1' && "UR20_4AI_R_HS_16_DIAG"@[15] == '6' && "UR20_4AI_R_HS_16_DIAG"@[16] == '_' && "UR20_4AI_R_HS_16_DIAG"@[17] == 'D' && "UR20_4AI_R_HS_16_DIAG"@[18] == 'I' && "UR20_4AI_R_HS_16_DIAG"@[19] == 'A' && "UR20_4AI_R_HS_16_DIAG"@[20] == 'G');
    assert("UR20_2AI_SG_24_DIAG"@.len() == 19 && "UR20_2AI_SG_24_DIAG"@[5] == '2' && "UR20_2AI_SG_24_DIAG"@[6] == 'A' && "UR20_2AI_SG_24_DIAG"@[7] == 'I' && "UR20_2AI_SG_24_DIAG"@[8] == '_' && "UR20_2AI_SG_24_DIAG"@[9] == 'S' && "UR20_2AI_SG_24_DIAG"@[10] == 'G' && "UR20_2AI_SG_24_DIAG"@[11] == '_' && "UR20_2AI_SG_24_DIAG"@[12] == '2' && "UR20_2AI_SG_24_DIAG"@[13] == '4' && "UR20_2AI_SG_24_DIAG"@[14] == '_' && "UR20_2AI_SG_24_DIAG"@[15] == 'D' && "UR20_2AI_SG_24_DIAG"@[16] == 'I' && "UR20_2AI_SG_24_DIAG"@[17] == 'A' && "UR20_2AI_SG_24_DIAG"@[18] == 'G');
    assert("UR20_3EM_230V_AC"@.len() == 16 && "UR20_3EM_230V_AC"@[5] == '3' && "UR20_3EM_230V_AC"@[6] == 'E' && "UR20_3EM_230V_AC"@[7] == 'M' && "UR20_3EM_230V_AC"@[8] == '_' && "UR20_3EM_230V_AC"@[9] == '2' && "UR20_3EM_230V_AC"@[10] == '3' && "UR20_3EM_230V_AC"@[11] == '0' && "UR20_3EM_230V_AC"@[12] == 'V' && "UR20_3EM_230V_AC"@[13] == '_' && "UR20_3EM_230V_AC"@[14] == 'A' && "UR20_3EM_230V_AC"@[15] == 'C');
    assert("UR20_4AO_UI_16"@.len() == 14 && "UR20_4AO_UI_16"@[5] == '4' && "UR20_4AO_UI_16"@[6] == 'A' && "UR20_4AO_UI_16"@[7] == 'O' && "UR20_4AO_UI_16"@[8] == '_' && "UR20_4AO_UI_16"@[9] == 'U' && "UR20_4AO_UI_16"@[10] == 'I' && "UR20_4AO_UI_16"@[11] == '_' && "UR20_4AO_UI_16"@[12] == '1' && "UR20_4AO_UI_16"@[13] == '6');
    assert("UR20_4AO_UI_16_M"@.len() == 16 && "UR20_4AO_UI_16_M"@[5] == '4' && "UR20_4AO_UI_16_M"@[6] == 'A' && "UR20_4AO_UI_16_M"@[7] == 'O' && "UR20_4AO_UI_16_M"@[8] == '_' && "UR20_4AO_UI_16_M"@[9] == 'U' && "UR20_4AO_UI_16_M"@[10] == 'I' && "UR20_4AO_UI_16_M"@[11] == '_' && "UR20_4AO_UI_16_M"@[12] == '1' && "UR20_4AO_UI_16_M"@[13] == '6' && "UR20_4AO_UI_16_M"@[14] == '_' && "UR20_4AO_UI_16_M"@[15] == 'M');
    assert("UR20_4AO_UI_16_DIAG"@.len() == 19 && "UR20_4AO_UI_16_DIAG"@[5] == '4' && "UR20_4AO_UI_16_DIAG"@[6] == 'A' && "UR20_4AO_UI_16_DIAG"@[7] == 'O' && "UR20_4AO_UI_16_DIAG"@[8] == '_' && "UR20_4AO_UI_16_DIAG"@[9] == 'U' && "UR20_4AO_UI_16_DIAG"@[10] == 'I' && "UR20_4AO_UI_16_DIAG"@[11] == '_' && "UR20_4AO_UI_16_DIAG"@[12] == '1' && "UR20_4AO_UI_16_DIAG"@[13] == '6' && "UR20_4AO_UI_16_DIAG"@[14] == '_' && "UR20_4AO_UI_16_DIAG"@[15] == 'D' && "UR20_4AO_UI_16_DIAG"@[16] == 'I' && "UR20_4AO_UI_16_DIAG"@[17] == 'A' && "UR20_4AO_UI_16_DIAG"@[18] == 'G');
    assert("UR20_4AO_UI_16_M_DIAG"@.len() == 21 && "UR20_4AO_UI_16_M_DIAG"@[5] == '4' && "UR20_4AO_UI_16_M_DIAG"@[6] == 'A' && "UR20_4AO_UI_16_M_DIAG"@[7] == 'O' && "UR20_4AO_UI_16_M_DIAG"@[8] == '_' && "UR20_4AO_UI_16_M_DIAG"@[9] == 'U' && "UR20_4AO_UI_16_M_DIAG"@[10] == 'I' && "UR20_4AO_UI_16_M_DIAG"@[11] == '_' && "UR20_4AO_UI_16_M_DIAG"@[12] == '1' && "UR20_4AO_UI_16_M_DIAG"@[13] == '6' && "UR20_4AO_UI_16_M_DIAG"@[14] == '_' && "UR20_4AO_UI_16_M_DIAG"@[15] == 'M' && "UR20_4AO_UI_16_M_DIAG"@[16] == '_' && "UR20_4AO_UI_16_M_DIAG"@[17] == 'D' && "UR20_4AO_UI_16_M_DIAG"@[18] == 'I' && "UR20_4AO_UI_16_M_DIAG"@[19] == 'A' && "UR20_4AO_UI_16_M_DIAG"@[20] == 'G');
    assert("UR20_4AO_UI_16_HD"@.len() == 17 && "UR20_4AO_UI_16_HD"@[5] == '4' && "UR20_4AO_UI_16_HD"@[6] == 'A' && "UR20_4AO_UI_16_HD"@[7] == 'O' && "UR20_4AO_UI_16_HD"@[8] == '_' && "UR20_4AO_UI_16_HD"@[9] == 'U' && "UR20_4AO_UI_16_HD"@[10] == 'I' && "UR20_4AO_UI_16_HD"@[11] == '_' && "UR20_4AO_UI_16_HD"@[12] == '1' && "UR20_4AO_UI_16_HD"@[13] == '6' && "UR20_4AO_UI_16_HD"@[14] == '_' && "UR20_4AO_UI_16_HD"@[15] == 'H' && "UR20_4AO_UI_16_HD"@[16] == 'D');
    assert("UR20_4AO_UI_16_DIAG_HD"@.len() == 22 && "UR20_4AO_UI_16_DIAG_HD"@[5] == '4' && "UR20_4AO_UI_16_DIAG_HD"@[6] == 'A' && "UR20_4AO_UI_16_DIAG_HD"@[7] == 'O' && "UR20_4AO_UI_16_DIAG_HD"@[8] == '_' && "UR20_4AO_UI_16_DIAG_HD"@[9] == 'U' && "UR20_4AO_UI_16_DIAG_HD"@[10] == 'I' && "UR20_4AO_UI_16_DIAG_HD"@[11] == '_' && "UR20_4AO_UI_16_DIAG_HD"@[12] == '1' && "UR20_4AO_UI_16_DIAG_HD"@[13] == '6' && "UR20_4AO_UI_16_DIAG_HD"@[14] == '_' && "UR20_4AO_UI_16_DIAG_HD"@[15] == 'D' && "UR20_4AO_UI_16_DIAG_HD"@[16] == 'I' && "UR20_4AO_UI_16_DIAG_HD"@[17] == 'A' && "UR20_4AO_UI_16_DIAG_HD"@[18] == 'G' && "UR20_4AO_UI_16_DIAG_HD"@[19] == '_' && "UR20_4AO_UI_16_DIAG_HD"@[20] == 'H' && "UR20_4AO_UI_16_DIAG_HD"@[21] == 'D');
    assert("UR20_1CNT_100_1DO"@.len() == 17 && "UR20_1CNT_100_1DO"@[5] == '1' && "UR20_1CNT_100_1DO"@[6] == 'C' && "UR20_1CNT_100_1DO"@[7] == 'N' && "UR20_1CNT_100_1DO"@[8] == 'T' && "UR20_1CNT_100_1DO"@[9] == '_' && "UR20_1CNT_100_1DO"@[10] == '1' && "UR20_1CNT_100_1DO"@[11] == '0' && "UR20_1CNT_100_1DO"@[12] == '0' && "UR20_1CNT_100_1DO"@[13] == '_' && "UR20_1CNT_100_1DO"@[14] == '1' && "UR20_1CNT_100_1DO"@[15] == 'D' && "UR20_1CNT_100_1DO"@[16] == 'O');
    assert("UR20_2CNT_100"@.len() == 13 && "UR20_2CNT_100"@[5] == '2' && "UR20_2CNT_100"@[6] == 'C' && "UR20_2CNT_100"@[7] == 'N' && "UR20_2CNT_100"@[8] == 'T' && "UR20_2CNT_100"@[9] == '_' && "UR20_2CNT_100"@[10] == '1' && "UR20_2CNT_100"@[11] == '0' && "UR20_2CNT_100"@[12] == '0');
    assert("UR20_1CNT_500"@.len() == 13 && "UR20_1CNT_500"@[5] == '1' && "UR20_1CNT_500"@[6] == 'C' && "UR20_1CNT_500"@[7] == 'N' && "UR20_1CNT_500"@[8] == 'T' && "UR20_1CNT_500"@[9] == '_' && "UR20_1CNT_500"@[10] == '5' && "UR20_1CNT_500"@[11] == '0' && "UR20_1CNT_500"@[12] == '0');
    assert("UR20_2FCNT_100"@.len() == 14 && "UR20_2FCNT_100"@[5] == '2' && "UR20_2FCNT_100"@[6] == 'F' && "UR20_2FCNT_100"@[7] == 'C' && "UR20_2FCNT_100"@[8] == 'N' && "UR20_2FCNT_100"@[9] == 'T' && "UR20_2FCNT_100"@[10] == '_' && "UR20_2FCNT_100"@[11] == '1' && "UR20_2FCNT_100"@[12] == '0' && "UR20_2FCNT_100"@[13] == '0');
    assert("UR20_1SSI"@.len() == 9 && "UR20_1SSI"@[5] == '1' && "UR20_1SSI"@[6] == 'S' && "UR20_1SSI"@[7] == 'S' && "UR20_1SSI"@[8] == 'I');
    assert("UR20_1COM_232_485_422"@.len() == 21 && "UR20_1COM_232_485_422"@[5] == '1' && "UR20_1COM_232_485_422"@[6] == 'C' && "UR20_1COM_232_485_422"@[7] == 'O' && "UR20_1COM_232_485_422"@[8] == 'M' && "UR20_1COM_232_485_422"@[9] == '_' && "UR20_1COM_232_485_422"@[10] == '2' && "UR20_1COM_232_485_422"@[11] == '3' && "UR20_1COM_232_485_422"@[12] == '2' && "UR20_1COM_232_485_422"@[13] == '_' && "UR20_1COM_232_485_422"@[14] == '4' && "UR20_1COM_232_485_422"@[15] == '8' && "UR20_1COM_232_485_422"@[16] == '5' && "UR20_1COM_232_485_422"@[17] == '_' && "UR20_1COM_232_485_422"@[18] == '4' && "UR20_1COM_232_485_422"@[19] == '2' && "UR20_1COM_232_485_422"@[20] == '2');
    assert("UR20_1COM_SAI_PRO"@.len() == 17 && "UR20_1COM_SAI_PRO"@[5] == '1' && "UR20_1COM_SAI_PRO"@[6] == 'C' && "UR20_1COM_SAI_PRO"@[7] == 'O' && "UR20_1COM_SAI_PRO"@[8] == 'M' && "UR20_1COM_SAI_PRO"@[9] == '_' && "UR20_1COM_SAI_PRO"@[10] == 'S' && "UR20_1COM_SAI_PRO"@[11] == 'A' && "UR20_1COM_SAI_PRO"@[12] == 'I' && "UR20_1COM_SAI_PRO"@[13] == '_' && "UR20_1COM_SAI_PRO"@[14] == 'P' && "UR20_1COM_SAI_PRO"@[15] == 'R' && "UR20_1COM_SAI_PRO"@[16] == 'O');
    assert("UR20_4COM_IO_LINK"@.len() == 17 && "UR20_4COM_IO_LINK"@[5] == '4' && "UR20_4COM_IO_LINK"@[6] == 'C' && "UR20_4COM_IO_LINK"@[7] == 'O' && "UR20_4COM_IO_LINK"@[8] == 'M' && "UR20_4COM_IO_LINK"@[9] == '_' && "UR20_4COM_IO_LINK"@[10] == 'I' && "UR20_4COM_IO_LINK"@[11] == 'O' && "UR20_4COM_IO_LINK"@[12] == '_' && "UR20_4COM_IO_LINK"@[13] == 'L' && "UR20_4COM_IO_LINK"@[14] == 'I' && "UR20_4COM_IO_LINK"@[15] == 'N' && "UR20_4COM_IO_LINK"@[16] == 'K');
    assert("UR20_4AI_RTD_DIAG"@.len() == 17 && "UR20_4AI_RTD_DIAG"@[5] == '4' && "UR20_4AI_RTD_DIAG"@[6] == 'A' && "UR20_4AI_RTD_DIAG"@[7] == 'I' && "UR20_4AI_RTD_DIAG"@[8] == '_' && "UR20_4AI_RTD_DIAG"@[9] == 'R' && "UR20_4AI_RTD_DIAG"@[10] == 'T' && "UR20_4AI_RTD_DIAG"@[11] == 'D' && "UR20_4AI_RTD_DIAG"@[12] == '_' && "UR20_4AI_RTD_DIAG"@[13] == 'D' && "UR20_4AI_RTD_DIAG"@[14] == 'I' && "UR20_4AI_RTD_DIAG"@[15] == 'A' && "UR20_4AI_RTD_DIAG"@[16] == 'G');
    assert("UR20_4AI_TC_DIAG"@.len() == 16 && "UR20_4AI_TC_DIAG"@[5] == '4' && "UR20_4AI_TC_DIAG"@[6] == 'A' && "UR20_4AI_TC_DIAG"@[7] == 'I' && "UR20_4AI_TC_DIAG"@[8] == '_' && "UR20_4AI_TC_DIAG"@[9] == 'T' && "UR20_4AI_TC_DIAG"@[10] == 'C' && "UR20_4AI_TC_DIAG"@[11] == '_' && "UR20_4AI_TC_DIAG"@[12] == 'D' && "UR20_4AI_TC_DIAG"@[13] == 'I' && "UR20_4AI_TC_DIAG"@[14] == 'A' && "UR20_4AI_TC_DIAG"@[15] == 'G');
    assert("UR20_PF_I"@.len() == 9 && "UR20_PF_I"@[5] == 'P' && "UR20_PF_I"@[6] == 'F' && "UR20_PF_I"@[7] == '_' && "UR20_PF_I"@[8] == 'I');
    assert("UR20_PF_O"@.len() == 9 && "UR20_PF_O"@[5] == 'P' && "UR20_PF_O"@[6] == 'F' && "UR20_PF_O"@[7] == '_' && "UR20_PF_O"@[8] == 'O');
    assert("UR20_PF_O_1DI_SIL"@.len() == 17 && "UR20_PF_O_1DI_SIL"@[5] == 'P' && "UR20_PF_O_1DI_SIL"@[6] == 'F' && "UR20_PF_O_1DI_SIL"@[7] == '_' && "UR20_PF_O_1DI_SIL"@[8] == 'O' && "UR20_PF_O_1DI_SIL"@[9] == '_' && "UR20_PF_O_1DI_SIL"@[10] == '1' && "UR20_PF_O_1DI_SIL"@[11] == 'D' && "UR20_PF_O_1DI_SIL"@[12] == 'I' && "UR20_PF_O_1DI_SIL"@[13] == '_' && "UR20_PF_O_1DI_SIL"@[14] == 'S' && "UR20_PF_O_1DI_SIL"@[15] == 'I' && "UR20_PF_O_1DI_SIL"@[16] == 'L');
    assert("UR20_PF_O_2DI_SIL"@.len() == 17 && "UR20_PF_O_2DI_SIL"@[5] == 'P' && "UR20_PF_O_2DI_SIL"@[6] == 'F' && "UR20_PF_O_2DI_SIL"@[7] == '_' && "UR20_PF_O_2DI_SIL"@[8] == 'O' && "UR20_PF_O_2DI_SIL"@[9] == '_' && "UR20_PF_O_2DI_SIL"@[10] == '2' && "UR20_PF_O_2DI_SIL"@[11] == 'D' && "UR20_PF_O_2DI_SIL"@[12] == 'I' && "UR20_PF_O_2DI_SIL"@[13] == '_' && "UR20_PF_O_2DI_SIL"@[14] == 'S' && "UR20_PF_O_2DI_SIL"@[15] == 'I' && "UR20_PF_O_2DI_SIL"@[16] == 'L');
    assert("UR20_PF_O_2DI_DELAY_SIL"@.len() == 23 && "UR20_PF_O_2DI_DELAY_SIL"@[5] == 'P' && "UR20_PF_O_2DI_DELAY_SIL"@[6] == 'F' && "UR20_PF_O_2DI_DELAY_SIL"@[7] == '_' && "UR20_PF_O_2DI_DELAY_SIL"@[8] == 'O' && "UR20_PF_O_2DI_DELAY_SIL"@[9] == '_' && "UR20_PF_O_2DI_DELAY_SIL"@[10] == '2' && "UR20_PF_O_2DI_DELAY_SIL"@[11] == 'D' && "UR20_PF_O_2DI_DELAY_SIL"@[12] == 'I' && "UR20_PF_O_2DI_DELAY_SIL"@[13] == '_' && "UR20_PF_O_2DI_DELAY_SIL"@[14] == 'D' && "UR20_PF_O_2DI_DELAY_SIL"@[15] == 'E' && "UR20_PF_O_2DI_DELAY_SIL"@[16] == 'L' && "UR20_PF_O_2DI_DELAY_SIL"@[17] == 'A' && "UR20_PF_O_2DI_DELAY_SIL"@[18] == 'Y' && "UR20_PF_O_2DI_DELAY_SIL"@[19] == '_' && "UR20_PF_O_2DI_DELAY_SIL"@[20] == 'S' && "UR20_PF_O_2DI_DELAY_SIL"@[21] == 'I' && "UR20_PF_O_2DI_DELAY_SIL"@[22] == 'L');
}
pub proof fn named() ensures
    ModuleType::UR20_4DI_P.name() == "UR20_4DI_P"@,
    ModuleType::UR20_4DI_P_3W.name() == "UR20_4DI_P_3W"@,
    ModuleType::UR20_8DI_P_2W.name() == "UR20_8DI_P_2W"@,
    ModuleType::UR20_8DI_P_3W.name() == "UR20_8DI_P_3W"@,
    ModuleType::UR20_8DI_P_3W_HD.name() == "UR20_8DI_P_3W_HD"@,
    ModuleType::UR20_16DI_P.name() == "UR20_16DI_P"@,
    ModuleType::UR20_16DI_P_PLC_INT.name() == "UR20_16DI_P_PLC_INT"@,
    ModuleType::UR20_2DI_P_TS.name() == "UR20_2DI_P_TS"@,
    ModuleType::UR20_4DI_P_TS.name() == "UR20_4DI_P_TS"@,
    ModuleType::UR20_4DI_N.name() == "UR20_4DI_N"@,
    ModuleType::UR20_8DI_N_3W.name() == "UR20_8DI_N_3W"@,
    ModuleType::UR20_16DI_N.name() == "UR20_16DI_N"@,
    ModuleType::UR20_16DI_N_PLC_INT.name() == "UR20_16DI_N_PLC_INT"@,
    ModuleType::UR20_4DI_2W_230V_AC.name() == "UR20_4DI_2W_230V_AC"@,
    ModuleType::UR20_4DO_P.name() == "UR20_4DO_P"@,
    ModuleType::UR20_4DO_P_2A.name() == "UR20_4DO_P_2A"@,
    ModuleType::UR20_4DO_PN_2A.name() == "UR20_4DO_PN_2A"@,
    ModuleType::UR20_8DO_P.name() == "UR20_8DO_P"@,
    ModuleType::UR20_8DO_P_2W_HD.name() == "UR20_8DO_P_2W_HD"@,
    ModuleType::UR20_16DO_P.name() == "UR20_16DO_P"@,
    ModuleType::UR20_16DO_P_PLC_INT.name() == "UR20_16DO_P_PLC_INT"@,
    ModuleType::UR20_4DO_N.name() == "UR20_4DO_N"@,
    ModuleType::UR20_4DO_N_2A.name() == "UR20_4DO_N_2A"@,
    ModuleType::UR20_8DO_N.name() == "UR20_8DO_N"@,
    ModuleType::UR20_16DO_N.name() == "UR20_16DO_N"@,
    ModuleType::UR20_16DO_N_PLC_INT.name() == "UR20_16DO_N_PLC_INT"@,
    ModuleType::UR20_4RO_SSR_255.name() == "UR20_4RO_SSR_255"@,
    ModuleType::UR20_4RO_CO_255.name() == "UR20_4RO_CO_255"@,
    ModuleType::UR20_2PWM_PN_0_5A.name() == "UR20_2PWM_PN_0_5A"@,
    ModuleType::UR20_2PWM_PN_2A.name() == "UR20_2PWM_PN_2A"@,
    ModuleType::UR20_4AI_UI_16.name() == "UR20_4AI_UI_16"@,
    ModuleType::UR20_4AI_UI_16_DIAG.name() == "UR20_4AI_UI_16_DIAG"@,
    ModuleType::UR20_4AI_UI_DIF_16_DIAG.name() == "UR20_4AI_UI_DIF_16_DIAG"@,
    ModuleType::UR20_4AI_UI_16_HD.name() == "UR20_4AI_UI_16_HD"@,
    ModuleType::UR20_4AI_UI_16_DIAG_HD.name() == "UR20_4AI_UI_16_DIAG_HD"@,
    ModuleType::UR20_4AI_UI_12.name() == "UR20_4AI_UI_12"@,
    ModuleType::UR20_8AI_I_16_HD.name() == "UR20_8AI_I_16_HD"@,
    ModuleType::UR20_8AI_I_16_DIAG_HD.name() == "UR20_8AI_I_16_DIAG_HD"@,
    ModuleType::UR20_8AI_I_PLC_INT.name() == "UR20_8AI_I_PLC_INT"@,
    ModuleType::UR20_4AI_R_HS_16_DIAG.name() == "UR20_4AI_R_HS_16_DIAG"@,
    ModuleType::UR20_2AI_SG_24_DIAG.name() == "UR20_2AI_SG_24_DIAG"@,
    ModuleType::UR20_3EM_230V_AC.name() == "UR20_3EM_230V_AC"@,
    ModuleType::UR20_4AO_UI_16.name() == "UR20_4AO_UI_16"@,
    ModuleType::UR20_4AO_UI_16_M.name() == "UR20_4AO_UI_16_M"@,
    ModuleType::UR20_4AO_UI_16_DIAG.name() == "UR20_4AO_UI_16_DIAG"@,
    ModuleType::UR20_4AO_UI_16_M_DIAG.name() == "UR20_4AO_UI_16_M_DIAG"@,
    ModuleType::UR20_4AO_UI_16_HD.name() == "UR20_4AO_UI_16_HD"@,
    ModuleType::UR20_4AO_UI_16_DIAG_HD.name() == "UR20_4AO_UI_16_DIAG_HD"@,
    ModuleType::UR20_1CNT_100_1DO.name() == "UR20_1CNT_100_1DO"@,
    ModuleType::UR20_2CNT_100.name() == "UR20_2CNT_100"@,
    ModuleType::UR20_1CNT_500.name() == "UR20_1CNT_500"@,
    ModuleType::UR20_2FCNT_100.name() == "UR20_2FCNT_100"@,
    ModuleType::UR20_1SSI.name() == "UR20_1SSI"@,
    ModuleType::UR20_1COM_232_485_422.name() == "UR20_1COM_232_485_422"@,
    ModuleType::UR20_1COM_SAI_PRO.name() == "UR20_1COM_SAI_PRO"@,
    ModuleType::UR20_4COM_IO_LINK.name() == "UR20_4COM_IO_LINK"@,
    ModuleType::UR20_4AI_RTD_DIAG.name() == "UR20_4AI_RTD_DIAG"@,
    ModuleType::UR20_4AI_TC_DIAG.name() == "UR20_4AI_TC_DIAG"@,
    ModuleType::UR20_PF_I.name() == "UR20_PF_I"@,
    ModuleType::UR20_PF_O.name() == "UR20_PF_O"@,
    ModuleType::UR20_PF_O_1DI_SIL.name() == "UR20_PF_O_1DI_SIL"@,
    ModuleType::UR20_PF_O_2DI_SIL.name() == "UR20_PF_O_2DI_SIL"@,
    ModuleType::UR20_PF_O_2DI_DELAY_SIL.name() == "UR20_PF_O_2DI_DELAY_SIL"@,
{ }
}
impl ModuleCategory {
pub open spec fn name(self) -> Seq<char> {
    match self {
        ModuleCategory::DI => "DI"@,
        ModuleCategory::DO => "DO"@,
        ModuleCategory::AI => "AI"@,
        ModuleCategory::AO => "AO"@,
        ModuleCategory::CNT => "CNT"@,
        ModuleCategory::PWM => "PWM"@,
        ModuleCategory::RTD => "RTD"@,
        ModuleCategory::TC => "TC"@,
        ModuleCategory::COM => "COM"@,
        ModuleCategory::RO => "RO"@,
        ModuleCategory::PF => "PF"@,
    }
}
pub proof fn distinct(a: ModuleCategory, b: ModuleCategory) requires a.name() == b.name() ensures a == b {
    reveal_strlit("DI");
    reveal_strlit("DO");
    reveal_strlit("AI");
    reveal_strlit("AO");
    reveal_strlit("CNT");
    reveal_strlit("PWM");
    reveal_strlit("RTD");
    reveal_strlit("TC");
    reveal_strlit("COM");
    reveal_strlit("RO");
    reveal_strlit("PF");
    assert("DI"@.len() == 2 && "DI"@[0] == 'D' && "DI"@[1] == 'I');
    assert("DO"@.len() == 2 && "DO"@[0] == 'D' && "DO"@[1] == 'O');
    assert("AI"@.len() == 2 && "AI"@[0] == 'A' && "AI"@[1] == 'I');
    assert("AO"@.len() == 2 && "AO"@[0] == 'A' && "AO"@[1] == 'O');
    assert("CNT"@.len() == 3 && "CNT"@[0] == 'C' && "CNT"@[1] == 'N' && "CNT"@[2] == 'T');
    assert("PWM"@.len() == 3 && "PWM"@[0] == 'P' && "PWM"@[1] == 'W' && "PWM"@[2] == 'M');
    assert("RTD"@.len() == 3 && "RTD"@[0] == 'R' && "RTD"@[1] == 'T' && "RTD"@[2] == 'D');
    assert("TC"@.len() == 2 && "TC"@[0] == 'T' && "TC"@[1] == 'C');
    assert("COM"@.len() == 3 && "COM"@[0] == 'C' && "COM"@[1] == 'O' && "COM"@[2] == 'M');
    assert("RO"@.len() == 2 && "RO"@[0] == 'R' && "RO"@[1] == 'O');
    assert("PF"@.len() == 2 && "PF"@[0] == 'P' && "PF"@[1] == 'F');
}
pub proof fn named() ensures
    ModuleCategory::DI.name() == "DI"@,
    ModuleCategory::DO.name() == "DO"@,
    ModuleCategory::AI.name() == "AI"@,
    ModuleCategory::AO.name() == "AO"@,
    ModuleCategory::CNT.name() == "CNT"@,
    ModuleCategory::PWM.name() == "PWM"@,
    ModuleCategory::RTD.name() == "RTD"@,
    ModuleCategory::TC.name() == "TC"@,
    ModuleCategory::COM.name() == "COM"@,
    ModuleCategory::RO.name() == "RO"@,
    ModuleCategory::PF.name() == "PF"@,
{ }
}

} // verus!
