"""What each check runs, and what it assumes."""

import os
import re

ROOT = os.path.dirname(os.path.abspath(__file__))

JOBS = 8
TOTAL = {"quick": 700, "thorough": 850}
TOTAL_HARD = 860
PER_HARNESS = {"quick": 240, "thorough": 600}
SEARCH_TOTAL = {"quick": 6, "thorough": 60}

RANGES = ["ma0to20", "ma4to20", "v0to10", "vminus10to10", "v0to5", "vminus5to5", "v1to5", "v2to10"]

# contracts whose proof takes too long for every change (their native search
# runs in both tiers)
THOROUGH_ONLY = (
    {f"c05_ui12_{r}_s7" for r in RANGES}
    | {f"c06_ao_enc_{r}_s7" for r in RANGES if r not in ("ma4to20", "v2to10")}
    | {f"c06_aod_enc_{r}_s7" for r in RANGES}
    | {f"c06_ao_rt_{r}_s7" for r in RANGES if r not in ("v1to5",)}
    | {f"c06_aod_rt_{r}_s7" for r in RANGES}
    | {f"c06_aod_rt_{r}_s5" for r in RANGES}
    | {"c06_kinds", "c06_kinds_diag"}
    | {"c07_tc_temperature_2"}
    | {f"c07_rtd_r{r}" for r in (80, 150, 300, 1000, 2000)}
    | {f"c07_tc_{r}" for r in ("31250uv", "62500uv", "250mv", "500mv", "1v")}
    | {"c08_value_lists"}
    | {f"c10_encode_8_{n}" for n in range(2, 6)}
    | {f"c10_encode_16_{n}" for n in (2, 3, 4, 5, 6, 8, 9, 10, 11, 12)}
    | {"c14_8ai", "c14_aod", "c14_len_tc"}
    | {f"c14_{m}_subst_{r}_s7" for m in ("ao", "aod") for r in range(6)}
    | {"c18_chain_3", "c18_chain_4", "c18_shared_8"}
    | {"c22_digital", "c22_analog", "c22_other", "c22_invalid_analog"}
    | {"c19_once", "c19_16do", "c19_pair", "c19_twice"}
    | {"c20_shape_8ai", "c20_shape_com", "c20_addresses_analog", "c20_addresses_other"}
)
# the ones of them that run in any tier when Verus does not discharge an
# obligation of a property whose contents Kani decides
ON_REFUTATION = re.compile(r"c06_kinds|c08_value_lists|c10_encode|c14_8ai|c14_aod$|c14_len_tc")
# contracts that Kani does not finish in a useful time: evaluated natively only
# (the same guarantees are proved without bounds by Verus)
NATIVE_ONLY = {"c20_shape_fcnt", "c21_send_first", "c21_send_second", "c21_set_output",
               "c21_receive_first", "c21_receive_second", "c21_report_sent",
               "c22_routing_ai", "c22_routing_digital", "c22_invalid_digital"}
# contracts checked within a stated bound (longer lists, histories or layouts
# exist): reported apart, never counted as proved
BOUNDED = re.compile(
    r"c01_list|_lengths|_len_|_channels_|_value_lists|c06_kinds|c10_short|c10_kinds_more"
    r"|c11_|c12_|c13_b|c13_16|c15_list|c16_offsets|c17_|c18_|c19_|c20_|c21_|c22_|c23_category")
# contracts that replace a function by an assumed contract
STUBBED = {f"c23_names_{i}" for i in range(8)} | {"c23_category_name"}

AI = ["ur20_4ai_ui_16_diag", "ur20_ai_ui_generic", "ur20_8ai_i_16_diag_hd"]
COM = "ur20_1com_232_485_422"

HOOK_COMMITS = ["dd7cc2035316a0bdd8e85275ac4ee37bfb0fbdde"]
# properties without a check
ABSENT = {}

COUPLER = "ur20_fbc_mod_tcp::"
MP = ["MessageProcessor::new", "MessageProcessor::inc_cnt", "MessageProcessor::next", "MessageProcessor::write", "MessageProcessor::flush",
      "MessageProcessor::read", "ProcessDataLength::user_data_len"]
IMAGE = ["u16_to_u8", "u8_to_u16", "shift_data", "to_register_address", "prepare_raw_data_to_process",
         "process_output_values", "process_input_data", "process_output_data"]
CYCLE = ["Coupler::is_valid_addr", "Coupler::set_output", "Coupler::inputs", "Coupler::outputs", "Coupler::next"]

def process(*modules):
    """The data format of modules"""
    return [f"{m}::Mod::{f}" for m in modules for f in (
        "module_type", "process_input_byte_count", "process_output_byte_count",
        "process_input_data", "process_output_data", "process_output_values")]


def parser(*modules):
    """The parameter parsers of modules"""
    return [f"{m}::{f}" for m in modules for f in (
        "parameters_from_raw_data", "Mod::from_modbus_parameter_data", "ChannelParameters::default",
        "ModuleParameters::default", "ChannelParameters::is_enabled")]


BITS = ["bit_mask", "test_bit_16", "test_bit", "set_bit_16", "set_bit"]
CODES = [e + "::from_u16" for e in (
    "InputDelay", "FrequencySuppression", "DataFormat", "AnalogUIRange", "AnalogIRange", "RtdRange", "TemperatureUnit",
    "ConnectionType", "ConversionTime", "InputFilter", "MeasurementRange", "ColdJunctionCompensation", "OperatingMode",
    "DataBits", "BaudRate", "StopBit", "Parity", "FlowControl", "ProcessDataLength")]
FRAMES = ["frames::" + f for f in (
    "cnt_from_status_byte", "cnt_ack_from_status_byte", "cnt_to_status_byte", "cnt_ack_to_status_byte",
    "ProcessInput::try_from_byte_message", "ProcessOutput::try_from_byte_message", "ProcessOutput::try_into_byte_message")]

# what the Verus layer assumes, by what a template uses
STD = "contracts assumed on std in verus/: chunks, to_vec, iter().enumerate(), zip, cmp::min and derived Clone; vstd's specifications of Vec, slices, Option and HashMap"
ORDER = "byteorder's LittleEndian reads and writes a register as low byte, high byte (assumed in Verus; executed as compiled code in Kani)"
MODS = ("modules of the product line: for each of the 18 the contract of a module towards the coupler (trait ProcessModbusTcpData) is discharged in C03 to C10, "
        "a foreign implementation of the trait is assumed to keep it")
FLOATS = "float arithmetic is uninterpreted in Verus: the conversion functions are taken by name there and decided by Kani for every input"
TIME = "core::time::Duration: from_nanos, new, as_secs, subsec_micros and ordering as documented (assumed in Verus; executed as compiled code in Kani)"
BYTEVEC = "two Vec<u8> of equal content are equal (Verus has no extensionality for Vec)"
MAPS = "HashMap<Address, _> obeys the key model (derived Eq and Hash); iteration order is arbitrary"
SIZES = "process images of fewer than 2^16 registers and fewer than 2^16 modules"
BYTES = "module data sizes are 1 or an even number of bytes (all modules of the product line)"
CNT = "confirmed counters are 0..=3 (the two bits of the record, C10)"
WRITE = "Write::write_all is std's provided method: write until nothing is left"

# contents: Kani decides the property for every content of process data and
# parameters; only the lengths of lists are left to Verus and the native search
PROPERTIES = {
    "C01": dict(level="proof", assumptions=[STD],
                verus={"lists": ["ModuleType::try_from_u32", "module_list_from_registers"]}, note='Kani and Verus: all 2^32 ids, with injectivity. Verus: register lists of any length.',
                functions=["ModuleType::try_from_u32", "module_list_from_registers"],
                bounds="ids: none; module list: none in Verus, register lists of up to 7 words in Kani"),
    "C02": dict(level="proof", verus={"lists": ["ModuleType::channel_count", "ModuleCategory::from"]}, note='All 63 module types, exhaustively (Kani and Verus).',
                functions=["ModuleType::channel_count", "ModuleCategory::from(ModuleType)"]),
    "C03": dict(level="proof", contents=True, verus={"digital": BITS + process("di")}, assumptions=[STD], 
                note='Kani and Verus: every register content and delay setting. Verus: register lists of any length.',
                functions=["ur20_di_generic::Mod::process_input_data", "util::test_bit_16"],
                bounds="register lists: none in Verus, up to 3 words in Kani"),
    "C04": dict(level="proof", contents=True, verus={"digital": BITS + process("do", "ro", "16do")}, assumptions=[STD], 
                note='Kani and Verus: every value list and register content, with the round trip. Verus: lists of any length.',
                functions=[
        "process_output_values and process_output_data of ur20_do_generic, ur20_16do_p, ur20_4ro_co_255"],
                bounds="lists: none in Verus; Kani: value lists of up to one more than the channels, register lists of up to 3 words"),
    "C05": dict(level="proof", contents=True, verus={"analog": ["u16_to_analog_ui_value"] + process("ai", "ai_diag", "ai8")}, assumptions=[STD, FLOATS], 
                note='Kani: every raw value, range and format of every channel, in exact arithmetic bounds. Verus: each channel by its own settings from its own register, lists of any length.',
                functions=[m + "::Mod::process_input_data" for m in AI]
                + ["util::u16_to_analog_ui_value", "util::u16_to_analog_i_value"],
                bounds="raw values: none; lists: none in Verus, up to two more than the channels in Kani"),
    "C06": dict(level="proof", contents=True, verus={"analog": ["u16_to_analog_ui_value", "analog_ui_value_to_u16", "ao::value_to_u16", "ao_diag::value_to_u16"] + process("ao", "ao_diag")}, assumptions=[STD, FLOATS], 
                note='Kani: every f32 value against the exact conversion. Verus: each channel by its own settings, lists of any length. The slowest ranges are proved in the thorough tier only (evaluated natively in the quick tier).',
                functions=[
        "process_output_values and process_output_data of ur20_4ao_ui_16, ur20_4ao_ui_16_diag",
        "util::analog_ui_value_to_u16", "util::u16_to_analog_ui_value"],
                bounds="values and register contents: none; lists: none in Verus, up to two more than the channels in Kani"),
    "C07": dict(level="proof", contents=True, verus={"analog": ["u16_to_rtd_value", "tc::u16_to_thermal_value", "tc::ChannelParameters::is_enabled"] + process("rtd", "tc")}, assumptions=[STD, FLOATS], 
                note='Kani: every raw value and sensor. Verus: each channel by its own settings from its own register, lists of any length. Some linear ranges are proved in the thorough tier only (evaluated natively in the quick tier).',
                functions=["ur20_4ai_rtd_diag::Mod::process_input_data", "ur20_4ai_tc_diag::Mod::process_input_data"],
                bounds="raw values: none; lists: none in Verus, up to two more than the channels in Kani"),
    "C08": dict(level="proof", contents=True, verus={"fcnt": BITS + process("fcnt")}, assumptions=[STD, TIME], 
                note='Kani and Verus: every register content and every commanded record. Verus: lists of any length.',
                functions=["ur20_2fcnt_100::Mod::process_input_data, process_output_data, process_output_values"],
                bounds="register contents and durations: none; lists: none in Verus, up to two more than required in Kani"),
    "C09": dict(level="proof", contents=True, verus={"digital": BITS + ["sil::ChannelValue::from"] + process("sil")}, assumptions=[STD], 
                note='Kani and Verus: all 2^32 register contents. Verus: lists of any length.',
                functions=["ur20_pf_o_1di_sil::Mod::process_input_data, process_output_data, process_output_values"],
                bounds="register lists: none in Verus, up to 4 words in Kani"),
    "C10": dict(level="proof", contents=True, verus={"frames": BITS + ["u16_to_u8", "u8_to_u16", "ProcessDataLength::user_data_len"] + FRAMES + process("frames")}, assumptions=[STD, ORDER, BYTEVEC], 
                note='Kani and Verus: every frame and every record of either size, Verus: of any length. Some payload lengths are proved in the thorough tier only (evaluated natively in the quick tier).',
                functions=[COM + "::ProcessInput::try_from_byte_message", COM + "::ProcessOutput::try_from_byte_message",
        COM + "::ProcessOutput::to_byte_message", COM + "::Mod::process_input_data, process_output_data, process_output_values",
        "util::u16_to_u8", "util::u8_to_u16"],
                bounds="none in Verus; Kani: frames of 8 and 16 bytes, records with up to one more byte than the frame takes, counters up to 5"),
    "C11": dict(level="proof", assumptions=[STD, CNT],
                verus={"com": ["MessageProcessor::new", "MessageProcessor::inc_cnt", "MessageProcessor::next", "MessageProcessor::write", "MessageProcessor::flush", "ProcessDataLength::user_data_len"]}, note='Verus: every history of writes, flushes, cycles and reads, no bound. Kani: short histories from every state, bounded.',
                functions=[COM + "::MessageProcessor::next", "<MessageProcessor as Write>::write, flush"],
                bounds="none in Verus; Kani: histories of a few writes and cycles from every state of the handshake; longer ones natively"),
    "C12": dict(level="proof", assumptions=[STD, CNT],
                verus={"com": ["MessageProcessor::new", "MessageProcessor::next", "MessageProcessor::read", "MessageProcessor::flush"]}, note='Verus: every history of cycles and reads, no bound. Kani: short histories from every state, bounded.',
                functions=[COM + "::MessageProcessor::next", "<MessageProcessor as Read>::read"],
                bounds="none in Verus; Kani: histories of a few cycles and reads; longer ones natively"),
    "C13": dict(level="proof", assumptions=[STD, CNT],
                verus={"com": ["MessageProcessor::new", "MessageProcessor::next", "MessageProcessor::flush"]}, note='Kani and Verus: the start-up for all module inputs and outputs; Verus: every history.',
                functions=[COM + "::MessageProcessor::new, next"],
                bounds="none in Verus; Kani: the first three cycles, any module inputs"),
    "C14": dict(level="proof", contents=True, verus={"digital": CODES + parser("di", "do", "ro", "16do", "sil"), "analog": CODES + parser("ai", "ai_diag", "ai8", "ao", "ao_diag", "rtd", "tc"),
                       "fcnt": CODES + parser("fcnt"), "frames": CODES + parser("frames")}, assumptions=[STD, FLOATS], 
                note='Kani and Verus: every register content of every supported module, Verus: blocks of any length. Some substitute value ranges are proved in the thorough tier only.',
                functions=["from_modbus_parameter_data of all 18 supported modules"],
                bounds="register contents: none; blocks: none in Verus, up to the documented size plus surplus registers in Kani"),
    "C15": dict(level="proof", assumptions=[STD, FLOATS, "lists of up to 64 modules of supported types (16 bit addresses)"],
                verus={"lists": ["ModuleType::param_register_count", "param_addresses_and_register_counts"], "build": []}, note='Kani and Verus: every supported type is tied to its parser. Verus: lists of any length.',
                functions=["param_addresses_and_register_counts", "ModuleType::param_register_count",
                                          "from_modbus_parameter_data of all 18 supported modules"],
                bounds="none in Verus; Kani: module lists of up to 4 slots (any types); longer lists natively"),
    "C17": dict(level="proof", assumptions=[STD, ORDER, SIZES],
                verus={"image": ["u16_to_u8", "u8_to_u16", "shift_data", "to_register_address", "prepare_raw_data_to_process", "process_input_data", "process_output_data"]}, note='Verus: every image, offset and data size, no bound. Kani: enumerated sizes and positions with any content, bounded.',
                functions=["process_input_data", "process_output_data", "prepare_raw_data_to_process", "util::shift_data"],
                bounds="none in Verus; Kani: module sizes 1 to 20 bytes, images of up to 11 registers, every byte position; up to 3 modules (more natively)"),
    "C18": dict(level="proof", assumptions=[STD, ORDER, SIZES, BYTES],
                verus={"image": ["u16_to_u8", "u8_to_u16", "to_register_address", "process_output_values"]}, note='Verus: every layout of any number of modules, no bound. Kani: enumerated layouts with any content, bounded.',
                functions=["process_output_values", "util::u16_to_u8", "util::u8_to_u16"],
                bounds="none in Verus; Kani: layouts of up to 4 modules of 1 to 8 bytes; larger ones natively"),
    "C16": dict(level="proof", assumptions=[STD],
                verus={"lists": ["word_to_offset", "offsets_of_process_data", "to_register_address", "to_bit_address", "split_and_merge"]}, note='All addresses are decided. Verus: offset lists of any length.',
                functions=["to_register_address", "to_bit_address", "offsets_of_process_data"],
                bounds="addresses: none; offset lists: none in Verus, up to 7 words in Kani"),
    "C19": dict(level="proof", verus={"coupler": CYCLE + IMAGE}, assumptions=[STD, MAPS, MODS, SIZES, BYTES],
                note="Verus: every configuration, image, set of pending writes and history (the cycle's contract is inductive). Kani: digital couplers of one and two modules, bounded.",
                functions=[COUPLER + "Coupler::set_output, is_valid_addr, next", COUPLER + "process_output_data, process_output_values"],
                bounds="none in Verus; Kani: couplers of up to two digital modules, two cycles; larger configurations and longer histories natively"),
    "C20": dict(level="proof", verus={"coupler": CYCLE + ["process_input_data", "process_output_data"]}, assumptions=[STD, MAPS, MODS, SIZES],
                note="Verus: every configuration, address and image. Kani: each module kind with any image, bounded.",
                functions=[COUPLER + "Coupler::set_output, is_valid_addr, next, inputs, outputs", COUPLER + "process_input_data, process_output_data"],
                bounds="none in Verus; Kani: couplers of up to three modules, one cycle; larger configurations natively"),
    "C21": dict(level="proof", verus={"coupler": CYCLE + ["Coupler::reader", "Coupler::writer"] + MP},
                assumptions=[STD, MAPS, MODS, SIZES, WRITE, CNT,
                             "histories end at a cycle that reports an error: what was taken for it is not put back"],
                note="Verus: every history of writes, reads and cycles of couplers with any number of serial modules. Kani: two serial modules, short histories, bounded.",
                functions=[COUPLER + "Coupler::next, reader, writer, set_output", COM + "::MessageProcessor::next, read, write"],
                bounds="none in Verus; Kani: couplers of two serial modules, up to four cycles; longer histories natively"),
    "C22": dict(level="proof", verus={"build": ["Coupler::new", "CouplerConfig::validate", "offsets_of_process_data", "word_to_offset", "MessageProcessor::new"]},
                assumptions=[STD, MAPS, FLOATS,
                             "all module types are supported ones (for the others the constructor is documented to panic)"],
                note="Verus: every configuration of supported types, of any length. Kani: configurations of up to two modules with any parameter contents, bounded.",
                functions=[COUPLER + "Coupler::new", COUPLER + "CouplerConfig::validate", COUPLER + "offsets_of_process_data"],
                bounds="none in Verus; Kani: configurations of up to two modules; longer ones natively"),
    "C23": dict(level="proof", assumptions=["str on ASCII text: to_uppercase and to_ascii_uppercase change the letters a to z only, replace substitutes a character by a one character text, a text matches a literal of its characters (assumed in Verus and, for the first two, in Kani; executed as compiled code natively)", "texts outside ASCII are not covered"],
                verus={"names": ["ModuleType::from_str", "ModuleCategory::from_str"]}, note="Verus: every ASCII text, of any length, for products and categories. Kani: every spelling of every product name.",
                functions=["<ModuleType as FromStr>::from_str", "<ModuleCategory as FromStr>::from_str"],
                bounds="none in Verus; Kani: the 63 product names in every spelling; category texts of up to 5 ASCII characters"),
}


def known_findings(prop):
    """Findings that are recorded, not repaired: lines to print for a property."""
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:") and f"property={prop} " in line:
                out.append(line)
    return out
