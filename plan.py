"""What is proved for each property: modules verified, functions it rests on.

verify     modules of the extracted crate whose obligations are discharged for the property
functions  patterns of function keys: a rejected obligation in one of them is an alarm
support    patterns of functions the property also rests on, whose contracts say much more
           than the property: a rejected obligation starts a longer search for a failing
           input and is reported, but is no alarm by itself
safety     only obligations about panics, overflow, bounds and termination count as alarms
bounded    what is not proved
theorems   lemmas which state the property over the specifications which the contracts of
           the functions refer to; their modules and what they use are verified as well
"""

TRUST_NOTES = [
    "Verus and Z3",
    "extract/ (mechanical rewriting listed in DESIGN.md)",
    "vstd specifications of the standard library",
]

# compressor and decompressor
LZ_BITS = r"lzw::(Bits|u8 as From<Bits>).*"
LZ_C = [r"lzw::(Compressor|CNode)::.*", LZ_BITS]
LZ_D = [r"lzw::Decompressor::.*", LZ_BITS]
# block level
ENC = [r"encode::(BlockEnc::.*|.*::format)"]
DEC = [r"decode::Blocks::.*", r"decode::.*::parse_sub_block", r"decode::Unknown::new", r"decode::ImageData::finish"]
CODES = [r"block::(BlockCode::.*|ExtensionCode as From<u8>::from|u8 as From<ExtensionCode>::from|Block::has_sub_blocks|Block as From<.*)"]
TABLES = [r"block::ColorTableConfig::.*", r"block::(ImageDesc|LogicalScreenDesc)::color_table_.*"]
BUILD = [r"block::.*::(add_\w+|with_colors|with_version|new|sub_blocks|colors|comments|app_data|ext_id|version|data|data_mut|is_empty|len)"]
PACKED = [
    r"block::GraphicControl::(set_)?(flags|disposal_method|user_input|transparent_color(_idx)?)",
    r"block::(ImageDesc|LogicalScreenDesc)::(with_)?(flags|interlaced|color_table_\w+|color_resolution)",
    r"block::ColorTableConfig.*", r"block::(DisposalMethod as .*|u8 as From<DisposalMethod>::from)",
]
FRAMES = [r"decode::Frames::.*", r"block::Frame::.*"]
STEPS = [r"decode::StepsOnce::.*", r"decode::(update_raster|update_frame|interlaced_row)"]
LOOPS = [r"decode::(StepsLooping|Steps)::.*"]
DECODER = [r"private::Decoder::.*"]
ENCODER = [r"private::Encoder::.*"]
BLOCK = [r"block::.*"]
ERR = [r"error::.*"]

# functions of a packed field, a table size or a loop count, which `gh finite` tries for all
# values: where the solver does not follow a rewritten body, this decides instead
FINITE = [
    r"block::GraphicControl::(set_)?(disposal_method|user_input|transparent_color)",
    r"block::(ImageDesc|LogicalScreenDesc)::(with_)?(interlaced|color_table_\w+|color_resolution)",
    r"block::ColorTableConfig::.*", r"block::(DisposalMethod as From.*|u8 as From<DisposalMethod>::from)",
    r"block::Application::with_loop_count",
]

ENC_V = ["lzspec", "lzw", "gifspec", "block", "encode"]
DEC_V = ["lzspec", "lzw", "block", "parsespec", "decode"]
ALL_V = ["lzspec", "lzw", "gifspec", "block", "encode", "parsespec", "stepspec", "decode", "private", "error"]

PROPS = {
    "C01": {
        "verify": ENC_V + ["parsespec", "decode"],
        "functions": LZ_C + LZ_D + [r"encode::ImageData::format", r"encode::next_high_bit", r"decode::ImageData::.*", r"decode::Blocks::(parse_image_data|decode_sub_block)", r"block::ImageData::.*"],
        "support": ENC + DEC + ENCODER + DECODER + [r"block::ImageDesc::.*", r"block::Block as From.*"],
    },
    "C02": {
        "verify": DEC_V,
        "functions": LZ_D + [r"decode::ImageData::.*", r"decode::Blocks::(parse_image_data|decode_sub_block)"],
        "support": DEC + DECODER + [r"block::ImageData::.*"],
    },
    "C03": {
        "verify": ENC_V,
        "functions": LZ_C + [r"encode::ImageData::format", r"encode::next_high_bit"],
        "support": [r"encode::BlockEnc::.*", r"block::ImageData::.*"] + ENCODER,
    },
    "C04": {
        "verify": ["lzspec", "lzw", "block", "parsespec", "stepspec", "decode", "private", "error"],
        "functions": LZ_D + [r"decode::.*"] + BLOCK + DECODER + [r"private::Step::.*", r"private::Step.* as Clone::clone"] + ERR,
        "support": [],
        "safety": True,
    },
    "C05": {
        "verify": ENC_V + ["parsespec", "decode"],
        "functions": ENC + DEC + CODES + TABLES + BUILD,
        "support": BLOCK + LZ_C + LZ_D + ENCODER + DECODER,
    },
    "C06": {
        "verify": DEC_V,
        "functions": [r"decode::Blocks::(?!fill_buffer|parse_image_data).*", r"decode::(?!ImageData).*::parse_sub_block", r"decode::Unknown::new"] + CODES + TABLES,
        "support": DEC + BLOCK + DECODER + ERR,
    },
    "C07": {
        "verify": DEC_V + ["stepspec", "error"],
        "functions": [r"decode::Blocks::(fill_buffer|next|next_block|new)"] + ERR,
        "support": [r"decode::.*"] + LZ_D,
    },
    "C08": {
        "verify": DEC_V + ["private"],
        "functions": [r"decode::Blocks::(parse_image_desc|parse_image_data|check_block_end|new)", r"decode::ImageData::.*", r"block::ImageDesc::(image_sz|width|height)", r"block::ImageData::.*"] + DECODER,
        "support": DEC + LZ_D,
    },
    "C09": {
        "verify": ENC_V + ["private"],
        "functions": [r"encode::FrameEnc::.*", r"private::Encoder::into_frame_enc"],
        "support": ENC + [r"block::Block as From.*"],
    },
    "C10": {
        "verify": DEC_V + ["stepspec", "private"],
        "functions": [r"decode::Frames::.*", r"block::Frame::new", r"private::Decoder::into_frames"],
        "support": FRAMES + DEC + BLOCK,
    },
    "C11": {
        "verify": DEC_V + ["stepspec", "private"],
        "functions": STEPS + [r"block::Frame::.*", r"block::GraphicControl::(disposal_method|transparent_color)", r"block::DisposalMethod as From<u8>::from", r"private::Step::(with_true_color|raster)"],
        "support": FRAMES + BLOCK + DEC + DECODER + [r"private::Step::.*", r"decode::Steps::.*"],
    },
    "C12": {
        "verify": ["block", "parsespec", "stepspec", "decode"],
        "functions": [r"decode::(update_raster|interlaced_row)", r"block::ImageDesc::interlaced"],
        "support": STEPS,
    },
    "C13": {
        "verify": ["block"],
        "functions": PACKED,
        "support": [r"encode::(GraphicControl|ImageDesc|LogicalScreenDesc)::format"],
    },
    "C14": {
        "verify": ALL_V,
        "functions": [r"block::Application::(with_loop_count|loop_count|is_looping)", r"private::Decoder::into_iter"] + LOOPS,
        "support": [r"encode::Application::format", r"decode::Application::parse_sub_block"] + STEPS + FRAMES + DEC,
    },
    "C15": {
        "verify": DEC_V + ["stepspec"],
        "functions": [r"decode::(Blocks|Frames|StepsOnce|StepsLooping|Steps)::(next|next_block|new|new_once|new_looping|push_step|next_step)"],
        "support": [r"decode::.*"],
    },
    "C16": {
        "verify": ALL_V,
        "functions": [r"encode::(StepEnc::.*|make_color_table|make_image_desc)", r"private::(Step.*|Encoder::into_step_enc)"],
        "support": [r"encode::.*", r"decode::.*", r"lzw::.*", r"block::.*", r"private::.*"],
    },
    "C17": {
        "verify": ENC_V + ["private", "error"],
        "functions": [r"encode::.*"] + ERR,
        "support": ENCODER + LZ_C,
    },
    "C18": {
        "verify": ENC_V + ["private"],
        "functions": [r"private::Step.*", r"block::GraphicControl::.*", r"encode::GraphicControl::format", r"block::(DisposalMethod as .*|u8 as From<DisposalMethod>::from)"],
        "support": [r"encode::(StepEnc|FrameEnc|BlockEnc)::.*", r"block::Frame::.*"],
    },
    "C19": {
        "verify": ["cli", "clispec", "stepspec"] + DEC_V + ["private"],
        "functions": [r"cli::.*"],
        "support": FRAMES + DEC + DECODER + CODES + TABLES + LZ_D + [r"block::(Preamble|Application|Comment|GraphicControl|ImageDesc|Header)::.*", r"error::.*"],
        "bounded": "the text of numbers, of seconds and of comments (std::fmt, from_utf8_lossy, trim, split): generated files through the built command against an independent model of its output",
    },
}
THEOREMS = {
    "C01": ["c01::round_trip"],
    "C02": ["c02::cut_independent"],
    "C03": ["c03::well_formed"],
    "C04": ["c04::blocks_end", "c04::frames_end", "c04::steps_end"],
    "C05": ["c05::round_trip", "c05::sequence"],
    "C06": ["c06::grammar", "c06::fields", "c06::extensions", "c06::rejected", "c06::truncated"],
    "C07": ["c07::same_block", "c07::same_frame", "c07::own_error"],
    "C08": ["c08::exact", "c08::limit"],
    "C09": ["c09::order"],
    "C10": ["c10::start", "c10::grouped", "c10::frame_blocks_read"],
    "C11": ["c11::pixel", "c11::rejected"],
    "C12": ["c12::same_raster", "c12::one_to_one", "c12::passes"],
    "C13": ["c13::graphic_control", "c13::image_desc", "c13::screen_desc", "c13::announced", "c13::layout"],
    "C14": ["c14::loop_bytes", "c14::loop_count_kept", "c14::passes"],
    "C15": ["c15::block_local", "c15::frame_local", "c15::pre_local", "c15::step_local", "c15::steps_local", "c15::after_error", "c15::looping_error"],
    "C16": ["c16::decoded", "c16::pictures"],
    "C17": ["c17::failed_or_all"],
    "C18": ["c18::last_wins"],
    "C19": ["c19::one_line_per_frame", "c19::frame_shown"],
}
# modules which a theorem's module uses
USES = {"c01": ["subtheory", "c02"], "c02": ["subtheory"], "c04": ["c05", "c15"], "c05": ["subtheory", "c01", "c02", "parsespec", "gifspec"], "c06": ["subtheory", "c05", "c15"], "c08": ["stepspec"], "c09": [], "c10": ["stepspec"],
        "c12": ["stepspec"], "c14": ["subtheory", "c05"], "c15": ["stepspec"], "c16": ["c05"], "c18": []}


def closure(m):
    r = {m}
    for x in USES.get(m, []):
        r |= closure(x)
    return r


for k, c in PROPS.items():
    c.setdefault("level", "proof")
    c["theorems"] = THEOREMS.get(k, [])
    c["verify"] = sorted(set(c["verify"]).union(*[closure(t.split("::")[0]) for t in c["theorems"]]))
    if c["verify"]:
        c["verify"] = sorted(set(c["verify"] + ["itermodel"]))
