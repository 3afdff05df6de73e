"""What each check runs: engine jobs, bounds, assumptions. Used by ../check and tools/mkmanifest.py."""
BLOCK = "all 2^{n} block contents and all prior contents of the 16 output texels; every loop runs to its concrete end (no unrolling bound)"
COMMON_ASSUME = [
    "rustc's lowering of /repo to LLVM IR (release, fat LTO, opt-level 2, overflow checks on, panic=abort) is what is executed symbolically; LLVM code generation after that is trusted",
    "the engine's semantics of LLVM IR and its AIG construction are trusted; every reachability witness of a run is replayed on the natively compiled code and must agree",
    "MiniSat's UNSAT answers (thorough: a sample of the same queries is re-discharged as SMT-LIB with z3)",
    "the reference model in /verif/harness/src/refs expresses the format's specification",
]
S = {}


def add(id, quick, thorough=None, bounds="", level="model_checking", note="", assume=(), limit=740, narrow=60, job_limit=10000, variant="std"):
    S[id] = dict(quick=quick, thorough=thorough or quick, bounds=bounds, level=level, note=note, assume=list(assume), limit=limit, narrow=narrow, job_limit=job_limit, variant=variant)


add("C01", ["h_bc1", "h_bc1a"], bounds=BLOCK.format(n=64))
add("C02", ["h_bc2", "h_bc3"], bounds=BLOCK.format(n=128))
add("C03", ["h_bc4", "h_bc5", "h_bc45_image"], bounds=BLOCK.format(n=64) + " (BC4), 2^128 (BC5); image clause: 8x4 images")
add("C04", ["h_bc6u"], bounds=BLOCK.format(n=128) + "; decided separately for the 14 modes and 4 reserved codes")
add("C05", ["h_bc6s"], bounds=BLOCK.format(n=128) + "; decided separately for the 14 modes and 4 reserved codes")
add("C06", ["h_bc7"], bounds=BLOCK.format(n=128) + "; decided separately for the 8 modes and mode 0x00")
add("C07", ["h_atc_rgb", "h_atc_rgba"], bounds=BLOCK.format(n=64) + " (RGB), 2^128 (RGBA)")
add("C08", ["h_etc1", "h_etc2_rgb"], bounds=BLOCK.format(n=64),
    note="ETC1 blocks whose differential colour leaves 0..31 are outside the ETC1 format and excluded (for ETC2 they select T, H and planar, which are included).")
add("C09", ["h_etc2_rgba1", "h_etc2_rgba8", "h_etc2_a8"], bounds=BLOCK.format(n=64) + " (RGBA1), 2^128 (RGBA8)",
    note="The colour channels of fully transparent texels are left unspecified.")
add("C10", ["h_eac", "h_eac_channel", "h_eac_image"], bounds=BLOCK.format(n=64) + " (R11), 2^128 (RG11); image clause: 8x4 images",
    note="8-bit reduction: unsigned v>>3; signed (v+1023)>>3.")

_PV = "grids 1x1, 2x1, 1x2, 2x2, 4x1, 1x4%s, some with cropped sizes: all block contents; grids 4x4, 8x2, 2x8%s: each block in turn with all its modulation words and modes or all its colour words, the other blocks fixed; the texels after the image; data or image one short is refused"
add("C11", ["h_pvrtc4:7", "h_pvrtc4_one:6"], ["h_pvrtc4:9", "h_pvrtc4_one:6"], bounds=_PV % (", 4x2 (thorough also 2x4 and 4x4)", ", 8x4, 4x8, 16x1"))
add("C12", ["h_pvrtc2:6", "h_pvrtc2_one:2"], ["h_pvrtc2:9", "h_pvrtc2_one:6"], bounds=_PV % (" (thorough also 4x2, 2x4 and 4x4)", " (quick: 4x4 and 8x2; thorough also 8x4, 4x8, 16x1)"))

add("C13", ["h_astc_void", "h_astc_illegal"], bounds="all 2^128 blocks that are void-extent or illegal encodings, for each of the 14 footprints; all prior contents of the output and of 3 texels after it",
    note="Void-extent HDR blocks with a NaN or infinite channel are excluded (no 8-bit value is defined for them).")
add("C14", ["h_astc_ldr", "h_astc_ranges", "h_astc_dual", "h_astc_interp:0", "h_astc_part:0", "h_astc_cem:0,0"],
    ["h_astc_ldr", "h_astc_ranges", "h_astc_dual", "h_astc_interp:0", "h_astc_cem:0,1", "h_astc_part:1", "h_astc_one:0,66,1,0,0,0", "h_astc_one:0,66,1,0,8,0", "h_astc_one:0,66,2,0,8,0", "h_astc_one:0,66,1,0,12,0"],
    bounds="blocks of 5x5 texels with full weight grids: all endpoint values for each LDR endpoint mode; for each of 10 weight ranges and 1 to 4 partitions with modes 0, 4, 8, 12 (every colour range and value count this reaches); endpoint mode selectors of 2 to 4 partitions, one partition's 8 codes with the others' class bit 0 or 1; weights 0 and 64 in any combination. Interpolation: all endpoint values with all values of one texel's weight in three ranges. Partitions: all 1024 indices for every texel of 14 footprints (quick: each with one number of partitions, three with all) with constant endpoints. Dual plane: 4x4, 1 to 3 partitions, all selectors. thorough also: four 4x4 configurations with every endpoint and weight bit free",
    note="Weights and block modes are C27.")
add("C15", ["h_astc_hdr", "h_astc_interp:1", "h_astc_cem:1,0"], ["h_astc_hdr", "h_astc_interp:1", "h_astc_cem:1,1", "h_astc_one:0,66,1,0,2,0", "h_astc_one:0,66,1,0,3,0"],
    bounds="blocks of 5x5 texels with full weight grids: all endpoint values for each HDR endpoint mode; 2 to 4 partitions with one partition's or all selectors set to HDR modes; weights 0 and 64 in any combination; interpolation and conversion: all mode 2 endpoint values with all values of one texel's weight in three ranges",
    note="8-bit reduction: floor(255 f) of the half float f, clamped to 0..255.")
add("C27", ["h_astc_modes:0", "h_astc_grids:0"], ["h_astc_modes:1", "h_astc_grids:1"],
    bounds="each of the 775 legal block modes with the first of the 14 footprints it fits: all weights where the grid is the footprint; else every third mode with all values of one weight group (five trits, three quints or one weight) and weights 0 and 64 elsewhere, the others with weights 0 and 64 (thorough: all 14 footprints, the first and last group of every mode). Each weight grid with each footprint it fits (quick: without two thirds of the smallest grids in the larger footprints): all combinations of weights 0 and 64. Endpoints 0 and 255",
    note="Endpoints are C14 and C15.")

add("C16", ["h_layout:6", "h_layout_big:5", "h_layout_astc"], ["h_layout:12", "h_layout_big:6", "h_layout_astc"],
    bounds="19 block decoders: every image size 0..6 x 0..6 (thorough 0..12 x 0..12) and 1x37, 37x1, 17x13, 12x23, 33x5 (thorough also 40x40); 14 ASTC footprints: 10 sizes up to 3x3 blocks; all prior image contents; block contents symbolic (BC6H, BC7, ASTC: the colour selector bytes, the other bytes fixed)",
    note="What a block decodes to is C01-C15's question; here the block function itself is the oracle. PVRTC images are C11/C12.")
_S = ["h_short", "h_short_bc6", "h_short_astc", "h_short_pvrtc"]
add("C17", ["h_astc_badsize", "h_layout:3"] + ["%s:%d" % (x, m) for x in _S for m in range(4)], ["h_astc_badsize", "h_layout:3"] + ["%s:%d,1" % (x, m) for x in _S for m in range(4)], narrow=1, job_limit=3,
    bounds="width, height, data length and image length all symbolic over their full 64-bit ranges (lengths up to isize::MAX bytes), and again with one of width and height set to each of 24 (quick: 10) values, and with all of them below 1024 x 1024 x 4 Mi; sizes with enough room and a non-empty image are decided in C16/C11/C12; decode_astc with 16 block sizes that are no footprint")
add("C18", ["h_block_total", "h_astc_void", "h_astc_illegal", "h_astc_ranges", "h_astc_dual"], bounds=BLOCK.format(n=128) + " (ASTC: void-extent and illegal blocks, and the legal configurations of C14's ranges and dual plane clauses); 5 further bytes after the block and 6 further texels after the output, all contents")
add("C19", ["h_same_astc", "h_same_bc6", "h_same_bc6_block", "h_same_pvrtc", "h_short_astc", "h_short_bc6", "h_short_pvrtc"],
    bounds="image functions: 2 to 4 sizes per variant, each with enough data and room, one byte short and one texel short, data and prior image symbolic (BC6H, ASTC: the selector bytes; void-extent ASTC blocks: the colour); block functions: " + BLOCK.format(n=128) + "; refusal of all other sizes: full 64-bit ranges")

_N = ["h_short_pvrtc:%d" % m for m in range(4)]
add("C25", ["h_pvrtc4:6", "h_pvrtc2:4", "h_pvrtc4_one:2", "h_pvrtc2_one:1", "h_same_pvrtc"] + _N, ["h_pvrtc4:9", "h_pvrtc2:7", "h_pvrtc4_one:6", "h_pvrtc2_one:6", "h_same_pvrtc"] + _N, variant="noalloc", narrow=1,
    bounds="the crate built with default-features = false against the model C11 and C12 hold the alloc build to; " + _PV % ("", " (quick: 4bpp 4x4 and 8x2, 2bpp 4x4)") + "; refused sizes: as C17")

add("C20", ["h_crn_info"], bounds="files of 15 lengths (0 to 96 bytes around every field's end, 1089 to 1100 bytes around the largest level table), all contents, all 2^32 claimed sizes, all prior contents of the info's fields")

_C21 = ["h_crn:0,20,8,0,2,64,15,0", "h_crn:0,20,8,0,4,8,15,0", "h_crn:0,0,7,0,2,64,15,0", "h_crn:0,9,7,0,2,64,15,0", "h_crn:0,7,7,0,2,64,15,0", "h_crn:0,2,7,0,2,64,15,0", "h_crn:0,20,8,0,2,16,15,1",
        "h_crn:0,20,8,0,2,0,15,0", "h_crn:0,9,0,0,3,0,24,0", "h_crn:0,9,0,0,2,0,20,0", "h_crn:0,9,0,0,2,0,8,0", "h_crn:0,0,0,0,2,0,0,0", "h_crn:0,0,0,0,3,0,16,0", "h_crn:0,9,0,8,1,0,23,0", "h_crn:0,9,0,4,2,0,27,0", "h_crn:0,0,0,1,2,0,30,0", "h_crn:0,0,0,2,2,0,29,0",
        "h_crn:0,0,0,16,3,0,15,0", "h_crn:0,9,1,16,3,0,15,0", "h_crn:0,2,0,16,3,0,15,0", "h_crn:0,7,0,16,3,0,15,0"]
_SK = "files assembled by the harness: header, tables, palettes and level, with symbolic bits in the stated parts. (a) levels: "
add("C21", _C21, _C21 + ["h_crn:0,20,8,0,2,256,15,0", "h_crn:0,20,7,0,2,256,15,0", "h_crn:0,20,8,0,8,16,15,0", "h_crn:0,20,8,0,2,32,15,5", "h_crn:0,2,1,0,2,1,0,0", "h_crn:0,7,1,0,2,0,0,0", "h_crn:0,20,0,16,3,0,15,0"],
    bounds=_SK + "9 DXT formats (0, 2 to 9), 8 sizes (one block to 5x3 blocks, odd block counts), 1 and 2 faces, palettes of 2 and 4 fixed entries: all endpoint and selector symbols with 8 to 64 choices of the chunk encodings, and for all but 20x12 texels all chunk encodings as well; (b) 4x4: all palette and level bits of DXT1, all bits of the DXT5A endpoint palette (with and without the level) or selector palette, two or three entries; (c) one palette with codes of different lengths, all its bits (1 or 2 entries); (d) level codes of different lengths, 3 entries, 4x4 (DXT5A 8x8), all level bits",
    note="Level 0 of face 0, the one decode_crunch shows. Models with other code lengths are C23's question.")
_C22 = ["h_crn:1,20,8,0,2,64,15,0", "h_crn:1,21,8,0,2,32,15,0", "h_crn:1,20,8,0,4,8,15,0", "h_crn:1,20,7,0,2,16,15,0", "h_crn:1,21,7,0,2,2,15,0", "h_crn:1,20,8,0,2,8,15,1", "h_crn:1,21,8,0,2,8,15,1",
        "h_crn:1,0,0,0,2,0,0,0", "h_crn:1,7,0,0,2,0,0,0", "h_crn:1,9,0,0,2,0,0,0", "h_crn:1,10,0,0,2,0,0,0", "h_crn:1,11,0,0,2,0,0,0", "h_crn:1,12,0,0,2,0,0,0", "h_crn:1,13,0,0,2,0,0,0", "h_crn:1,14,0,0,2,0,0,0",
        "h_crn:1,2,0,0,2,0,16,0", "h_crn:1,2,0,16,3,0,15,0", "h_crn:1,0,1,16,3,0,15,0", "h_crn:1,10,1,0,2,0,15,0", "h_crn:1,9,0,8,2,0,23,0", "h_crn:1,0,0,2,2,0,29,0"]
add("C22", _C22, _C22 + ["h_crn:1,20,8,0,2,256,15,0", "h_crn:1,21,8,0,2,128,15,0", "h_crn:1,20,8,0,8,16,15,0", "h_crn:1,20,8,0,2,32,15,5", "h_crn:1,2,0,0,2,0,0,0", "h_crn:1,2,1,16,3,0,15,0", "h_crn:1,10,1,0,2,1,15,0"],
    bounds=_SK + "all 14 formats, 8 sizes (one block to 5x3 blocks, odd block counts), 1 and 2 faces, palettes of 2 (DXT also 4) fixed entries: all endpoint and selector symbols with 2 to 64 choices of the endpoint references; (b) 4x4: all palette and level bits including the references with two entries each (DXT5: palettes only); (c) one palette with codes of different lengths, all its bits; (d) level codes of different lengths, 3 entries, DXT5 4x4 and DXT1 8x8, all level bits; ETC1 8x8 with two entries, all level bits including the references",
    note="Level 0 of face 0, the one decode_unity_crunch shows. What the blocks decode to is C01-C09's question.")

_C23 = ["h_huff_small:1", "h_huff_small:2,2", "h_huff_small:3,3", "h_huff_small:4,4,5", "h_huff_small:4,4,4,2", "h_huff_small:5,5,3", "h_huff_small:6,6,2", "h_huff_small:4,4,4,1,1", "h_huff_small:4,4,4,1,2", "h_huff_small:4,4,4,1,4",
        "h_huff_table:17,0", "h_huff_table:64,2", "h_huff_table:17,3", "h_huff_table:40,3", "h_huff_table:225,3", "h_huff_table:17,4", "h_huff_table:40,4", "h_huff_table:64,4,2", "h_huff_table:225,4", "h_huff_table:40,4,1,2", "h_huff_runs:100", "h_huff_runs:20", "h_huff_lens:2,7"]
add("C23", _C23, _C23 + ["h_huff_small:3,1", "h_huff_small:4,4,9", "h_huff_small:5,5,6", "h_huff_small:7,7,3", "h_huff_small:8,8,2", "h_huff_table:17,1", "h_huff_table:17,2", "h_huff_table:33,0", "h_huff_table:100,1", "h_huff_table:512,2", "h_huff_table:512,3", "h_huff_table:100,4,2", "h_huff_table:512,4", "h_huff_runs:160", "h_huff_lens:1,9", "h_huff_lens:3,6"],
    bounds="models in the alpha endpoint section of a DXT5A file, code lengths case-split, all bits of the 2 or 4 symbols after them: alphabets of 1 to 3 symbols with all code lengths 0 to 16, 4 (lengths to 5), 5 (to 3) and 6 (to 2) symbols; lookup tables: 17, 40, 64 and 225 symbols, three of them used with all 17^3 lengths, codes with all 16 lengths at once, two lengths each; sections ending 0, 1 and 3 bytes after the model; run codes with every count; code length codes: seven, the last three with all lengths, all bits after them (two symbols)",
    note="Code lengths which are no prefix code (over-subscribed) have no canonical code and are C24's question.")

_C24 = ["h_bad_section", "h_bad_levels:0", "h_bad_size", "h_bad_cut", "h_bad_lens:2,7", "h_bad_num:1,0", "h_huff_small:3,3,16,1,0,1", "h_huff_small:4,4,4,1,0,1", "h_huff_table:17,4,1,0,1", "h_huff_table:40,4,1,0,1", "h_crn_info",
        "h_crn:0,9,1,16,3,0,15,0", "h_crn:0,0,0,16,3,0,15,0", "h_crn:0,20,8,0,2,8,15,0", "h_crn:1,20,8,0,2,8,15,1", "h_crn:1,21,8,0,2,4,15,1"]
add("C24", _C24, _C24 + ["h_bad_num:2,1", "h_bad_num:2,0", "h_bad_lens:1,9", "h_bad_lens:3,5", "h_bad_lens:2,21", "h_huff_table:64,4,1,0,1", "h_huff_table:225,4,1,0,1", "h_huff_table:17,0,1,0,1"],
    bounds="for each of both decoders, Ok or Err and no write after the image on: each offset or size field (tables, palettes, level) with every value; all values of the levels (below 4), faces (below 3) and format bytes; 50 pairs of width and height with every format and 3 requested sizes; files cut at every length; every format with palettes of 0 to 2 entries in any combination (81) and all level bits; over-subscribed and empty code tables (all length vectors of 3 symbols, 4 symbols with lengths up to 4, 256 mixes of two lengths for 17 and 40 symbols) and code length codes (512 mixes) with all bits after them; headers as C20; levels as C21 and C22 in part",
    note="Exhausted memory is outside the model: allocations succeed.")

NOT_APPLICABLE = {}
