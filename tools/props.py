#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": observe or [], "hook_needed": hook}})
WHY = "The tests decode one sample file per format and never compare a pixel, so a wrong texel for any input passes; "
p("C01", "BC1 blocks decode to the colours the S3TC format defines",
  "For every 8-byte block, the BC1 decoder returns the 16 texels S3TC defines: RGB565 endpoints expanded to 8 bits by bit replication, the four-colour palette (thirds, truncated) when the first endpoint is numerically greater than the second and the three-colour palette (midpoint, truncated) otherwise, 2-bit selectors in row order from the least significant bit. In three-colour mode selector 3 is opaque black for BC1 and fully transparent black (all channels 0) for BC1a; every other texel has alpha 255.",
  ["inputs"], "all 2^64 blocks, through the block functions for BC1 and BC1a",
  WHY + "2^64 blocks are out of reach of sampling.",
  ["src/bcn/bc1.rs", "src/color.rs", "src/bcn.rs"],
  [("palette construction", "src/bcn/bc1.rs decode_bc1_block"), ("565 expansion", "src/color.rs rgb565_le")],
  ["outbuf of decode_bc1_block / decode_bc1a_block"])
p("C02", "BC2 and BC3 blocks decode to the colour and alpha the format defines",
  "For every 16-byte block, BC2 returns the explicit 4-bit alpha of each texel scaled by 17, BC3 the alpha interpolated from two 8-bit endpoints (eight-value ramp when the first is greater, otherwise six-value ramp plus 0 and 255; truncating division), and both return the colour of the second eight bytes. The colour half is always read with the four-colour palette, whatever the order of its endpoints.",
  ["inputs"], "all 2^128 blocks of BC2 and of BC3",
  WHY + "encoders rarely emit the other endpoint order, so the rare palettes are not even executed.",
  ["src/bcn/bc2.rs", "src/bcn/bc3.rs", "src/bcn/bc1.rs"],
  [("explicit alpha", "src/bcn/bc2.rs"), ("alpha ramp", "src/bcn/bc3.rs decode_bc3_alpha")], ["outbuf of the block functions"])
p("C03", "BC4 and BC5 blocks decode to the channels the format defines",
  "For every 8-byte BC4 block the red channel of the 16 texels is the value interpolated between the block's two 8-bit endpoints (eight-value or six-value-plus-0/255 ramp, truncating division, 3-bit selectors in row order), and for every 16-byte BC5 block the red and the green channel are each decoded that way from the first and the second eight bytes. In a decoded image blue (and green for BC4) is 0 and alpha 255.",
  ["inputs"], "all 2^64 BC4 blocks and all 2^128 BC5 blocks",
  WHY + "neither ramp nor channel order is checked.", ["src/bcn/bc4.rs", "src/bcn/bc5.rs", "src/bcn/bc3.rs"],
  [("single-channel ramp", "src/bcn/bc3.rs decode_bc3_alpha"), ("channel placement", "src/bcn/bc4.rs, src/bcn/bc5.rs")],
  ["outbuf of the block functions; image of decode_bc4 / decode_bc5"])
p("C04", "BC6H unsigned blocks decode per the BC6H specification",
  "For every 16-byte block, the unsigned BC6H decoder reads the mode, endpoints, delta transform, partition and indices the BC6H specification lays out, interpolates the unquantised endpoints with the specified weights, and returns each half-float result converted to 8 bits by scaling to 255 and clamping to 0..255, with alpha 255. The reserved modes give opaque black.",
  ["inputs"], "all 2^128 blocks: the 14 modes and every reserved mode, every partition, every index",
  WHY + "14 modes with scattered bit layouts; one sample image touches a few of them.",
  ["src/bcn/bc6.rs", "src/bcn/consts.rs", "src/f16.rs"],
  [("mode layouts", "src/bcn/bc6.rs"), ("unquantise / interpolate / half to u8", "src/bcn/bc6.rs, src/f16.rs")], ["outbuf of decode_bc6_block_unsigned"])
p("C05", "BC6H signed blocks decode per the BC6H specification",
  "For every 16-byte block, the signed BC6H decoder sign-extends endpoints and deltas, unquantises, interpolates and finishes them as the BC6H specification defines for SF16, and returns each half-float result converted to 8 bits by scaling to 255 and clamping to 0..255 (negative values give 0), with alpha 255. The reserved modes give opaque black.",
  ["inputs"], "all 2^128 blocks, every mode", WHY + "no test decodes a signed BC6H block at all.",
  ["src/bcn/bc6.rs", "src/bcn/consts.rs", "src/f16.rs"],
  [("sign extension, signed unquantise", "src/bcn/bc6.rs")], ["outbuf of decode_bc6_block_signed"])
p("C06", "BC7 blocks decode per the BC7 specification in all eight modes",
  "For every 16-byte block, the BC7 decoder returns the texels the BC7 specification defines for its mode: partition, endpoints with their P-bits expanded by bit replication, anchor indices one bit short, colour and alpha indices with the specified interpolation weights, index selection and channel rotation. A block with no mode bit set decodes to zero in every channel.",
  ["inputs"], "all 2^128 blocks: modes 0-7 and the reserved mode", WHY + "the sample image exercises only some modes, rotations and partitions.",
  ["src/bcn/bc7.rs", "src/bcn/consts.rs", "src/bitreader.rs"],
  [("mode table, partition tables", "src/bcn/bc7.rs, src/bcn/consts.rs"), ("bit reader", "src/bitreader.rs")], ["outbuf of decode_bc7_block"])
p("C07", "ATC blocks decode to the colours and alpha the format defines",
  "For every block, ATC RGB returns the colours of the AMD compressed-texture format: a 1-bit method flag with a 555 and a 565 endpoint expanded by bit replication; method 0 gives the two endpoints and their 5:3 and 3:5 blends (eighths, truncated), method 1 gives black, first endpoint minus a quarter of the second (never below 0), first endpoint, second endpoint. ATC RGBA adds the interpolated alpha of the first eight bytes (the BC3 ramp); alpha is otherwise 255.",
  ["inputs"], "all 2^64 ATC RGB blocks and all 2^128 ATC RGBA blocks", WHY + "method 1 underflow needs specific endpoint pairs.",
  ["src/atc.rs", "src/bcn/bc3.rs"], [("palette", "src/atc.rs")], ["outbuf of the block functions"])
p("C08", "ETC1 and ETC2 RGB blocks decode per the ETC specification",
  "For every 8-byte block, the ETC1 decoder handles individual and differential mode with both flips, and the ETC2 RGB decoder also handles the T, H and planar modes selected by overflow of the differential red, green and blue: base colours, modifier tables, distance table, selector bits and clamping are those of the Khronos ETC specification. Alpha is 255 everywhere.",
  ["inputs"], "all 2^64 blocks for ETC2 RGB; for ETC1 all blocks whose differential colours do not overflow (others are not valid ETC1)",
  WHY + "T/H/planar blocks and clamping corners depend on particular field values.",
  ["src/etc/etc1.rs", "src/etc/etc2.rs", "src/etc/consts.rs"],
  [("mode selection by overflow", "src/etc/etc2.rs decode_etc2_rgb_block"), ("modifier tables", "src/etc/consts.rs")], ["outbuf of the block functions"])
p("C09", "ETC2 RGBA1 and RGBA8 blocks decode per the ETC specification",
  "For every 8-byte block, ETC2 RGB+punch-through-alpha decodes the differential, T, H and planar modes with the opaque bit: with it clear, selector 2 is fully transparent (alpha 0) in the non-planar modes and the reduced modifier table applies. For every 16-byte block, ETC2 RGBA8 returns the colour of its second half with the alpha decoded from base, multiplier, table and 3-bit indices of its first half, clamped to 0..255.",
  ["inputs"], "all 2^64 RGBA1 blocks (colour of fully transparent texels is left open) and all 2^128 RGBA8 blocks",
  WHY + "the punch-through combinations are hardly reached by one image.", ["src/etc/etc2.rs", "src/etc/consts.rs"],
  [("opaque bit handling", "src/etc/etc2.rs decode_etc2_rgba1_block"), ("alpha codeword", "src/etc/etc2.rs decode_etc2_a8_block")], ["outbuf of the block functions"])
p("C10", "EAC R11 and RG11 blocks decode per the EAC specification",
  "For every 8-byte block, EAC R11 (unsigned and signed) yields the 11-bit values the specification defines from base codeword, multiplier (1/8 when 0), table and 3-bit indices in column order, clamped to the 11-bit range and reduced to the 8 bits of the output channel; RG11 applies this to red and green from its two halves. In a decoded image the remaining colour channels are 0 and alpha is 255.",
  ["inputs"], "all 2^64 blocks per variant (2^128 for RG)", WHY + "clamping and the zero-multiplier case need particular codewords.",
  ["src/etc/eac.rs", "src/etc/consts.rs"], [("codeword evaluation", "src/etc/eac.rs"), ("channel write", "src/etc/eac.rs")], ["outbuf of the block functions"])
p("C11", "PVRTC 4bpp images decode per the PVRTC specification",
  "For every data content, a PVRTC1 4bpp image decodes to the modulated bilinear upscale of its two low-frequency colour images: opaque and translucent endpoints, neighbour words taken with wrap-around, words stored in Morton order, standard and punch-through modulation, alpha included.",
  ["inputs", "configurations"], "all word contents for the image sizes within the stated bound (sizes whose block counts are powers of two)",
  WHY + "interpolation corners, wrap-around and punch-through combine nine blocks.", ["src/pvrtc.rs"],
  [("texel interpolation and modulation", "src/pvrtc.rs"), ("Morton order", "src/pvrtc.rs morton_index")], ["image of decode_pvrtc_4bpp"])
p("C12", "PVRTC 2bpp images decode per the PVRTC specification",
  "For every data content, a PVRTC1 2bpp image decodes like 4bpp over 8x4 blocks, with 1-bit modulation or, when the modulation flag is set, checkerboard-stored 2-bit modulation whose missing texels are interpolated horizontally, vertically or from four neighbours, including neighbours in adjacent blocks.",
  ["inputs", "configurations"], "all word contents for the image sizes within the stated bound (sizes whose block counts are powers of two)",
  WHY + "the neighbour modes depend on flags of five blocks at once.", ["src/pvrtc.rs"],
  [("modulation upsampling", "src/pvrtc.rs")], ["image of decode_pvrtc_2bpp"])
p("C13", "ASTC illegal and void-extent blocks give the defined constant colour",
  "For every 16-byte block and every footprint, a block the ASTC specification declares illegal (reserved block mode, weight grid larger than the footprint, more than 64 weights, weight bits outside 24..96, dual plane with four partitions, no room for the endpoints) decodes without panicking to the error colour (magenta) in every texel. A void-extent block gives its constant colour in every texel.",
  ["inputs", "configurations"], "all 2^128 blocks for each of the 14 legal 2D footprints",
  "No test contains an illegal block: encoders never emit one, while decoders are handed arbitrary files.", ["src/astc.rs"],
  [("block-mode parsing", "src/astc.rs decode_block_params"), ("void extent", "src/astc.rs decode_astc_block")], ["outbuf of decode_astc_block"])
p("C14", "ASTC LDR endpoints, partitions and interpolation follow the ASTC specification",
  "For every legal block that uses only LDR endpoint modes, each texel is the colour the ASTC specification interpolates for the texel's weight: endpoint mode selectors of one to four partitions, the colour range the remaining bits allow, trits/quints/bits of the endpoint values unpacked and unquantised, endpoint modes including base+offset, blue-contraction and base-scale, the partition of each texel chosen by the specified hash, the second weight plane applied to the selected channel, and 16-bit interpolation rounded to 8 bits.",
  ["inputs", "configurations"], "all payload bits for the block modes, footprints, partition counts and endpoint modes in the stated bound",
  WHY + "millions of mode combinations; one image per footprint touches few.", ["src/astc.rs"],
  [("integer sequence decoding", "src/astc.rs decode_intseq"), ("endpoints, weights, partition, colour application", "src/astc.rs")], ["outbuf of decode_astc_block"])
p("C15", "ASTC HDR endpoint modes decode per the ASTC specification",
  "For every legal block that uses HDR endpoint modes (2, 3, 7, 11, 14, 15), each texel is obtained by interpolating the HDR endpoints the specification defines, converting the result from its logarithmic form to a half float, and scaling and clamping it to 8 bits (a non-finite value gives 255).",
  ["inputs"], "all payload bits for the block modes and footprints in the stated bound", "No test image contains an HDR block.", ["src/astc.rs", "src/f16.rs"],
  [("HDR endpoint decoding", "src/astc.rs decode_endpoints_hdr7, decode_endpoints_hdr11"), ("half to u8", "src/astc.rs, src/f16.rs")], ["outbuf of decode_astc_block"])
p("C27", "ASTC block modes, weight grids and weight infill follow the ASTC specification",
  "For every legal block mode and footprint, the weight of each texel (and plane) is the one the ASTC specification defines: block mode bits giving grid size, weight range and dual plane, weights read bit-reversed from the block's end, trits/quints/bits unpacked and unquantised to 0..64, and bilinear infill from the weight grid to the footprint; the texel is the endpoints interpolated with it.",
  ["inputs", "configurations"], "all 775 legal block modes, 14 footprints, weight bits in the stated bound",
  WHY + "each test image uses the few grids one encoder prefers.", ["src/astc.rs"],
  [("block-mode parsing", "src/astc.rs decode_block_params"), ("weights and infill", "src/astc.rs decode_weights"), ("integer sequence decoding", "src/astc.rs decode_intseq")], ["outbuf of decode_astc_block"])
p("C16", "Decoded blocks land row-major at their place in the image",
  "For every block-based decoder and every image size, texel (x, y) of the image is texel (x mod bw, y mod bh) of the block number (y / bh) * ceil(w / bw) + (x / bw), blocks being consecutive in the data; blocks at the right and bottom edge are cropped. Decoding is all-or-nothing in width*height texels: nothing else of the image buffer is written, surplus data is ignored, and previous image contents do not show through.",
  ["inputs", "configurations"], "all data contents and the sizes in the stated bound (multiples and non-multiples of the block size), each format's image function",
  WHY + "the sample images are multiples of the block size and their buffers are exactly sized.", ["src/macros.rs", "src/color.rs", "src/astc.rs"],
  [("block loop", "src/macros.rs block_decoder!"), ("copy with cropping", "src/color.rs copy_block_buffer")], ["image of every decode function"])
p("C17", "Decoders fail exactly on short data or short buffers, touching nothing",
  "For every width and height in the full range of usize, every image decode function returns Ok when the data holds all blocks and the image buffer holds width*height texels (an empty image needs neither), and otherwise returns Err, writing nothing to the image buffer. PVRTC additionally requires the number of blocks of each side to be a power of two, and decode_astc a block of at least 2x2 and at most 144 texels; other non-empty requests are refused with Err. No size makes it panic, overflow or read or write outside the slices.",
  ["inputs", "configurations"], "all usize widths and heights with slices up to the stated lengths",
  "The tests only pass well-sized buffers; overflowing sizes and one-short buffers never occur.", ["src/macros.rs", "src/astc.rs", "src/pvrtc.rs"],
  [("size validation", "src/macros.rs block_decoder!, src/astc.rs decode_astc, src/pvrtc.rs decode_pvrtc")], ["return value and image of every decode function"])
p("C18", "Block decoders are total functions of the block's bytes",
  "For every block content, each public block decode function terminates without panicking, writes only the texels of the block at the start of the output slice, and produces them from the block's own bytes: bytes after the block and texels after the block make no difference, and for the functions that produce whole texels neither do the previous output contents. Single-channel functions change only their own channel.",
  ["inputs"], "all block contents, with surplus bytes in data and surplus texels in the output",
  "The tests never call a block function directly.", ["src/bcn.rs", "src/atc.rs", "src/etc", "src/astc.rs", "src/bcn/bc3.rs"],
  [("block functions", "src/bcn/*.rs, src/etc/*.rs, src/atc.rs, src/astc.rs")], ["outbuf of the block functions"])
p("C19", "Named variants agree with the parameterised decoders they wrap",
  "For every input, each decode_astc_X_Y equals decode_astc with that footprint, decode_bc6_signed/unsigned equal decode_bc6 with the flag (and the same for the block functions), decode_pvrtc_2bpp/4bpp equal decode_pvrtc with the flag, and the result and the image are identical in both.",
  ["inputs", "configurations"], "all data contents for the sizes in the stated bound, valid and too-short buffers",
  "The tests call one form of each pair and compare nothing.", ["src/astc.rs", "src/bcn.rs", "src/bcn/bc6.rs", "src/pvrtc.rs"],
  [("wrapper macros", "src/astc.rs, src/bcn.rs, src/pvrtc.rs")], ["results and images of both forms"])
p("C20", "Crunch header parsing returns exactly the file's fields",
  "For every byte string and every claimed size, parsing texture info either returns false or fills width, height, levels, faces, format, bytes per block and both userdata words with the big-endian fields of the header; it returns true exactly when the claimed size is not below the minimum header (74 bytes) nor above the bytes available, the signature matches, the declared header size is at least the minimum and the declared data size at most the claimed size, every level has its entry of the level table inside the claimed size, and the format is one of the 15 known ones (0 to 14). It never panics.",
  ["inputs"], "all header bytes, level counts and claimed sizes with files up to the stated length",
  "The tests parse a few well-formed files.", ["src/crnlib.rs", "src/crunch/crn_decomp.rs"],
  [("header reader", "src/crunch/crn_decomp.rs crnd_get_header"), ("field validation", "src/crnlib.rs crnd_get_texture_info")], ["CrnTextureInfo fields and return value"])
p("C21", "Crunch files decode to the blocks the crunch format defines",
  "For every well-formed stream, decoding a Crunch (DXT1, DXT5, DXT5A, DXN) file yields the image of the DXT blocks which the reference crunch algorithm reconstructs: canonical Huffman symbols, delta-coded endpoint and selector palettes, 2x2 chunks in serpentine order with their tile encodings, the endpoint and selector indices advancing modulo the palette size, and skipped right/bottom blocks for odd block counts.",
  ["inputs"], "all palette and level bit streams for the file skeletons in the stated bound",
  "The tests decode one file per format and never look at the result.", ["src/crunch.rs", "src/crunch"],
  [("bit and Huffman decoding", "src/crunch/crn_symbol_codec.rs"), ("palettes and level unpacking", "src/crunch/crn_unpacker.rs")], ["image of decode_crunch"])
p("C22", "Unity Crunch files decode to the blocks Unity's format defines",
  "For every well-formed stream, decoding a Unity Crunch file (DXT1, DXT5, DXT5A, DXN, ETC1, ETC1S, ETC2, ETC2A, ETC2AS) yields the image of the blocks which Unity's crunch algorithm reconstructs: endpoint references (new, left, upper, for ETC also diagonal), XOR-coded selectors, sub-block endpoints for ETC and alpha codewords for ETC2A.",
  ["inputs"], "all palette and level bit streams for the file skeletons in the stated bound",
  "The tests decode one file per format and never look at the result.", ["src/unitycrunch.rs", "src/unitycrunch"],
  [("palettes and level unpacking", "src/unitycrunch/crn_unpacker.rs")], ["image of decode_unity_crunch"])
p("C23", "Crunch Huffman models decode canonical prefix codes",
  "For every table of code lengths of a prefix code a stream may carry, building the Huffman model yields a decoder that maps every bit string to the symbol of the canonical prefix code with those lengths and consumes exactly that symbol's length, however many bits are buffered and wherever the section ends (it continues with zeros); a table without any code is refused.",
  ["inputs"], "all code-length vectors up to the stated alphabet size and all bit strings", "The tests exercise the code tables of nine files.",
  ["src/crunch/crn_static_huffman_data_model.rs", "src/crunch/crn_symbol_codec.rs"],
  [("table construction", "src/crunch/crn_static_huffman_data_model.rs"), ("symbol decode", "src/crunch/crn_symbol_codec.rs decode")], ["image of decode_crunch on streams carrying the tables"])
p("C24", "Malformed crunch files are rejected or decoded, never a panic",
  "For every byte string, decode_crunch and decode_unity_crunch return Ok or Err: damaged headers, offsets and sizes outside the file, truncated sections, empty or over-subscribed code tables, out-of-range symbols and empty palettes never make them panic, loop forever or access memory outside the file and the image.",
  ["inputs"], "all damage within the stated skeletons: symbolic header fields, symbolic table sections, symbolic palettes and levels, truncations",
  "The tests decode only intact files.", ["src/crunch.rs", "src/unitycrunch.rs", "src/crunch", "src/unitycrunch", "src/crnlib.rs"],
  [("bounds and error paths", "src/crunch/*.rs, src/unitycrunch/*.rs")], ["termination and return value"])
p("C25", "PVRTC decoding is the same with and without the alloc feature",
  "The crate also builds without the alloc feature, and for every data content and every size the PVRTC decoders then return the same result and the same image as with it.",
  ["inputs", "configurations"], "both feature sets; all word contents for the sizes in the stated bound",
  "The tests build one feature set only.", ["src/pvrtc.rs", "src/lib.rs", "Cargo.toml"],
  [("feature-gated implementations", "src/pvrtc.rs"), ("module gating", "src/lib.rs")], ["build result; image of decode_pvrtc in both builds"])
p("C26", "Python bindings return the decoded image bytes or raise, never panic",
  "For every data, width and height, each Python function returns exactly width*height*4 bytes in B, G, R, A order equal to the Rust decoder's image, or raises an exception carrying the decoder's error; it hands the decoder a buffer of exactly width*height texels and never panics, including the parameterised ASTC entry point.",
  ["inputs", "configurations"], "all data contents and sizes within the stated bound, each bound function",
  "The Python tests decode one file per format through the generic functions; the parameterised one and all error paths are never called.",
  ["bindings/python/src/lib.rs"], [("pybind! macro", "bindings/python/src/lib.rs"), ("decode_astc", "bindings/python/src/lib.rs")], ["return value or exception of each function"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
