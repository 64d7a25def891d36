#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text stays readable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if hook is not None: a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

B, D, E, L, V, M = ("gift/src/block.rs", "gift/src/decode.rs", "gift/src/encode.rs", "gift/src/lzw.rs", "gift/src/private.rs", "gift-bin/src/main.rs")

p("C01", "Image data survives encoding and decoding",
  "For every sequence of pixel indices, encoding it as an image data block and decoding the written bytes with an image descriptor of the same size yields exactly that sequence. This holds for every length (including empty, and lengths which fill the code table many times) and every set of values 0 to 255.",
  ["inputs"], "all pixel sequences, all lengths, all value sets, hence all code table states of encoder and decoder in lockstep",
  "The tests encode three tiny images and decode one; code width changes, a full table, table clears, the last partial byte and large indices are never reached.",
  [L, E, D], [("code packing, table insertion, width growth, table clear and final flush of the compressor", L), ("code unpacking, table growth, width growth of the decompressor", L), ("choice of the minimum code size", E)],
  ["bytes written by the block encoder", "data of the decoded image data block"])

p("C02", "LZW decoding follows the GIF definition for every code stream",
  "For every minimum code size from 2 to 8 and every byte string, the decoded pixel data of an image is what the GIF variant of LZW defines: codes are read least significant bit first, the code width grows from minimum+1 up to 12 bits as the table fills, a clear code restarts the table, nothing is decoded after the end code, and the table stays fixed once it has 4096 entries. A stream whose next code has no definition is rejected with the invalid LZW data error, and how the stream is cut into sub-blocks never matters.",
  ["inputs"], "all byte strings as image data, all ways to split them in sub-blocks, all minimum code sizes",
  "Only one short valid stream is decoded by tests; deferred clears, undefined codes, data behind the end code and the 4096 entry limit are never exercised.",
  [L, D], [("bit accumulator and code extraction", L), ("dictionary growth, prefix handling and string reconstruction", L), ("feeding of sub-blocks to the decompressor", D)],
  ["data or error returned by the block iterator for an image data block"])

p("C03", "Encoded image data is well-formed for any GIF reader",
  "Every encoded image data block starts with a minimum code size from 2 to 8 which is large enough for the largest pixel value, followed by data sub-blocks of 1 to 255 bytes and one empty sub-block. Reading the concatenated sub-blocks as LZW codes gives a clear code first and then only codes which are defined at that point, with code widths that follow the table size, so any conforming LZW reader recovers the pixels.",
  ["inputs"], "all pixel sequences",
  "Tests compare three fixed outputs; sub-block boundaries (254, 255, 256 bytes and multiples), width changes and table overflow are not covered.",
  [E, L], [("splitting of compressed data into sub-blocks", E), ("minimum code size from the maximum pixel value", E), ("emission of clear codes and code width changes", L)],
  ["bytes written by the block encoder"])

p("C04", "Decoding arbitrary bytes never panics, overflows or hangs",
  "For every byte string, every reader behaviour and every configured maximum image size, iterating blocks, frames or steps (once or with looping) never panics, never overflows an integer, never indexes out of bounds and every call returns (exhaustion of memory aside). Every non-looping iteration ends after finitely many items.",
  ["inputs", "configurations"], "all byte strings x all size limits x all three iteration levels",
  "Unit tests decode two valid files and two broken headers; the space of malformed files is unbounded.",
  [D, L, B], [("length checks and slicing while parsing blocks", D), ("table indexing in the decompressor", L), ("screen and frame bounds when drawing", D)],
  ["return of every iterator call"])

p("C05", "Every block survives encoding and decoding",
  "Every header (of version 87a or 89a), logical screen descriptor, color table, image descriptor, graphic control, plain text, comment, application, unknown extension (with a one-byte identifier of no other extension) and trailer block which can be built through the public interface and is consistent with the block before it decodes to an equal block from the bytes the block encoder writes for it. Exactly the bytes of that block are consumed, so the following block is decoded from the right position.",
  ["inputs", "programs"], "all field values of all block types, all sub-block contents and counts, all valid sequences of blocks",
  "The tests never decode what they encode, and only see one value for most fields.",
  [E, D, B], [("per-block formatting", E), ("per-block parsing and sub-block assembly", D)],
  ["bytes written", "blocks returned by the block iterator"])

p("C06", "Block sequence is parsed by the GIF grammar",
  "A decoder accepts exactly: a header with version 87a or 89a, a logical screen descriptor, a global color table if and only if the descriptor announces one (with the announced size), then extensions and images until the trailer, where each image descriptor is followed by a local color table if and only if announced and then by image data. Multi-byte fields are little-endian, unknown extensions are kept with their identifier and sub-blocks, and any other introducer byte, a bad signature or version, a graphic control sub-block whose length is not 4 or a truncated file gives the corresponding error.",
  ["inputs", "histories"], "all byte strings, all positions in the block sequence",
  "Tests cover one valid file, one bad version and one empty file.",
  [D, B], [("expected next block state", D), ("parsing of each block type", D), ("introducer and extension label codes", B)],
  ["sequence of blocks and errors returned by the block iterator"])

p("C07", "Decoding does not depend on how the reader delivers bytes",
  "The sequence of blocks, frames, steps and errors depends only on the bytes the reader delivers in total, not on how many bytes each read call returns nor on interrupted reads, which are retried. Any other reader error is returned to the caller as an I/O error, and a reader that ends inside a block gives the unexpected end of file error.",
  ["inputs", "fault_sequences"], "all byte strings x all sequences of read sizes, interruptions and one failure position",
  "All tests read from in-memory slices which always fill the whole buffer and never fail.",
  [D], [("buffer filling loop", D)], ["results of the iterators for different readers of the same bytes"])

p("C08", "Decoded image data has exactly the announced size within the limit",
  "Every decoded image data block holds exactly width times height bytes of the preceding image descriptor; surplus data is cut off and missing data gives the incomplete image data error. An image descriptor whose width times height exceeds the configured maximum is rejected with the too large image error before its data is read, while sizes equal to or below the maximum are accepted; the default maximum is 33554432 bytes.",
  ["inputs", "configurations"], "all descriptors, all data lengths, all limits including none",
  "No test sets a limit, and none has surplus or missing image data.",
  [D, V], [("size limit check", D), ("final length check and truncation", D), ("default limit and its configuration", V)],
  ["result of the block iterator for image descriptors and image data"])

p("C09", "Frame encoder accepts only the order preamble, frames, trailer",
  "A frame encoder accepts the preamble exactly once and first, then any number of frames, then exactly one trailer; every call out of this order fails with the invalid block sequence error and writes nothing. The bytes written are the concatenation of the encoded parts: header, screen descriptor, optional global table, optional loop count, comments; for each frame optional graphic control, image descriptor, optional local table and image data; and the trailer.",
  ["histories", "inputs"], "all call sequences on a frame encoder, all preambles and frames",
  "Tests only use the step encoder with one image; wrong call orders are never tried.",
  [E], [("preamble and trailer flags", E), ("order of block writes", E)], ["result of each call", "bytes written"])

p("C10", "Frames group the right blocks and reject bad sequences",
  "The frame iterator yields one frame per image in file order, made of that image's descriptor, its local color table if it has one, its image data, and the graphic control block read since the previous image if there is one; nothing leaks from one frame into the next. Two graphic controls before one image are rejected with the invalid block sequence error. The preamble holds the header, screen descriptor, global table, loop count extension and comments which precede the first frame block.",
  ["inputs", "histories"], "all block sequences",
  "Tests see files with a single image and at most one graphic control.",
  [D, B], [("pending graphic control, descriptor and local table", D), ("preamble collection", D)], ["frames and preamble returned by the frame iterator"])

p("C11", "Steps show the correct composition of frames",
  "Each step's raster has the size of the logical screen and equals the previous canvas (initially all transparent) with the frame's pixels drawn at its position: pixel colors come from the local table if present and otherwise from the global table, are fully opaque, and pixels of the transparent index leave the canvas unchanged. The canvas for the next step is the drawn one, except that background disposal clears the frame's rectangle to transparent and previous disposal restores the canvas from before the frame. Frames outside the screen or empty, indices outside the table and frames with no table give the corresponding errors.",
  ["inputs", "histories"], "all sequences of frames with all disposal methods, positions, tables and pixel values",
  "One test decodes a single full-screen frame; disposal, partial frames, transparency and table selection are not tested.",
  [D, B], [("disposal handling", D), ("drawing of a frame region", D), ("color table choice", D)], ["rasters returned by the step iterator"])

p("C12", "Interlaced frames are drawn in display order",
  "Drawing an interlaced frame of any height gives the same raster as drawing the frame with its rows rearranged to top-to-bottom order, where the stored rows are every 8th row from row 0, every 8th from row 4, every 4th from row 2 and every 2nd from row 1. Every stored row is used for exactly one display row.",
  ["inputs"], "all heights (0 to 65535) and all rows",
  "No test uses an interlaced image.",
  [D], [("mapping between stored and displayed rows", D)], ["rasters returned by the step iterator for interlaced images"])

p("C13", "Packed flag fields are independent and round-trip",
  "For graphic control, image descriptor and logical screen descriptor blocks, setting one packed field (a valid disposal method, user input, transparent color, interlaced, or the color table configuration) makes its getter return the value set and leaves every other field's getter unchanged (only the obsolete color resolution follows the table size). Flags are laid out as the GIF format defines, and a color table configuration built for n entries announces the smallest power of two from 2 to 256 which holds n entries (256 if n is larger) and a byte size of three times that.",
  ["inputs", "programs"], "all flag bytes x all field values x all setters (complete finite domain)",
  "Tests check one chain of setters and nine table sizes; independence of fields over all flag values is not tested.",
  [B], [("bit masks and shifts of the three flag bytes", B), ("table size code", B)], ["getters and encoded flag bytes"])

p("C14", "Loop count is stored and honoured correctly",
  "For every count from 0 to 65535, an application block built with that loop count reports it, is written as the NETSCAPE2.0 block with the count in little-endian order, and reports it again after decoding; any application block without the NETSCAPE2.0 or ANIMEXTS1.0 looping layout reports none. Iterating a decoder with looping yields the file's steps once without a loop count, count+1 times in total for a count above zero, and endlessly for zero.",
  ["inputs", "histories"], "all 65536 counts, all application blocks, all numbers of steps",
  "Tests check counts 0 and 4 on the in-memory block only and never iterate a looping file.",
  [B, D, V], [("loop count construction and recognition", B), ("repetition state of the looping iterator", D)], ["reported count, encoded bytes, sequence of steps"])

p("C15", "An error ends iteration and nothing follows it",
  "After a block, frame or step iterator returns an error, its next call returns the end of iteration; a step iterator stays at the end for all later calls. All items before the first error are the same as for a file without the damage, also when iterating with looping, where each decoded step comes once, then the error, then the end. After the trailer a block or frame iterator returns the end of iteration.",
  ["inputs", "histories"], "all damaged or truncated files, all iteration levels, all numbers of further calls",
  "One test checks this for a bad header and one for an empty file.",
  [D], [("end flags of the iterators", D), ("error storage of the looping iterator", D)], ["sequence of results of repeated iterator calls"])

p("C16", "Encoded steps decode to the same pictures",
  "For every sequence of non-empty indexed rasters of one size (within the decoder's limit) whose pixels are inside their palettes, the file written by the step encoder decodes to the same number of steps, each with that size, the same transparent color and the same delay time (none counts as zero), and with every pixel not of the transparent index showing its palette color opaquely. A raster whose size differs from the first one is rejected with the invalid raster dimensions error and one larger than 65535 in a dimension with an integer range error, in both cases without writing anything; the trailer is written when the encoder is dropped.",
  ["inputs", "histories"], "all rasters, palettes (0 to more than 256 entries), step settings and numbers of steps, palette changes between steps",
  "Tests encode three single-step files and compare bytes; several steps, changing palettes, delays and size mismatches are untested.",
  [E, V, D], [("palette to color table conversion and padding", E), ("global or local table decision", E), ("step settings", V)], ["bytes written", "steps decoded from them"])

p("C17", "Write errors are reported and written bytes are a prefix",
  "If the writer fails, the encoding call which hit the failure returns that I/O error, and the bytes written before it are a prefix of what would have been written without the failure. If no write fails, every encoding call on valid input succeeds and the bytes do not depend on how many bytes the writer accepts per call.",
  ["inputs", "fault_sequences"], "all blocks, frames and steps x all failure positions x all short write patterns",
  "All tests write to a vector, which never fails and accepts everything.",
  [E], [("error propagation from each write", E)], ["result of each encoding call", "bytes accepted by the writer"])

p("C18", "Step settings read back as set",
  "A step built with any transparent color, delay time and disposal method, set in any order and any number of times, reports the last transparent color set and the last delay time set (zero and none are the same), and encodes a graphic control block with exactly these values and the last disposal method. A step with only default settings has no graphic control block.",
  ["inputs", "programs"], "all orders of settings and all values",
  "No test sets any step setting.",
  [V, B], [("graphic control update of a step", V)], ["getters of a step", "encoded graphic control block"])

p("C19", "Command line tool lists every frame of a file",
  "For every GIF file with at least one frame which can be decoded the gift command exits successfully and prints the GIF version, the number of frames, the repeat count if there is one and the comments, and then one line per frame in order with its interlacing mark, number, delay in seconds, disposal method, size, position, number of local (or global) colors and transparent index. For a file which cannot be decoded it exits with an error.",
  ["inputs"], "all GIF files",
  "The command has no tests.",
  [M], [("frame table output", M)], ["standard output and exit status of the gift command"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
