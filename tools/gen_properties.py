#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    if hook is not None: a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Lossless round trip at maximum quality",
 "When the header has quality 1024 and either no channel is flagged as chroma or chroma_scale is 1, the bytes written by compress_simple, decoded with Header::decode and decompress_simple (downsampling 0), give Ok(0) and exactly the original image. This holds for every width, height, layer and channel count, every block size, filter and encoder the header builder accepts, and every well-formed colour transform program (distinct destination channels, no channel that is its own source, denominators from 1 to 32767).",
 ["inputs", "configurations"],
 "every u8 image, every header accepted by HeaderBuilder with quality 1024 (no chroma, or chroma_scale 1), every well-formed ColorTransformProgram",
 "The unit tests round-trip a handful of fixed small images; context models, run coders, block borders and step sizes interact differently for every dimension, content and block size.",
 ["src/lib.rs", "src/compress/mod.rs", "src/encode/mod.rs", "src/lifting", "src/color_transform/mod.rs"],
 [("compress_simple/decompress_simple", "src/lib.rs"), ("compress_image_data/decompress_image_data", "src/compress/mod.rs"), ("encode/decode", "src/encode/mod.rs")],
 ["decompress_simple output buffer"])

prop("C02", "Encoder output is the GFWX v1 bitstream, byte for byte",
 "For every image, header and colour program, compress_simple produces exactly the byte sequence that the GFWX v1 reference encoder (reference_app/gfwx.hpp) produces for the same input, so files written by this library are readable by any GFWX v1 decoder and stay byte-stable between versions.",
 ["inputs", "configurations"],
 "every u8 image and header (quality 1..1024, chroma_scale 1..255, block_size 2..30, both filters, all three encoders, any layers/channels), every well-formed colour program with factors of magnitude below 2^20",
 "Tests pin a few byte vectors of 8x4 or 12x8 images; an encoder that changes a context threshold, a rounding or a block layout for other inputs stays self-consistent and passes them while breaking the format.",
 ["src/lib.rs", "src/header/mod.rs", "src/compress/mod.rs", "src/encode/mod.rs", "src/quant/mod.rs", "src/lifting", "src/bits/mod.rs", "src/color_transform/mod.rs"],
 [("compress_image_data", "src/compress/mod.rs"), ("encode, get_context, unsigned_code", "src/encode/mod.rs"), ("GFWX::compress", "reference_app/gfwx.hpp")],
 ["compress_simple output bytes"])

prop("C03", "Decoder reconstructs reference streams like the reference decoder",
 "For every stream produced by the GFWX v1 reference encoder for u8 images, Header::decode plus decompress_simple reconstructs exactly the pixels the reference decoder reconstructs, at every quality, chroma scale, filter, encoder, block size and layer/channel count, and reports Ok(0).",
 ["inputs", "configurations"],
 "every stream the reference encoder can produce from u8 data for any header gfwx-rs accepts",
 "Functional tests decode reference files for a few screenshots and compare only self-consistency; each quality level, channel layout and block layout takes other code paths.",
 ["src/lib.rs", "src/compress/mod.rs", "src/encode/mod.rs", "src/quant/mod.rs", "src/lifting", "src/color_transform/mod.rs"],
 [("decompress_image_data", "src/compress/mod.rs"), ("decode", "src/encode/mod.rs"), ("dequantize", "src/quant/mod.rs"), ("GFWX::decompress", "reference_app/gfwx.hpp")],
 ["decompress_simple output buffer"])

prop("C04", "Lossy coding loses nothing but the quantizer remainder",
 "For any quality, decompressing an image with the auxiliary-data API gives exactly the inverse wavelet transform of the dequantized quantized coefficients: entropy coding and block splitting lose nothing, and every wavelet coefficient whose reconstruction point fits 16 bits is off by less than one quantizer step of its level, the DC coefficient not at all. Channels flagged chroma use the chroma quality max(1, (quality + chroma_scale/2) / chroma_scale), all others the header quality, and no channel's data influences another channel's reconstruction.",
 ["inputs", "configurations"],
 "every i16 auxiliary image reachable from u8 pixels, every quality 1..1024, chroma_scale, chroma flags, filter, encoder and block size",
 "Tests compare a few lossy vectors; the error bound has to hold for each coefficient of each level of each image.",
 ["src/compress/mod.rs", "src/quant/mod.rs", "src/encode/mod.rs", "src/header/mod.rs"],
 [("lift_and_quantize/unlift_and_dequantize", "src/compress/mod.rs"), ("quantize/dequantize", "src/quant/mod.rs"), ("get_chroma_quality", "src/header/mod.rs")],
 ["aux_data after decompress_aux_data"])

prop("C05", "Downsampled decoding yields the low-pass image",
 "decompress_simple with downsampling d gives an image of ceil(w/2^d) x ceil(h/2^d) pixels that is exactly the wavelet low-pass band at that level (inverse-transformed from the stream's coefficients at multiples of 2^d, dequantized with quality << d, detransformed), and Ok(0). This holds for all encoders, filters, qualities and every d, including a d so large that only the DC coefficient remains.",
 ["inputs", "configurations"],
 "every compressed image and every downsampling value from 0 to 31",
 "There is one downsampling unit test on one small image; coefficient selection, block geometry and coder state at reduced scale depend on size, quality, encoder and d together.",
 ["src/compress/mod.rs", "src/lib.rs", "src/header/mod.rs", "src/encode/mod.rs"],
 [("decompress_image_data downsampling", "src/compress/mod.rs"), ("get_downsampled_*", "src/header/mod.rs"), ("decode", "src/encode/mod.rs")],
 ["decompress_simple output buffer"])

prop("C06", "Truncated data decode progressively and never look complete",
 "Given any prefix of a compressed stream (cut after the colour program), decompress_simple returns Ok(0) only if the prefix holds everything the requested downsampling needs, and otherwise Ok(n) with n greater than the prefix length; fetching up to n and retrying therefore completes after a bounded number of rounds. Once a resolution step's table of sizes is in the prefix, n covers all blocks of that step and goes no further than the room for the next step's table, and no further than the end of the blocks in the last step that is needed. The image written is the decode of the complete blocks in the prefix with all missing coefficients zero, and test mode gives the same verdict without modifying the output buffer.",
 ["fault_sequences", "inputs", "histories"],
 "every truncation point of every compressed stream, every downsampling, and every sequence of retries that follows the returned points of interest",
 "A test samples two or three truncation points of one stream; the verdict must be right at each byte of each stream, and the retry loop is a history.",
 ["src/compress/mod.rs", "src/lib.rs", "src/processing/variable_chunks_iterator.rs"],
 [("next_point_of_interest/is_truncated", "src/compress/mod.rs"), ("decompress_simple", "src/lib.rs"), ("VariableChunksIterator", "src/processing/variable_chunks_iterator.rs")],
 ["decompress_simple/decompress_aux_data return value and output"])

prop("C07", "No input bytes can crash the decoder or break memory safety",
 "Header::decode, ColorTransformProgram::decode, decompress_simple and decompress_aux_data return normally (Ok or Err) on every byte string, for every header Header::decode accepts whose output buffer the caller has allocated: no panic, no out-of-bounds or uninitialised access, no unbounded recursion, loop or allocation beyond the image and its block table. This includes corrupted, truncated, spliced and adversarial streams, and builds with overflow checks and debug assertions.",
 ["inputs", "fault_sequences", "programs"],
 "every byte string given as header, colour program or payload, every accepted header, every downsampling",
 "Malformed inputs are unbounded; tests try three hand-made corrupt block lengths.",
 ["src/header/mod.rs", "src/color_transform/mod.rs", "src/compress/mod.rs", "src/encode/mod.rs", "src/bits/mod.rs", "src/processing/image.rs"],
 [("Header::decode", "src/header/mod.rs"), ("ColorTransformProgram::decode", "src/color_transform/mod.rs"), ("decode, unsigned_decode", "src/encode/mod.rs"), ("get_unchecked(_mut)", "src/processing/image.rs")],
 ["process exit, sanitizer reports, return value"])

prop("C08", "Too small output buffers give an error; success is independent of size",
 "For every output buffer length, compress_simple and compress_aux_data either return an error or succeed without writing outside the buffer, and never panic. If they succeed with one length they succeed with every larger one, always returning the same size and the same bytes.",
 ["inputs", "configurations", "fault_sequences"],
 "every image and header with every output buffer length from 0 upwards",
 "The outcome depends on how the remaining space is partitioned between blocks at each level; tests use one too-small buffer.",
 ["src/compress/mod.rs", "src/lib.rs", "src/bits/mod.rs"],
 [("compress_image_data temp_block_size", "src/compress/mod.rs"), ("BitsIOWriter", "src/bits/mod.rs")],
 ["compress_simple result, guard bytes around the buffer"])

prop("C09", "Results do not depend on threads, scheduling or build features",
 "Compressed bytes, decoded pixels, returned sizes and verdicts are a function of the arguments only: they are identical for every rayon pool size, every interleaving of worker threads, concurrent independent calls, repeated runs, and for builds with and without the rayon and adaptive_multithreading features. Every call returns, also one made by a worker of the pool it uses or next to other calls.",
 ["schedules", "configurations", "histories"],
 "every schedule of the parallel loops, every thread count, every feature combination, every input",
 "Parallel order effects (par_bridge yields blocks out of order) appear only under particular interleavings; unit tests run once on one machine and mostly below the parallel thresholds.",
 ["src/processing/maybe_parallel.rs", "src/compress/mod.rs", "src/lifting", "src/quant/mod.rs", "src/config.rs"],
 [("process_maybe_parallel_for_each/map_collect", "src/processing/maybe_parallel.rs"), ("sorted_block_encode_results", "src/compress/mod.rs"), ("Config::multithreading_factors", "src/config.rs")],
 ["compress/decompress results per schedule"], hook="optional callback around each parallel item, to perturb and record schedules")

prop("C10", "Parallel and unsafe code has no data race and no undefined behaviour",
 "During any compress or decompress call no two threads access the same memory location concurrently with one of them writing, and the unchecked indexing, raw pointers and Send/Sync implementations never cause an out-of-bounds access, an aliasing violation or a read of uninitialised memory. This holds for every image, block layout and schedule.",
 ["schedules", "inputs"],
 "every interleaving of the workers in lifting, quantization, block encoding and decoding, for every image geometry",
 "A race or an aliasing violation usually leaves the results of a test run unchanged; only an instrumented execution sees it.",
 ["src/processing/image.rs", "src/processing/maybe_parallel.rs", "src/processing/overlapping_chunks_iterator.rs", "src/processing/double_overlapping_chunks_iterator.rs", "src/lifting/cubic.rs", "src/lifting/linear.rs", "src/encode/mod.rs"],
 [("ImageChunkMut unsafe Send/Sync, get_unchecked", "src/processing/image.rs"), ("horizontal/vertical_lifting_base", "src/lifting"), ("get_context", "src/encode/mod.rs")],
 ["ThreadSanitizer, AddressSanitizer and Miri reports"], hook="optional callback around each parallel item, to perturb schedules")

prop("C11", "Header encoding round-trips and invalid headers are rejected",
 "Header::encode writes 32 bytes that Header::decode reads back as an equal header (metadata_size rounded down to a multiple of 4) for every header HeaderBuilder::build accepts, and whatever Header::decode accepts re-encodes to the bytes that were read, except for bits above the field widths. Wrong magic, and sizes, qualities, block sizes, enum values, signedness or bit depths outside the supported ranges are rejected with HeaderErr, as are parameters that cannot be represented (block_size below 2, zero layers, channels or chroma_scale), and the size helpers equal the exact arithmetic on the fields. A header whose public fields were set (version, signedness, bit depth, ...) is written as the format says, and the public limits are those of the format (quality 1024, blocks 2^7 by default and at most 2^30).",
 ["inputs", "configurations"],
 "every combination of builder fields and every 32-byte string",
 "A few example headers are tested; the field packing has boundary values in every field and any 32-byte input is possible.",
 ["src/header/mod.rs", "src/header/builder.rs"],
 [("Header::encode/decode", "src/header/mod.rs"), ("HeaderBuilder::build/check_range", "src/header/builder.rs")],
 ["Header values and encoded bytes"])

prop("C12", "Colour transform programs round-trip and invert exactly",
 "ColorTransformProgram::decode reads back exactly the program that encode wrote, with the same chroma flags, consuming exactly the bytes written (a multiple of 4), for any number of channels and any factors of magnitude below 2^31, and rejects programs that name missing channels or denominators outside 1..32767. For every well-formed program, detransform(_and_to_interleaved) applied to the output of transform(_and_to_planar) restores the image, and each destination channel of the transform equals image*boost plus the factor-weighted sum of its sources (already transformed ones taken from the transformed data) divided by the denominator in 16-bit integer arithmetic (rounding toward zero), for every sample type and whatever the auxiliary buffer held before.",
 ["inputs", "programs"],
 "every colour program with distinct destinations and positive denominators, every image, layer and channel count, both boosts",
 "Tests cover the three built-in programs on tiny images; programs are small user-defined programs with ordering effects and 16-bit wrap-around.",
 ["src/color_transform/mod.rs", "src/encode/mod.rs"],
 [("encode/decode", "src/color_transform/mod.rs"), ("transform_base/detransform_base", "src/color_transform/mod.rs")],
 ["program values, aux data, image"])

prop("C13", "Planar/interleaved conversions are exact and touch only their channels",
 "interleaved_to_planar writes sample i of each kept channel, times boost, to the planar position of that channel and nothing else; planar_to_interleaved divides by boost, clamps to 0..255 and writes it back to the interleaved position, leaving skipped channels of the output unchanged. For every channel count and skip list the two compose to the identity on kept channels, and transform_and_to_planar and transform agree on interleaved and planar forms of the same image.",
 ["inputs", "configurations"],
 "every channel count, skip list, boost and pixel data, including auxiliary values outside the u8 range",
 "Index arithmetic over channel, layer and skip combinations; tests try one skip list.",
 ["src/color_transform/mod.rs"],
 [("interleaved_to_planar/planar_to_interleaved", "src/color_transform/mod.rs"), ("cut_with_u8, get_layer", "src/color_transform/mod.rs")],
 ["output slices"])

prop("C14", "Bit I/O and Golomb-Rice codes are exact inverses",
 "Any sequence of put_bits writes is read back value for value by get_bits and get_zeros with the same lengths, and unsigned_code, interleaved_code and signed_code written at any bit offset with any parameter 0..24 decode to the same value with the same number of bits consumed, for every u32 (unsigned), every value of magnitude below 2^30 (interleaved) and below 2^31 (signed). The writer emits whole 32-bit little-endian words, most significant bit first, and reading past the end is an error and never invented data.",
 ["inputs", "histories"],
 "every sequence of codes and raw bit writes, every value and parameter, every starting bit offset",
 "The state space is value x parameter x bit offset x history; tests write a dozen values.",
 ["src/bits/mod.rs", "src/encode/mod.rs"],
 [("BitsIOWriter/BitsIOReader", "src/bits/mod.rs"), ("unsigned/interleaved/signed_code and _decode", "src/encode/mod.rs")],
 ["encoded bytes, decoded values"])

prop("C15", "Wavelet lifting is perfectly invertible",
 "unlift_linear after lift_linear and unlift_cubic after lift_cubic restore every image of i16 samples exactly, for all dimensions from 1x1 upwards and all sample values including ones that wrap around 16 bits. The transform computed is the GFWX one: the 5/3 linear and the median-limited cubic lifting of the reference, horizontal before vertical at each level, with 16-bit results.",
 ["inputs"],
 "every i16 image of every width and height",
 "Border handling differs for each residue of the dimensions at each level, and overflow only appears for extreme samples; tests lift one 10x8 ramp.",
 ["src/lifting/mod.rs", "src/lifting/linear.rs", "src/lifting/cubic.rs", "src/processing/overlapping_chunks_iterator.rs", "src/processing/double_overlapping_chunks_iterator.rs"],
 [("lift/unlift", "src/lifting/mod.rs"), ("horizontal/vertical lifting", "src/lifting/linear.rs"), ("cubic, median, round_fraction", "src/lifting/cubic.rs")],
 ["image after lift and after unlift"])

prop("C16", "Work partitioning covers everything exactly once",
 "Image::into_chunks_mut yields chunks whose ranges tile every channel exactly once, in channel, row, column order, for every image size and chunk size; OverlappingChunksIterator and DoubleOverlappingChunksIterator hand out each odd step-chunk as middle exactly once together with its true left/right (and second) neighbours; VariableChunksIterator yields consecutive chunks of the requested sizes until the data ends. The checked accessors of a chunk (Index, IndexMut) give write access exactly to elements of its own range that are its origin or belong to the step level (row and column multiples of step, not both of 2*step), read access exactly to elements of its own range and to elements of the same channel that are not of that level, and panic for everything else, positions outside the image or the data included.",
 ["inputs", "configurations"],
 "every slice length, step, image size, channel count, chunk size and list of sizes",
 "Off-by-one errors at partial last chunks occur only for particular length/step combinations; tests enumerate a few.",
 ["src/processing/image.rs", "src/processing/overlapping_chunks_iterator.rs", "src/processing/double_overlapping_chunks_iterator.rs", "src/processing/variable_chunks_iterator.rs"],
 [("ImageChunkIteratorState::next_chunk", "src/processing/image.rs"), ("OverlappingChunksIterator", "src/processing/overlapping_chunks_iterator.rs"), ("DoubleOverlappingChunksIterator", "src/processing/double_overlapping_chunks_iterator.rs"), ("VariableChunksIterator", "src/processing/variable_chunks_iterator.rs")],
 ["iterator items"])

prop("C17", "The low-level API composes to the simple API",
 "Encoding the header and colour program by hand, transforming with transform_and_to_planar or (planar data) transform or the planar conversion functions, and calling compress_aux_data gives the same bytes as compress_simple; the matching manual decode (program decode, decompress_aux_data, detransform) gives the same pixels and verdict as decompress_simple. compress_aux_data output decodes with decompress_aux_data for any auxiliary i16 data, not only data derived from u8 pixels, losslessly at quality 1024.",
 ["inputs", "configurations", "programs"],
 "every image, auxiliary data, header, colour program and downsampling",
 "README promises the composition in general; one test checks one image.",
 ["src/lib.rs", "src/compress/mod.rs", "src/color_transform/mod.rs"],
 [("compress_simple/decompress_simple", "src/lib.rs"), ("compress_aux_data/decompress_aux_data", "src/compress/mod.rs")],
 ["bytes and pixels of both compositions"])

prop("C18", "Streams are self-delimiting; returned sizes and buffers are exact",
 "compress_simple returns exactly the number of bytes of the stream, a multiple of 4, and the first that many bytes alone decode completely; appended trailing bytes change neither the decoded pixels nor the Ok(0) verdict. The result depends only on the arguments: not on previous contents of output or pixel buffers or on extra space in them, the input image and stream are left unmodified, and bytes past the decoded image in a larger output buffer stay untouched.",
 ["inputs", "configurations", "histories"],
 "every image and header, every trailing data, every initial buffer content and size",
 "Dependence on stale buffer contents or on slack shows only for particular contents; tests always start from zeroed exact buffers.",
 ["src/lib.rs", "src/compress/mod.rs", "src/color_transform/mod.rs"],
 [("compressed_size accounting", "src/compress/mod.rs"), ("decompressed_size, blocks_size_sum", "src/compress/mod.rs"), ("detransform split_at_mut", "src/color_transform/mod.rs")],
 ["returned size, bytes, guard areas"])

prop("C19", "Valid images never panic, in any build profile",
 "For every header the builder accepts, every image of the right size, every colour program with in-range channels and denominators 1..32767 and a sufficient buffer, compression and full, downsampled and test decompression return Ok without panicking, in release builds and in builds with overflow checks and debug assertions, and both kinds of build produce identical results. Extreme contrast, saturated 16-bit auxiliary data and large transform factors wrap around as 16-bit values like in the reference instead of trapping.",
 ["inputs", "configurations", "programs"],
 "every valid header, image, auxiliary data and colour program, in checked and unchecked builds",
 "Arithmetic overflow needs extreme data at particular contexts; the unit tests use small ramps.",
 ["src/encode/mod.rs", "src/lifting", "src/color_transform/mod.rs", "src/quant/mod.rs", "src/compress/mod.rs"],
 [("get_context, add_context, get_run_coder", "src/encode/mod.rs"), ("lifting arithmetic", "src/lifting"), ("transform_base", "src/color_transform/mod.rs")],
 ["return value, panics, results across profiles"])

prop("C20", "Quantizer follows its level schedule and bounds its error",
 "quantize and dequantize scale each coefficient at level skip = 1, 2, 4, ... by q/max_quality and back, with q = max(1, min_quality, quality) and quality doubling (capped at max_quality) per level, stopping at the first level with q >= max_quality; all coefficients of later levels and position (0,0) are untouched. For every coefficient dequantize(quantize(x)) keeps the sign, maps 0 to 0, and differs from x by less than one step max_quality/q wherever the reconstruction point fits 16 bits.",
 ["inputs", "configurations"],
 "every image size, i16 coefficient, quality, minimum quality and maximum quality",
 "One 10x8 image with one quality is tested; rounding and level selection depend on every parameter.",
 ["src/quant/mod.rs"],
 [("quantize/dequantize", "src/quant/mod.rs")],
 ["image after quantize/dequantize"])

prop("C21", "Block entropy coding is lossless for all coefficients",
 "For every block of i16 coefficients (values -32767..32767), encode followed by decode on a block with the same geometry, scheme, quality, DC and chroma flags restores every coefficient owned by that step level and consumes exactly the words written, for all three schemes and every block position, size, step and neighbour content. Coefficients outside the block are not read, and only those of the step level are written.",
 ["inputs", "configurations"],
 "every coefficient block, step, block position inside an image, scheme, quality, has_dc and is_chroma",
 "Encoder and decoder must stay in lock-step through run-length state and context adaptation for arbitrary coefficient histories.",
 ["src/encode/mod.rs", "src/processing/image.rs", "src/bits/mod.rs"],
 [("encode/decode", "src/encode/mod.rs"), ("get_context", "src/encode/mod.rs"), ("get_run_coder(_fast)", "src/encode/mod.rs"), ("ImageChunkMut", "src/processing/image.rs")],
 ["decoded coefficients, bytes consumed"])

prop("C22", "Command line tools round-trip image files",
 "For every PNG image in RGB or RGBA that compress accepts, the compress example followed by the decompress example at quality 1024 gives an image with the same pixels, with every encoder, filter, intent and block size 2..30, and with -d the low-pass image of the downsampled size. Compressed files are the same bytes as compress_simple's output, and compare exits 0 exactly when both images have the same pixel bytes.",
 ["inputs", "configurations"],
 "every RGB/RGBA image file and option combination of the three example tools",
 "The functional tests run a few screenshots through a few options.",
 ["examples/compress.rs", "examples/decompress.rs", "examples/compare.rs"],
 [("main", "examples/compress.rs"), ("main", "examples/decompress.rs"), ("main", "examples/compare.rs")],
 ["files written, exit codes"])

prop("C23", "Preset colour programs compute the documented transforms",
 "yuv444_to_yuv444, rgb_to_yuv, bgr_to_a710 and rgb_to_a710 do what their documentation says on every pixel, in 16-bit arithmetic with division rounding toward zero: no change; R -= G, B -= G, G += (R + B) / 4; and, on channels 2, 1, 0 or 0, 1, 2 as R, G, B: R -= G, B -= (G * 2 + R) / 2, G += (B * 2 + R * 3) / 8. They flag exactly the two chroma channels (1 and 2, 0 and 2), leave all other channels alone, are encoded as the reference implementation's macros for these transforms, and round-trip losslessly at quality 1024 with chroma_scale 1. A program put together with ChannelTransformBuilder and add_channel_transform holds, iterates (both ways) and reports through is_channel_has_transform exactly what was added, in order, and set_denominator refuses values that are not positive.",
 ["inputs", "configurations", "programs"],
 "every image of at least three channels, both boosts, every further channel and layer, every sequence of builder calls",
 "No test calls two of the presets, and a wrong sign, source or rounding still round-trips.",
 ["src/color_transform/mod.rs"],
 [("rgb_to_yuv, bgr_to_a710, rgb_to_a710, yuv444_to_yuv444", "src/color_transform/mod.rs"), ("ChannelTransformBuilder", "src/color_transform/mod.rs"), ("is_channel_has_transform, iter", "src/color_transform/mod.rs")],
 ["transformed samples, encoded program, chroma flags"])

prop("C24", "Calls use memory in proportion to the image and give it all back",
 "Besides their arguments compress_simple, decompress_simple and the lower-level calls never hold more than 1 MiB plus 8 bytes per sample of the image they produce or consume (the downsampled one when downsampling), 256 bytes per block, row and column of each plane and 16 bytes per byte of the colour program. When they return, with Ok, with a request for more data or with any error, they keep nothing: repeating calls, with the same or with other images, does not make the memory in use grow.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "every image, header, program, downsampling, truncated or damaged stream and short buffer; every number of calls",
 "Allocation is invisible to assertions on results; a leak on an error path or a full-size buffer for a thumbnail shows only when memory is watched over many calls.",
 ["src/lib.rs", "src/compress/mod.rs", "src/processing", "src/color_transform/mod.rs"],
 [("aux_data", "src/lib.rs"), ("aux_data_to_2d_channel, block results", "src/compress/mod.rs"), ("process_maybe_parallel_map_collect", "src/processing/maybe_parallel.rs")],
 ["allocations during and after calls"])

prop("C25", "Damage in a stream stays in the damaged blocks",
 "When the words of some blocks of a stream are replaced by any others, the block tables left as they are, decoding at downsampling d either fails, which happens exactly if the codes of a block that d needs (a damaged one, or a finer one of the same plane whose contexts the damage changed) run beyond the words of the block, or gives Ok(0) and the data that the blocks' words stand for: every block decodes from its own words and the coarser levels of its plane alone, so all other blocks of the same level and all other planes decode as without the damage, and damage in blocks of levels that d does not need changes nothing at all. Test mode does not fail where decoding succeeds.",
 ["inputs", "fault_sequences", "configurations"],
 "every stream, set of damaged blocks, replacement words and downsampling",
 "Isolation of blocks and planes shows only with damaged input; the tests decode intact streams.",
 ["src/compress/mod.rs", "src/encode/mod.rs", "src/bits/mod.rs"],
 [("decompress_image_data", "src/compress/mod.rs"), ("decode", "src/encode/mod.rs"), ("get_zeros, get_bits", "src/bits/mod.rs"), ("VariableChunksIterator", "src/processing/variable_chunks_iterator.rs")],
 ["verdict, auxiliary data and pixels of damaged and undamaged streams"])

prop("C26", "Any reader or writer gives the same results, and its errors are passed on",
 "Header::decode, ColorTransformProgram::decode and BitsIOReader give the same values from every reader that delivers the same bytes, however few per call and however often it is interrupted, and take exactly the bytes that belong to the header (32) or program (whole words up to its end), so that several can be read from one reader after another. Header::encode, ColorTransformProgram::encode and BitsIOWriter give the same bytes to every writer, however few it takes per call. When a reader or writer fails, the call returns that error (its kind, UnexpectedEof at the end of the data, WriteZero when nothing is taken any more), never Ok, and exactly the bytes before it have been passed.",
 ["inputs", "fault_sequences"],
 "every header, program and bit sequence, every pattern of short and interrupted calls, every position and kind of an error",
 "The tests read from slices and write to vectors, which neither fail nor deliver less than was asked for.",
 ["src/header/mod.rs", "src/color_transform/mod.rs", "src/bits/mod.rs"],
 [("Header::decode, Header::encode", "src/header/mod.rs"), ("ColorTransformProgram::decode, encode", "src/color_transform/mod.rs"), ("next_u32, put_bits", "src/bits/mod.rs")],
 ["bytes passed, values, errors"])

prop("C28", "Errors name their cause",
 "Callers decide by the error what to do next, so every error says what was wrong. Header::decode gives WrongMagic exactly for another magic, IOErr with UnexpectedEof for a valid header that is cut short, WrongValue for a complete one with a value outside of what is supported; HeaderBuilder::build gives WrongValue. compress_simple and compress_aux_data report a too small buffer as Overflow or IOErr with WriteZero. Decompression reports a colour program that ends too early as IOErr with UnexpectedEof, one that names missing channels or a denominator outside of 1..32767 as Malformed, and blocks whose codes run beyond them as Underflow. The text of every error is not empty and includes that of the io::Error or the value message it holds.",
 ["inputs", "fault_sequences"],
 "every invalid header, builder argument, buffer length, colour program and damaged stream",
 "A test provokes one or two errors and mostly asks only whether there is one; which of several causes is reported depends on the input.",
 ["src/errors.rs", "src/header/mod.rs", "src/header/builder.rs", "src/compress/mod.rs", "src/color_transform/mod.rs", "src/lib.rs"],
 [("HeaderErr, CompressError, DecompressError", "src/errors.rs"), ("map_err(DecompressError::Underflow)", "src/compress/mod.rs"), ("check_range", "src/header/builder.rs")],
 ["Err values of all calls, Display"])

prop("C27", "No arguments of safe functions can break memory safety",
 "Whatever arguments the safe functions of the crate get, they return a value or an error or panic, but never read or write memory outside of their arguments: auxiliary data, images, output buffers or flag lists that are shorter or longer than the header says, headers whose public fields were changed or did not come from the builder, colour programs for other channel counts, rows of different lengths given to lifting and quantization, images, chunk sizes and steps of any kind given to Image::from_slice and into_chunks_mut and from there to encode and decode, also with the public ranges and step of a chunk set to others. The result does not depend on memory outside of the arguments, input slices are not modified.",
 ["inputs", "configurations"],
 "every combination of slice lengths, header fields, programs, sizes and steps",
 "Unit tests call with fitting arguments; an access beyond a slice is silent unless a sanitizer or a guard sees it.",
 ["src/compress/mod.rs", "src/encode/mod.rs", "src/lifting", "src/processing/image.rs", "src/color_transform/mod.rs", "src/lib.rs"],
 [("assert_accessible, get_unchecked", "src/processing/image.rs"), ("lift, unlift", "src/lifting/mod.rs"), ("encode, decode", "src/encode/mod.rs"), ("compress_aux_data, decompress_aux_data", "src/compress/mod.rs")],
 ["memory around every slice, results with different memory around, sanitizer reports"])

prop("C29", "Time in proportion to the data",
 "Compression and decompression, complete, truncated, downsampled or in test mode, the colour transform, the planar conversion (with a given list of channels to skip) and the coding of colour programs take work (steps and allocated bytes) in proportion to what they get: an image 64 times as wide, as high, as large, with 64 times the layers or channels, or a program 64 times as long takes about 64 times the work, not 64 times 64. Decoding a thumbnail takes the work of the levels it needs, whatever of the image follows them. Data that are no valid image never take more steps than a constant for every byte given and sample asked for.",
 ["inputs", "configurations"],
 "every geometry, number of layers and channels, block size, encoder, filter, quality, program and hostile input",
 "Tests assert results, never the work; a loop that became quadratic in the blocks, planes or terms gives the right result for their small images.",
 ["src/compress/mod.rs", "src/processing", "src/lifting", "src/color_transform/mod.rs", "src/bits/mod.rs", "src/lib.rs"],
 [("compress_image_data, decompress_image_data", "src/compress/mod.rs"), ("VariableChunksIterator", "src/processing/variable_chunks_iterator.rs"), ("lift, unlift", "src/lifting/mod.rs"), ("transform_and_to_planar, detransform_and_to_interleaved", "src/color_transform/mod.rs")],
 ["control flow edges taken and bytes allocated by every call"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
