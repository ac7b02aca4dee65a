"""What counts as a case of each property, for the evidence files."""
_IMG = ("Seeded random geometries (biased to block, step and pyramid borders, 1..layers/channels), qualities, chroma scales, filters, encoders, colour programs and "
        "image contents (flat, noise, gradients, sparse, extremes, runs). ")
_NT = "Non-trivial: the image is not constant; distinct by a hash of parameters, program and pixels."
RULES = {
    "C01": _IMG + "One evaluation: compress_simple, Header::decode, decompress_simple, compared with the original bytes. " + _NT,
    "C02": _IMG + "One evaluation: the bytes of compress_simple compared with the bytes of the C++ reference encoder, and with an independent sequential model. " + _NT,
    "C03": _IMG + "One evaluation: a stream of the C++ reference encoder decoded by gfwx-rs and by the C++ reference decoder, pixels and verdict compared. " + _NT,
    "C04": _IMG + "One evaluation: compress_aux_data and decompress_aux_data compared with the inverse transform of the model's dequantized quantized coefficients, error bound checked per coefficient, channels coded alone and together. " + _NT,
    "C05": _IMG + "One evaluation: one downsampling of one stream compared with the model's low-pass image. " + _NT,
    "C06": _IMG + "One evaluation: one truncation point (or one step of a retry loop) of one stream at one downsampling: verdict, point of interest, decoded pixels and test mode compared with the model. Distinct by a hash of stream, cut and downsampling; non-trivial: the cut leaves at least one byte of blocks.",
    "C07": "Seeded hostile inputs: random bodies, right block tables with random blocks, extreme coefficients, mutated, truncated and spliced valid streams, mutated headers, huge dimensions with downsampling. One evaluation: all decoder entry points on one input, with guard bytes, an allocation bound and a CPU-time watchdog, in builds with and without overflow checks and debug assertions. Non-trivial: at least one payload decode was run; distinct by a hash of the input.",
    "C08": _IMG + "One evaluation: one output buffer length for one image (every length where affordable): result, guard bytes, monotonicity and bytes compared with the run in a large buffer. Distinct by image and length; non-trivial: the image is not constant.",
    "C09": _IMG + "One evaluation: one execution of compress, decompress, downsample and truncate under a perturbed schedule (pool of 2..16 threads, concurrent callers, nested calls) compared with one thread; and the same cases compared between builds. Non-trivial: at least two threads took work items; distinct by the recorded order in which threads took the items.",
    "C10": _IMG + "Executions under ThreadSanitizer, AddressSanitizer, Miri (Tree Borrows with threads, Stacked Borrows without) and rustc's debug assertions. Distinct by case and recorded order of threads; non-trivial: everything that ran the parallel or unchecked code.",
    "C11": "All boundary combinations of builder fields plus random ones, and random, boundary and mutated 32-byte strings. One evaluation: one header encoded, decoded, re-encoded, compared with the model of the format, its size helpers with exact arithmetic. Distinct by index or bytes.",
    "C12": "Seeded random colour programs (factors up to 31 bits, denominators 1..32767, any order and sources, chained, extended with repeated destinations for encoding), images, layers, channels and both boosts. One evaluation: one encode/decode, malformed program, transform or inverse compared with the model. Non-trivial: the program is not empty and the image has more than one sample; distinct by program and image.",
    "C13": "Seeded random channel counts, skip lists, boosts, layers and data, including auxiliary values outside u8. One evaluation: one conversion in each direction compared sample by sample with the definition. Non-trivial: more than one sample; distinct by parameters and data.",
    "C14": "Seeded random sequences of raw writes and codes (all lengths, parameters, boundary values, every start offset; exhaustive small values per parameter). One evaluation: a sequence compared bit for bit with a model writer, read back, and read beyond the end. Non-trivial: more than one code; distinct by the bytes.",
    "C15": "Every size up to a bound in turn, then random ones, with ramps, noise and extreme 16-bit samples. One evaluation: lift compared with the model, unlift compared with the original. Non-trivial: more than one sample; distinct by size, filter and samples.",
    "C16": "Every slice length and step up to a bound in turn, then random ones; images and chunk sizes likewise. One evaluation: the chunks of one iterator recorded and checked for exactly-once, order and true neighbours. Non-trivial: more than one chunk; distinct by the sizes.",
    "C17": _IMG + "One evaluation: the manual composition compared with the simple API, or arbitrary auxiliary data round-tripped. " + _NT,
    "C18": _IMG + "One evaluation: a stream with its exact size, with trailing bytes, stale buffers, larger buffers. " + _NT,
    "C19": _IMG + "Biased to saturated data, large factors and extreme contrast. One evaluation: compression and full, downsampled and test decompression in the checked and in the release build, compared with the wrapping model and with each other. " + _NT,
    "C20": "Random sizes, qualities, minimum and maximum qualities and coefficients, and every i16 value for boundary qualities. One evaluation: quantize and dequantize of one image compared coefficient by coefficient with the level schedule. Non-trivial: more than one coefficient and at least one level is scaled; distinct by parameters and coefficients.",
    "C21": "Random blocks (position, size, step, image size, scheme, quality, DC and chroma flags) with coefficients that drive runs, large values and context changes. One evaluation: encode compared with the model's bits, decode compared with the original, coefficients outside scrambled. Non-trivial: the block owns more than one coefficient; distinct by parameters and coefficients.",
    "C22": "Seeded random RGB and RGBA PNG files with random filters and option combinations. One evaluation: the tools run on one file; pixels, bytes and exit codes compared with compress_simple and the model. Non-trivial: the image is not constant; distinct by options and pixels.",
    "C23": "Each of the four preset programs in turn, on seeded random images, layers, further channels and both boosts, and random programs put together with the builder. One evaluation: one preset's bytes, flags, iterators and transform compared with the reference's macro and the documented formula, and its round trip through the codec; or one built program inspected. Non-trivial: the image is not constant, the program has more than one term; distinct by image or program.",
    "C24": _IMG + "One evaluation: one kind of call (compress, short buffer, full, downsampled, truncated, damaged decode) with its peak and remaining allocations, once on images of all sizes and repeatedly on small ones. Non-trivial: every one that ran; distinct by parameters, image and kind.",
    "C25": _IMG + "One evaluation: one stream with random blocks' words replaced, decoded at one downsampling: verdict, auxiliary data and pixels compared with the sequential model and with the undamaged stream. Non-trivial: a needed block was damaged; distinct by parameters, payload and downsampling.",
    "C26": "Seeded random headers, colour programs and bit sequences through readers and writers that pass 1..n bytes per call, are interrupted in up to 80 of 100 calls, fail with one of five kinds of error (or take nothing, or end) after any number of bytes. One evaluation: one header, program, both after another or bit sequence written and read: bytes, values, bytes taken, error kind and bytes passed before the error compared with the model's bytes. Non-trivial: every one; distinct by bytes and behaviour.",
    "C28": "Seeded random headers, builder arguments, too small buffers, cut and malformed colour programs and damaged blocks. One evaluation: a group of invalid headers (cut, wrong magic, one wrong field, builder), one too small buffer, one program or one damaged payload: the variant of the error, the io::ErrorKind in it and its text compared with the cause. Non-trivial: every one; distinct by bytes.",
    "C29": "Calls in pairs, of one size and with one dimension 64 times as large, thumbnails with and without the rest of the image, and the hostile inputs of C07, in a build where every edge of the control flow increments a counter. One evaluation: one pair's steps and allocated bytes in proportion, or one hostile input's steps against a bound. Non-trivial: every one that ran; distinct by work and kind, or by the input.",
    "C27": "Seeded random arguments that do not fit together: auxiliary data, images, output buffers and flag lists of other lengths, headers with public fields changed to small, boundary and huge values, programs for other channels, rows of different lengths, images and chunks of any size and step, truncated streams. Every slice lies between memory that is watched, with two contents in turn (release, overflow-checked builds), or ends at the heap block's end (AddressSanitizer). One evaluation: one call with both contents. Non-trivial: every one; distinct by parameters and seed.",
}
COMMON = ["held on the executions observed, nothing more", "the compiler, the operating system and the harness"]
_MODEL = "the vendored C++ reference codec and the independent Rust model are taken as the definition of GFWX v1"
ASSUMPTIONS = {
    "C02": [_MODEL, "colour factors of magnitude below 2^20"],
    "C03": [_MODEL], "C04": [_MODEL], "C05": [_MODEL], "C06": [_MODEL], "C15": [_MODEL], "C19": [_MODEL], "C21": [_MODEL],
    "C25": [_MODEL], "C24": ["allocations are seen at Rust's global allocator; the bound holds with the pools of at most 8 threads used here"],
    "C29": ["steps are edges between basic blocks of the crate's code (also as instantiated in the harness) in one thread, and bytes allocated; the standard library's own loops (copying, clearing) are not counted"],
    "C09": ["schedules are those that the operating system and the injected yields, spins and sleeps produced"],
    "C10": ["reports without a frame of the crate are not counted", "schedules as for C09"],
}
