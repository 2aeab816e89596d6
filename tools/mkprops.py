"""Writes properties.jsonl (one place to edit the list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)
S = "src/gsply/"
prop("C01", "Uncompressed PLY round trip is lossless",
 "Saving PLY-format Gaussians as an uncompressed PLY and loading that file gives back exactly the same count, SH degree and every value of every attribute (as float32), for every number of Gaussians including zero, every SH degree 0-3, and every memory layout of the arrays. Saving what was loaded again produces the same file.",
 ["inputs", "configurations"], "all Gaussian counts N>=0, SH degrees 0-3, float32/float64 inputs, contiguous or strided fields, data with or without a backing matrix",
 "Tests round-trip a handful of random scenes of fixed sizes; they cannot range over N, every value, layout and backing state.",
 [S+"writer.py", S+"reader.py", S+"gsdata.py"],
 [("column interleaving into one matrix", S+"gsdata.py:_interleave_sh0_jit,_interleave_shn_jit"), ("write, zero-copy and general path", S+"writer.py:write_uncompressed"), ("header parse and column views", S+"reader.py:read_uncompressed")])
prop("C02", "Uncompressed output follows the standard 3DGS PLY layout",
 "An uncompressed file starts with the standard binary little-endian 3DGS header declaring exactly the Gaussian count and, in the standard order, exactly the float properties of its SH degree, followed by exactly one row of float32 values per Gaussian in that property order and nothing else. Higher-order SH coefficients are stored channel by channel (all red, then all green, then all blue), and the bytes are the same whichever API or internal path produced them.",
 ["inputs", "configurations"], "all N, all SH degrees, all field values, data with and without a backing matrix, GSData or raw arrays",
 "Tests mostly check that the library reads its own output, which a consistent but non-standard layout would also pass.",
 [S+"writer.py", S+"gsdata.py", S+"formats.py"],
 [("header builder", S+"writer.py:_build_header_fast"), ("shN flattening", S+"writer.py:_flatten_shn"), ("interleave kernels", S+"gsdata.py:_interleave_shn_jit")])
prop("C03", "Compressed round trip stays within quantisation error",
 "Writing Gaussians in the compressed format and reading them back keeps count, order and SH degree, and moves no value by more than half a quantisation step: positions and log-scales (within +-20) half an 11/10/11-bit step of their 256-Gaussian chunk's range, colours half an 8-bit step of the chunk's range, opacity half an 8-bit step after the sigmoid, higher SH coefficients in [-4, 3.96] at most 1/64. Rotations come back as unit quaternions equal up to sign, with each of the three smaller components within half a 10-bit step.",
 ["inputs", "configurations"], "all N, all finite values, all chunks including a partial last one, all SH degrees",
 "Tests compare a few random scenes with loose tolerances; the bound must hold for every value, chunk position, degenerate range and quaternion orientation.",
 [S+"writer.py", S+"reader.py"],
 [("quantise and pack", S+"writer.py:_pack_all_jit"), ("chunk bounds", S+"writer.py:_compute_chunk_bounds_jit"), ("unpack", S+"reader.py:_unpack_all_jit"), ("SH quantisation", S+"writer.py:_compress_data_internal, "+S+"reader.py:_unpack_sh_jit")])
prop("C04", "Compressed decoding follows the PlayCanvas layout",
 "Decoding a compressed PLY yields for every Gaussian exactly the value the PlayCanvas layout defines for its packed words and its own chunk's bounds (11-10-11 bit positions and scales, 2-10-10-10 smallest-three rotation in w,x,y,z order, 8-bit colour and opacity, uint8 SH stored channel by channel). Reading a file and decompressing the same bytes in memory give identical results.",
 ["inputs"], "all packed 32-bit words, all chunk bounds, all N and chunk counts, all SH degrees",
 "Tests decode only what the library's own encoder wrote for a few scenes, so matching encoder/decoder mistakes and unvisited bit patterns pass.",
 [S+"reader.py", S+"formats.py"],
 [("bit fields and dequantisation", S+"reader.py:_unpack_all_jit"), ("file and bytes entry points", S+"reader.py:read_compressed,decompress_from_bytes"), ("chunk table slicing", S+"reader.py:_decompress_data_internal")])
prop("C05", "All compressed encoders emit the same well-formed file",
 "Saving compressed, compressing to bytes and compressing to arrays produce the same bytes for the same Gaussians, laid out as header, ceil(N/256) chunk records, N packed vertices and N rows of quantised SH. Each chunk record holds the true minimum and maximum of its 256 Gaussians' positions, log-scales (clamped to +-20) and colours, and each packed field is the rounded normalised value in its documented bit position.",
 ["inputs", "configurations"], "all N, all values, all SH degrees, GSData or individual arrays, all entry points",
 "Tests compare a couple of entry points on one scene and never check bounds or bit positions for all chunk shapes.",
 [S+"writer.py"],
 [("shared encoder", S+"writer.py:_compress_data_internal"), ("entry points", S+"writer.py:write_compressed,compress_to_bytes,compress_to_arrays,plywrite"), ("chunk bounds kernel", S+"writer.py:_compute_chunk_bounds_jit")])
prop("C06", "Malformed or truncated PLY input is rejected, never misread",
 "A PLY file whose data is shorter than its header declares, whose header does not place the vertex data right after it with exactly the properties of a supported layout (names, order, types, encoding, preceding elements), or whose chunk count does not cover its vertices is refused with an error by every reader, and reading always terminates. No reader ever returns Gaussians that the file does not contain.",
 ["inputs"], "all declared counts, all data lengths, all header property lists, all truncation points",
 "Tests try a few broken files; the guarantee covers every truncation length and every header/data mismatch.",
 [S+"reader.py", S+"formats.py"],
 [("size check after read", S+"reader.py:read_uncompressed"), ("header parse", S+"reader.py:_read_header_fast,_parse_elements_from_header; "+S+"formats.py:_parse_ply_header"), ("chunk count check", S+"reader.py:_decompress_data_internal")])
prop("C07", "Format detection is total, terminating and agrees with the reader",
 "Detecting a file's format always terminates without raising and reports compressed only for the compressed layout and an SH degree only when the vertex properties are exactly those of that degree. Every file the library writes is detected as what it is, and the general reader then loads it by the matching decoder.",
 ["inputs"], "all file contents (present, missing, empty, truncated header, arbitrary header lines), all N and SH degrees for written files",
 "Tests probe a few files; totality and termination quantify over arbitrary contents.",
 [S+"formats.py", S+"reader.py"],
 [("header loop", S+"formats.py:_parse_ply_header"), ("classification", S+"formats.py:detect_format,_is_compressed_format"), ("dispatch", S+"reader.py:plyread")])
prop("C08", "Compiled kernels are memory-safe and schedule-independent",
 "Every array access made by the compiled numeric kernels through the public API stays inside its array for every accepted input, including zero Gaussians, partial chunks and hostile file contents. Parallel iterations never touch an element another iteration writes, so results do not depend on the thread schedule.",
 ["inputs", "schedules"], "all N, all chunk counts, all codebook/label/palette contents, all interleavings of parallel iterations",
 "Kernels run with bounds checks off; tests cannot see an out-of-range access that happens to hit mapped memory, nor explore schedules.",
 [S+"gsdata.py", S+"writer.py", S+"reader.py", S+"utils.py", S+"sog_reader.py"],
 [("kernels with boundscheck=False", S+"gsdata.py, "+S+"writer.py, "+S+"reader.py, "+S+"utils.py"), ("SOG kernels", S+"sog_reader.py"), ("input validation before kernels", S+"writer.py:_validate_array_shapes")])
prop("C09", "Saved and derived data always reflect the current field values",
 "Whatever edits were made before - in-place element writes, replacing a whole attribute, activation or colour conversions, filtering, mask changes - saving, copying, slicing, indexing, concatenating, consolidating or moving to a tensor uses the attribute values the user currently sees, for data that was loaded from file as well as data built from arrays. Stale cached values are never written or returned.",
 ["histories", "inputs"], "all sequences of edits followed by any operation, all N, values and SH degrees, with and without a cached backing matrix",
 "Tests do one edit at most before saving; the hidden cached matrix must stay coherent over every edit history.",
 [S+"gsdata.py", S+"writer.py", S+"utils.py", S+"torch/gstensor.py"],
 [("fast paths on the backing matrix", S+"gsdata.py:_slice_from_base,copy,add,_recreate_from_base; "+S+"writer.py:write_uncompressed"), ("invalidation", S+"gsdata.py:normalize,denormalize,to_rgb,to_sh,apply_masks,make_contiguous; "+S+"utils.py:apply_pre_activations,apply_pre_deactivations")],
 [("_base", "cached (N,P) matrix the fields are views of, or None", S+"gsdata.py:GSData, "+S+"torch/gstensor.py:GSTensor")])
prop("C10", "Copies, consolidation and contiguity keep every value; copies are independent",
 "Copying, copy-slicing, consolidating and making contiguous return data with exactly the same count, attribute values, masks, mask names and format as the original, at every SH degree. Editing a copy (or a copied slice) never changes the original and vice versa, and after making contiguous every array reports contiguous.",
 ["inputs", "histories"], "all N, SH degrees, mask layouts, with and without backing matrix, all later writes",
 "Tests check a few shapes and compare some fields; value preservation per coefficient and independence under any later write are universal.",
 [S+"gsdata.py"],
 [("copy", S+"gsdata.py:copy,copy_slice"), ("consolidate", S+"gsdata.py:consolidate,_recreate_from_base"), ("contiguity", S+"gsdata.py:make_contiguous,is_contiguous")])
prop("C11", "Selection returns exactly the selected Gaussians, in order",
 "Indexing by integer, slice (any start, stop, step), boolean mask or index array returns exactly the Gaussians NumPy indexing would select, in that order, with every attribute and mask row kept together and the format unchanged. Out-of-range integers and indices and wrong-length masks raise errors instead of returning other Gaussians.",
 ["inputs", "configurations"], "all N, all keys of each kind, with and without backing matrix, all SH degrees, masks absent/1D/2D",
 "Tests sample a few keys; every key value, step sign and boundary must select consistently on both internal paths.",
 [S+"gsdata.py"],
 [("indexing", S+"gsdata.py:__getitem__,_slice_from_base,copy_slice,get_gaussian,__iter__")])
prop("C12", "Concatenation is exact and order-preserving",
 "Adding two Gaussian sets, or concatenating a list of them, gives a set whose Gaussians are those of the operands in order, with every attribute unchanged, whichever internal path is taken. Operands with different SH degree or format are rejected, and when masks are carried over every Gaussian keeps its own mask row (missing masks count as false).",
 ["inputs", "configurations"], "all operand sizes including zero, all values, SH degrees, mask layouts, any combination of backed and unbacked operands",
 "Tests add a few same-size sets; offsets and mask padding must be right for all sizes and combinations.",
 [S+"gsdata.py"],
 [("pairwise", S+"gsdata.py:add,__add__,__radd__"), ("bulk", S+"gsdata.py:concatenate")])
prop("C13", "Mask layers behave as named boolean columns",
 "After any sequence of adding and removing layers, each remaining name returns exactly the mask stored under it, duplicate or unknown names and wrong shapes are rejected, and combining layers gives the exact element-wise AND or OR of the chosen layers. Applying masks keeps exactly the Gaussians whose combined mask is true, in place or not.",
 ["histories", "inputs"], "all add/remove sequences, any number of layers, all mask contents, all N, all layer selections",
 "Tests use short fixed sequences; names and columns must stay aligned over every history.",
 [S+"gsdata.py"],
 [("layer management", S+"gsdata.py:add_mask_layer,get_mask_layer,remove_mask_layer"), ("combination kernels", S+"gsdata.py:_combine_masks_numba_and,_combine_masks_numba_or"), ("filtering", S+"gsdata.py:apply_masks")],
 [("masks/mask_names", "layer matrix and its column names", S+"gsdata.py:GSData")])
prop("C14", "Format conversion computes the documented functions",
 "Converting to PLY format stores log(max(scale, 1e-9)) and logit(opacity clamped to [1e-4, 1-1e-4]); converting to linear format stores exp(log-scale) clamped to [1e-4, 100] and sigmoid(logit-opacity), with rotations normalised to unit length. Each conversion touches only the attributes it names, and linear values inside the clamp range survive a round trip.",
 ["inputs"], "all N, all finite values, in place or not, any layout",
 "Tests check sample values; the formulas, clamps and untouched attributes are claims about every element.",
 [S+"gsdata.py", S+"utils.py"],
 [("conversion methods", S+"gsdata.py:normalize,denormalize"), ("kernels", S+"utils.py:_activate_gaussians_numba,_deactivate_gaussians_numba")])
prop("C15", "Colour and scalar conversions are exact mutual inverses",
 "Converting SH DC to RGB computes sh*C0+0.5 and back computes (rgb-0.5)/C0 for every element, so the two undo each other; sigmoid stays in [0,1] and logit clamps its argument to [eps, 1-eps] and inverts sigmoid inside that range. Scalar and array forms, in-place and copying forms, agree element by element and arrays keep their shape.",
 ["inputs"], "all N and shapes, all finite values, in place or not",
 "Tests evaluate sample points only.",
 [S+"utils.py", S+"gsdata.py"],
 [("array/scalar functions", S+"utils.py:sh2rgb,rgb2sh,logit,sigmoid"), ("methods", S+"gsdata.py:to_rgb,to_sh"), ("kernels", S+"utils.py:_sh2rgb_inplace_jit,_rgb2sh_inplace_jit,_logit_impl,_sigmoid_impl")])
prop("C16", "Saving and non-in-place operations leave the caller's data unchanged",
 "Writing a file, compressing, indexing, adding, combining masks and every conversion called with inplace=False leave all arrays, masks, mask names and format of the objects and arrays passed in exactly as they were. This holds whatever format the data is in, including linear data that must be converted before it is written.",
 ["inputs", "configurations"], "all N, values, formats (PLY, linear, mixed), SH degrees, layouts, backing states, raw arrays or objects",
 "Tests look at the produced file, rarely at the argument afterwards, and only for the default format.",
 [S+"writer.py", S+"gsdata.py", S+"utils.py"],
 [("conversion before writing", S+"writer.py:_ensure_ply_format,plywrite"), ("inplace flags", S+"gsdata.py:normalize,denormalize,to_rgb,to_sh,apply_masks; "+S+"utils.py:apply_pre_activations,apply_pre_deactivations")])
prop("C17", "Moving between NumPy and tensor form loses nothing",
 "Converting Gaussians to a tensor container and back returns exactly the same attribute values, masks, mask names, SH degree and format, for data with or without a backing matrix, with an optional selection mask, and at every SH degree. Saving through the tensor container writes the same uncompressed file as saving the array container.",
 ["inputs", "configurations"], "all N, SH degrees, mask layouts, backing states, selection masks (CPU device)",
 "Tests convert a few scenes; channel ordering and alignment must hold for every coefficient, size and layout.",
 [S+"torch/gstensor.py"],
 [("to tensor", S+"torch/gstensor.py:from_gsdata,_recreate_from_base"), ("from tensor", S+"torch/gstensor.py:to_gsdata"), ("device/dtype moves", S+"torch/gstensor.py:to")])
prop("C18", "Tensor container operations mirror the array container",
 "Selection, concatenation, mask layers, cloning, consolidation, format and colour conversion on the tensor container give the same values, order, masks, names and format as the same operation on the array container holding the same Gaussians (conversions up to their documented clamps). In-place edits of a tensor container are reflected in everything later derived from it.",
 ["inputs", "histories", "configurations"], "all N, keys, mask contents, SH degrees, backing states, edit sequences (CPU device)",
 "Most tensor tests are skipped without a GPU or compare a few fixed scenes.",
 [S+"torch/gstensor.py"],
 [("tensor methods", S+"torch/gstensor.py:__getitem__,add,clone,consolidate,normalize,denormalize,to_rgb,to_sh,add_mask_layer,remove_mask_layer,combine_masks,apply_masks")],
 [("_base", "cached (N,P) tensor the fields are views of, or None", S+"torch/gstensor.py:GSTensor")])
prop("C19", "Tensor codec agrees with the reference codec",
 "The tensor encoder writes compressed files with the same header, chunk bounds and packed values as the reference encoder (up to one rounding step), and the tensor decoder returns the same Gaussians as the reference decoder for every compressed file, opacity compared after the sigmoid. Files written by either are readable by both, for every count including partial chunks. (Quaternions of norm between 0 and 1e-7, and chunks whose spread is between 0 and 1e-10, are normalised differently by design and are not compared.)",
 ["inputs", "configurations"], "all N, all packed words, all chunk bounds, all SH degrees (CPU device, eager mode)",
 "GPU tests are skipped without a device, so no existing test compares the two codecs here.",
 [S+"torch/compression.py", S+"torch/io.py"],
 [("tensor pack/unpack", S+"torch/compression.py:_pack_positions_gpu,_pack_scales_gpu,_pack_quaternions_gpu,_pack_colors_and_opacities_gpu,_unpack_positions_gpu,_unpack_quaternions_gpu"), ("chunk reductions", S+"torch/compression.py:_compute_chunk_bounds_gpu"), ("file I/O", S+"torch/compression.py:read_compressed_gpu,write_compressed_gpu")])
prop("C20", "SOG decoding follows the format and rejects inconsistent bundles",
 "Loading a SOG bundle (zip bytes, .sog file or folder, codebook or min/max variant) gives each Gaussian the value the format defines: 16-bit log-transformed positions, smallest-three rotation, codebook or min/max scales and colours, 8-bit opacity and palette-indexed SH. Bundles with missing entries, textures too small for the count or palette, or scale and colour tables too short for the indices they are used with are refused with an error.",
 ["inputs", "configurations"], "all texture contents, all metadata ranges and codebooks, all counts, all SH band counts, all three container kinds",
 "Tests build one or two small bundles; the formulas must hold for every texel and table.",
 [S+"sog_reader.py"],
 [("texture decoding", S+"sog_reader.py:_decode_means_jit,_unpack_quats_jit,_decode_scales_jit,_decode_colors_jit,_decode_shn_jit and linear variants"), ("bundle loading and checks", S+"sog_reader.py:sogread")])
prop("C21", "Format tags and names are truthful and never shared between objects",
 "After any operation the format recorded on a container states the representation its values are actually in (log or linear scales, logit or linear opacity, SH or RGB colour, SH degree), provided each conversion is applied to data in its input representation; and saving a container with linear scales or opacities always stores the PLY representation. Changing the format or mask names of one object never changes those of another object it was derived from (array values may be shared by documented views).",
 ["histories", "inputs", "configurations"], "all operation sequences, both containers, all formats and SH degrees",
 "Tests check tags after single operations; aliasing of metadata and mixed formats appear only in longer histories.",
 [S+"gsdata.py", S+"torch/gstensor.py", S+"writer.py"],
 [("format bookkeeping", S+"gsdata.py:normalize,denormalize,to_rgb,to_sh,with_format,copy_format_from,__post_init__"), ("conversion on save", S+"writer.py:_ensure_ply_format; "+S+"torch/io.py:plywrite_gpu; "+S+"torch/gstensor.py:save")],
 [("_format", "per-attribute representation tag", S+"gsdata.py:GSData, "+S+"torch/gstensor.py:GSTensor")])
prop("C22", "Activation functions respect their bounds and reject bad parameters",
 "Pre-activation always returns scales inside [min_scale, max_scale], opacities inside [0,1] and quaternions of unit length (identity-like (0,0,0,1) when the norm is below the threshold), and pre-deactivation always returns log of the clamped scale and logit of the clamped opacity, for any parameters that satisfy the documented constraints. Parameters or array shapes violating them raise ValueError before any data is modified.",
 ["inputs", "configurations"], "all N, all finite values, all parameter values",
 "Tests use default parameters and a few values.",
 [S+"utils.py"],
 [("validation and dispatch", S+"utils.py:apply_pre_activations,apply_pre_deactivations"), ("kernels", S+"utils.py:_activate_gaussians_numba,_deactivate_gaussians_numba")])
prop("C23", "Running on a CUDA device gives the same results as on the CPU",
 "Every tensor-container operation, codec call and conversion executed on a CUDA device or through the optional graph compiler returns the values the CPU eager path returns (up to float rounding). Transfers between devices keep every attribute, mask and tag.",
 ["configurations", "inputs"], "all devices, compiled and eager execution, all inputs",
 "No CUDA device is available to the test-suite, which skips these tests.",
 [S+"torch/gstensor.py", S+"torch/compression.py"],
 [("device moves", S+"torch/gstensor.py:to,cuda"), ("compiled dispatch", S+"torch/compression.py:_get_compiled_fn,_call_with_fallback")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
