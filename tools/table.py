prop("P01", "Calls never modify data owned by the caller",
     "No transform, inverse transform or packet operation modifies anything the caller passed in: input tensors, coefficient tensors, the lists, tuples and dicts that hold the coefficients, and the wavelet and its filters are the same objects with the same contents after the call. Calling an inverse transform twice on the same coefficients therefore gives the same result.",
     ["inputs", "configurations"], "every public transform, every level, mode, axis choice, batch shape, size and coefficient container",
     "the tests reuse their inputs only in a few places and never compare coefficient containers before and after a call; aliasing shows only for particular levels, paddings (zero pad amounts) and dimension orders",
     CONV + MAT + ["packets.py", "stationary_transform.py", "continuous_transform.py", "_util.py"],
     [("coefficient containers are copied before being folded", "separable_conv_transform.py: _separable_conv_waverecn"), ("out-of-place padding and convolution", "_util.py, conv_transform.py: _fwt_pad")],
     "alias and effect analysis by abstract interpretation (storage ownership, container ownership)")

prop("P02", "Results of transform objects do not depend on earlier calls",
     "A reused matrix transform object (MatrixWavedec/Waverec, 2D and 3D variants) or packet tree returns, for every input, exactly what a freshly built object with the same arguments returns, whatever sizes, batch shapes, dtypes, devices or levels were processed before. Results returned earlier are not altered by later calls.",
     ["histories", "inputs"], "every pair of an earlier call (other or same length on any axis, dtype, device, batch, number of levels) and a later call",
     "the existing tests build a fresh object for almost every call; only particular sequences (size, dtype or level changing between two calls with the same padded size) reveal a stale operator",
     MAT + ["packets.py"],
     [("operators are rebuilt when the input description changes", "matmul_transform.py: MatrixWavedec.__call__"), ("packet matrices are rebuilt by transform()", "packets.py: WaveletPacket.transform")],
     "two-run abstract interpretation comparing the symbolic result of a used object with that of a fresh one")

prop("P03", "Results keep the dtype of the input",
     "Every coefficient and every reconstruction of the discrete transforms and packets has the dtype of the tensors passed in (float32 stays float32, float64 stays float64), with the wavelet given as object, as name or as tensors of that dtype; and no intermediate value of the computation is rounded to a narrower floating-point format (float64 data is not passed through float32).",
     ["inputs", "configurations"], "float32 and float64 input for every public transform, level, mode, axis choice and size",
     "the tests run mostly with float64 and compare values with tolerances; a silent conversion in one branch (padding, empty factor, extra level) is invisible to allclose",
     CONV + MAT + ["packets.py", "stationary_transform.py", "continuous_transform.py", "sparse_math.py", "_util.py"],
     [("filters are converted to the dtype of the data", "_util.py: _get_filter_tensors"), ("construct functions take the dtype of the input", "matmul_transform.py")],
     "dtype propagation by abstract interpretation")

prop("P04", "Results stay on the device of the input",
     "Every tensor created during a transform is created on the device of the input tensors, and every coefficient and reconstruction of the discrete transforms and packets is on that device; no operation combines tensors of different devices.",
     ["inputs", "configurations"], "an input on an arbitrary non-default device, for every public transform, level, mode, axis choice and size",
     "the test machines have one device (CPU): placement on a default device cannot fail there at all",
     CONV + MAT + ["packets.py", "stationary_transform.py", "continuous_transform.py", "sparse_math.py", "_util.py"],
     [("filters are created on the device of the data", "_util.py: _get_filter_tensors"), ("matrices are built with the device of the input", "matmul_transform.py: construct_boundary_a")],
     "device propagation by abstract interpretation with an uninterpreted non-default device")

prop("P05", "Gradients flow from every result to every contributing input",
     "Every coefficient is differentiable with respect to the input signal, and every reconstruction is differentiable with respect to every coefficient tensor that was passed in; with filters given as tensors, the results of the convolution and stationary transforms and their packets are also differentiable with respect to every filter they are computed with. No path detaches, converts to numpy or copies data out of the graph.",
     ["inputs", "configurations"], "every public transform, level, mode, axis choice and size, with input or coefficients requiring gradients",
     "gradients are exercised by the tests for few configurations; a detached branch gives the correct value and fails only in backward()",
     CONV + MAT + ["packets.py", "stationary_transform.py", "continuous_transform.py", "_util.py"],
     [("torch operations only on the data path", "conv_transform.py, sparse_math.py: batch_mm")],
     "gradient-dependence (taint) propagation by abstract interpretation")

prop("P06", "Coefficient structure and sizes follow the documented layout",
     "A decomposition returns one approximation followed by the details from coarsest to finest in the documented containers (tensor, named tuple or dict with the documented keys), one entry per level, and level=None uses the maximum useful level. Every coefficient keeps the batch dimensions in place and has, along each transformed axis, the length floor((n+F-1)/2) per level for padded convolution, ceil(n/2) for boundary matrices and n for the stationary transform.",
     ["inputs", "configurations"], "all signal lengths (odd, even, tiny), filter lengths, batch shapes, levels, modes, axes; all public decompositions",
     "the tests compare selected sizes with pywt; combinations of odd sizes, axis order, 3-D data and levels are sampled sparsely, and the matrix transforms have no oracle for their shapes",
     CONV + MAT + ["stationary_transform.py", "constants.py", "_util.py"],
     [("padding amount per axis", "_util.py: _get_pad"), ("axes are swapped, batch is folded and restored", "_util.py: _preprocess_tensor")],
     "symbolic shape and container analysis by abstract interpretation")

prop("P07", "Reconstructions have the shape of the original data",
     "Reconstructing the coefficients of any input returns a tensor with the same number and order of dimensions and the original sizes, where only an odd transformed axis may come back with one extra sample; no valid coefficient list is rejected.",
     ["inputs", "configurations"], "all sizes, odd or even at every level, filter lengths, levels, modes, batch shapes and axes; all public analysis/synthesis pairs",
     "odd sizes at inner levels need the size-mismatch correction; the tests sample a few sizes per transform",
     CONV + MAT + ["stationary_transform.py", "_util.py"],
     [("padding adjustment for odd details", "_util.py: _adjust_padding_at_reconstruction"), ("dimension restoration", "_util.py: _postprocess_tensor")],
     "symbolic shape analysis by abstract interpretation of analysis followed by synthesis")

prop("P08", "Every coefficient holds the frequency band its name documents",
     "In the documented layout the approximation holds only low-pass filtered data, and every detail entry - horizontal, vertical, diagonal in 2-D (rows axis then columns axis), the keys 'aad'...'ddd' in 3-D and in the separable transforms - holds the data filtered low-pass or high-pass along exactly the axes its name says, at the level its position says. This holds for every ordering of the axes.",
     ["inputs", "configurations"], "all decompositions, levels, axes permutations, batch shapes and sizes",
     "the tests compare with pywt for a few axis orders; square inputs and symmetric data hide swapped bands, and the matrix and separable 3-D transforms are tested only for reconstruction, which any consistent swap survives",
     CONV + MAT + ["stationary_transform.py", "constants.py"],
     [("order of the stacked filter kernels", "_util.py: _construct_2d_filt"), ("key assembly", "separable_conv_transform.py, matmul_transform_3.py")],
     "symbolic operator extraction; band letters are read off the derived operator")

prop("P09", "Synthesis after analysis returns the original signal",
     "For every perfect-reconstruction wavelet (orthogonal for the boundary-matrix transforms, whose boundary rows are orthonormalised), every inverse transform applied to the coefficients of its forward transform returns the original data on its support, for all levels, boundary modes, batch shapes and axes: no sample is dropped, shifted, duplicated, rescaled or taken from another position, axis or batch element.",
     ["inputs", "configurations"], "all sizes, filter lengths, levels, modes, axes; wavelet assumed to satisfy the two-channel perfect-reconstruction identity and boundary matrices to be orthogonal",
     "the tests sample sizes and wavelets; an off-by-one crop or a wrong pairing on one parity class, level or dimension order is missed when no sampled size falls in it",
     CONV + MAT + ["stationary_transform.py", "_util.py"],
     [("cropping F-2 samples after the transposed convolution", "conv_transform.py: waverec"), ("synthesis matrix is the counterpart of the analysis matrix", "matmul_transform.py: MatrixWaverec")],
     "symbolic operator algebra: the derived composite operator is rewritten with the perfect-reconstruction identities and compared with the identity")

prop("P10", "Coefficients are the documented filter bank of the extended signal",
     "Every coefficient sample of the convolution transforms equals the documented filtering of the signal extended by the chosen boundary mode (zero, constant, symmetric, reflect, periodic) with the flipped analysis filters at stride two - exactly those taps, at those positions, including signals shorter than the padding.",
     ["inputs", "configurations"], "all sizes including signals shorter than the filter, filter lengths, modes, levels, axes",
     "the tests compare with pywt for selected wavelets and lengths; the extension of very short signals and of odd lengths at inner levels is hardly sampled",
     CONV + MAT + ["_util.py", "stationary_transform.py"],
     [("pad amounts and modes", "conv_transform.py: _fwt_pad"), ("symmetric padding", "_util.py: _pad_symmetric")],
     "symbolic operator extraction compared with a specification operator on symbolic and on enumerated short lengths")

prop("P12", "Packet trees: access, naming, laziness, limits and reconstruction",
     "A packet tree returns, for every valid key, the band the key spells (in 2-D 'h' is high-pass along the first transformed axis, 'v' along the last, as in pywt and for both separable settings) with the size its depth implies, keeps maxlevel (default: the deepest useful level of the shortest transformed axis), computes nodes on demand from their parent and returns a node the caller assigned after its siblings were computed as assigned. Invalid letters raise ValueError, keys deeper than maxlevel raise KeyError, access before transform raises ValueError, and reconstruct() with missing leaves raises KeyError while a complete tree reproduces the input at the root.",
     ["inputs", "histories", "configurations"], "all keys up to the analysed depth, every mode including boundary, separable or not, axes, sizes, access orders before and after reconstruct()",
     "the tests walk selected trees of square images; key errors, maxlevel on unequal sides, edited nodes and boundary trees with other axes are not covered",
     ["packets.py"],
     [("lazy expansion", "packets.py: WaveletPacket.__getitem__, _expand_node"), ("recursive reconstruction", "packets.py: reconstruct")],
     "abstract interpretation of access histories; node operators compared with the band specification")

prop("P14", "No call changes process-wide state, prints or draws randomness",
     "Transforms and packets neither change module globals, torch or numpy global settings nor attributes of foreign objects, they use no random numbers, and they write nothing to stdout; equal calls give equal results in any order.",
     ["histories", "inputs"], "every public transform and packet operation in every analysed configuration",
     "a test observes a leaked default dtype or a module-level cache only if a later test in the same process depends on it",
     CONV + MAT + ["packets.py", "stationary_transform.py", "continuous_transform.py", "sparse_math.py", "_util.py"],
     [("pure functions of the arguments", "all modules")],
     "effect analysis by abstract interpretation over all functions reached from the entry points")

prop("P17", "Boundary transforms compute as many levels as the data allows, with a notice",
     "When an axis becomes too short for the filter, the matrix transforms stop at the last possible level, return a shorter coefficient list that their inverse accepts and turns back into the input, and write a notice to stderr exactly when fewer levels than requested were computed; they never raise for short inputs.",
     ["inputs", "configurations"], "all enumerated small lengths per axis, filter lengths and requested levels, 1-D, 2-D (separable or not) and 3-D",
     "the tests call the transforms only with inputs large enough for the requested level",
     MAT,
     [("level loop stops when a side is shorter than the filter", "matmul_transform.py: _construct_analysis_matrices")],
     "abstract interpretation with enumerated small sizes and symbolic batch")

prop("P18", "Control flow and shapes never depend on tensor values",
     "Which coefficients are returned, their shapes, and the operations performed depend on shapes, dtypes, devices and options only: the values of the signal, coefficients or filters never decide a branch, a loop, an index or a size.",
     ["inputs", "configurations"], "all values of all inputs, in every analysed configuration",
     "tests use random or structured data and cannot show the absence of a value-dependent shortcut (for example skipping all-zero details)",
     CONV + MAT + ["packets.py", "stationary_transform.py", "continuous_transform.py", "sparse_math.py", "_util.py"],
     [("shape-driven loops", "all modules")],
     "control-dependence (taint) analysis by abstract interpretation")

prop("P16", "Boundary matrices keep complete filter rows and orthonormalise the rest",
     "The sparse analysis matrix of a boundary transform holds, in every row whose filter lies completely inside the signal, exactly the taps of the documented strided convolution (rows ordered approximation then details; in 2-D ll, lh, hl, hh), and its incomplete boundary rows form an orthonormal basis of the span of the cut-off filters. For orthogonal wavelets the synthesis matrix is the transpose of the analysis matrix. sparse_fwt_operator and sparse_ifwt_operator applied to the flattened data give what calling the transform gives.",
     ["inputs", "configurations"], "enumerated lengths and image sizes, filter lengths 2 to 8, both orthogonalization methods, one to three levels, all real filter taps (polynomial identities at generic taps)",
     "the tests check matrix @ inverse against the identity within tolerances for a few wavelets; a row assigned to the wrong position, a missing projection or a wrong operator assembly can pass with haar or for one size",
     ["matmul_transform.py", "matmul_transform_2.py", "sparse_math.py"],
     [("row selection for the orthogonalization", "matmul_transform.py: _get_to_orthogonalize, orthogonalize"), ("QR and Gram-Schmidt replacement of rows", "sparse_math.py: _orth_by_qr, _orth_by_gram_schmidt"), ("operator assembly over levels", "matmul_transform.py: sparse_fwt_operator, matmul_transform_2.py: sparse_ifwt_operator")],
     "abstract interpretation with exact polynomial entries of the sparse matrices at enumerated sizes")

prop("P19", "Sparse operators use exact integer indices and have the documented size",
     "Sparse matrices built by the package take their indices from integer arithmetic of sufficient width and have the documented number of rows and columns, so operators stay exact for every length: no index passes through floating point or a narrow integer type, and no trailing empty row or column is dropped.",
     ["inputs"], "index types: all sizes, filter lengths and dtypes of every matrix transform, packet tree in boundary mode and sparse helper; operator sizes at enumerated sizes",
     "index rounding appears only beyond 2**24 columns in float32; dropped rows only for sizes with empty trailing rows",
     ["sparse_math.py"] + MAT,
     [("index tensors built with arange and stack", "sparse_math.py: construct_conv_matrix"), ("identity extension", "sparse_math.py: cat_sparse_identity_matrix")],
     "index-dtype propagation and exact operator sizes by abstract interpretation")

prop("P22", "Packet node orders enumerate all nodes in the documented order",
     "get_level(level, order) returns every node of the level exactly once, for 'natural' order lexicographically and for 'freq' order by increasing frequency (Gray-code order; in 2-D, from level one on, a grid of rows and columns of increasing frequency).",
     ["inputs"], "all levels up to the analysed bound (1-D: 6 quick, 8 thorough; 2-D: 4 and 5), both orders, both dimensions",
     "the tests compare one or two levels with pywt",
     ["packets.py"],
     [("Gray code", "packets.py: WaveletPacket.get_level, _get_graycode_order"), ("2-D frequency grid", "packets.py: WaveletPacket2D.get_freq_order")],
     "constant propagation of get_level against an independent Gray-code specification")

prop("P13", "Stationary transform: periodic a-trous filter bank that iswt inverts",
     "swt returns one approximation and one detail per level (level=None: as often as the length can be halved), all with the shape of the input, and each equals the periodic convolution of the signal with the dilated analysis filters, for every length - including signals shorter than the dilated filter. iswt applied to these coefficients returns the signal.",
     ["inputs", "configurations"], "all lengths (symbolic, and enumerated short lengths up to 12 quick / 24 thorough), filter lengths, levels, batch shapes and axes",
     "the tests use lengths 32 and 64, for which no signal is shorter than the dilated filter; the wrap-around of short signals was wrong",
     ["stationary_transform.py", "_util.py"],
     [("repeated circular padding", "stationary_transform.py: _circular_pad"), ("dilated convolution and its transpose", "stationary_transform.py: swt, iswt")],
     "symbolic operator extraction compared with the specification operator; perfect-reconstruction rewriting")

prop("P23", "Sparse helpers return exactly the documented matrices",
     "construct_conv_matrix, construct_conv2d_matrix and their strided versions return the convolution matrix of the documented shape and alignment for the modes full, valid, same and sameshift (images flattened column by column) with every tap at its place; sparse_kron, sparse_diag, cat_sparse_identity_matrix and sparse_replace_row return the documented product, diagonal, extension and row replacement with no entry lost, shifted or duplicated; batch_mm multiplies every batch element.",
     ["inputs", "configurations"], "enumerated matrix, image and filter sizes (also odd, one-column and smaller than the filter), all modes and strides 1 to 3, sparsity patterns including empty rows and empty matrices; all real entries",
     "the tests compare a few sizes with scipy; empty factors, diagonals outside of the matrix, rectangular matrices and unsorted indices are not covered (three of these were wrong)",
     ["sparse_math.py"],
     [("alignment of the modes", "sparse_math.py: construct_conv_matrix, construct_strided_conv2d_matrix"), ("index arithmetic of the Kronecker product", "sparse_math.py: sparse_kron"), ("row replacement", "sparse_math.py: sparse_replace_row")],
     "abstract interpretation with exact polynomial entries of the sparse matrices at enumerated sizes")

prop("P11", "Invalid arguments are rejected",
     "Calls with invalid arguments raise the documented exception instead of returning a result, for every size, wavelet and position of the defect: data that is not a floating-point tensor or has too few dimensions, wrong or repeated axes, unknown padding modes and orthogonalization methods, non-positive levels of the matrix transforms, wavelets with unequal filter lengths in matrix transforms; coefficient structures whose approximation is not a tensor, whose entries differ in dtype or device, whose details have the wrong container, wrong or missing keys or sizes that do not belong together; and in the sparse helpers unknown modes, unequal devices, non-square matrices to extend, and factors whose shapes do not fit.",
     ["inputs", "configurations"], "all sizes, wavelets and batch shapes, for the listed kinds of invalid arguments in every public entry point, with the defect at different levels and positions of the coefficient structure",
     "the tests try one or two invalid calls per function; a validation moved into a branch, or skipped for one level, entry or container, silently returns wrong coefficients",
     CONV + MAT + ["packets.py", "stationary_transform.py", "continuous_transform.py", "sparse_math.py", "_util.py"],
     [("checks of data and axes", "_util.py: _preprocess_tensor, _check_axes_argument"), ("checks of the coefficient structure", "_util.py: _check_same_device_dtype, _check_if_tensor"), ("mode checks", "sparse_math.py: construct_conv_matrix")],
     "path analysis by abstract interpretation: every path of the invalid call must raise")

prop("P15", "Deprecated keywords are honoured and announced",
     "The deprecated keywords 'boundary' (matrix transforms and matrix constructors) and 'boundary_orthogonalization' (packets) have exactly the effect of 'orthogonalization' and emit a DeprecationWarning; the current keyword emits none; giving both raises TypeError.",
     ["inputs", "configurations"], "every class and function with the keyword, both methods, all sizes",
     "the suite does not compare results of the two spellings; a value that is dropped falls back to the default method, which gives a plausible transform",
     MAT + ["packets.py", "_util.py"],
     [("keyword alias decorator", "_util.py: _deprecated_alias"), ("decorated functions", "matmul_transform.py: construct_boundary_a, MatrixWavedec.__init__")],
     "two-run abstract interpretation comparing the call with the deprecated and with the current keyword")

prop("P24", "Transforms are linear in the data",
     "Every coefficient is a linear function of the input signal and every reconstruction and packet node a linear function of the coefficients or data passed in, with no constant added: no clipping, thresholding, normalisation by data-dependent values, rounding, non-finite replacement or data-chosen selection, for all values.",
     ["inputs", "configurations"], "all values of the data, every public transform, inverse and packet call, level, mode, axes and size",
     "tests use data of moderate size; a clamp, an epsilon or a replacement of special values acts only on values the tests do not contain",
     CONV + MAT + ["packets.py", "stationary_transform.py", "continuous_transform.py", "_util.py"],
     [("only convolution, padding, indexing and sparse products touch the data", "conv_transform.py: wavedec, waverec"), ("batch products with sparse operators", "sparse_math.py: batch_mm")],
     "taint analysis of non-linear operations on the data path by abstract interpretation")

prop("P21", "Losses of learnable wavelets measure the documented conditions",
     "Every loss of a learnable wavelet is a scalar of the filters' dtype and device that equals the documented condition as a polynomial of all filter taps - zero exactly for filters with perfect reconstruction (distortion coefficient two at the middle power, all others zero), alias cancellation, the product-filter sign pattern, or orthogonality (time-reversed synthesis filters) - and is differentiable with respect to every filter it measures; the filter bank is the tuple of the learnable parameters themselves and no loss modifies them.",
     ["inputs"], "all real taps of the four filters, enumerated filter lengths (2, 4, 6 quick; up to 12 thorough), both classes, float32 and float64",
     "the tests evaluate the losses for a few known orthogonal wavelets, where every one is (almost) zero: a dropped tap, a wrong sign or a missing term still gives zero there",
     ["wavelets_learnable.py"],
     [("losses from polynomial products of the filters", "wavelets_learnable.py: ProductFilter.perfect_reconstruction_loss, alias_cancellation_loss"), ("orthogonality of the filter bank", "wavelets_learnable.py: SoftOrthogonalWavelet.filt_bank_orthogonality_loss")],
     "abstract interpretation with exact polynomial entries, compared with the documented polynomial")

prop("P20", "Continuous transform follows the documented formula",
     "cwt returns a pair: coefficients of shape [scales, *data.shape], whose row for scale s is -sqrt(s) times the first difference of the full linear convolution of the last axis of the data with the reversed samples of the integrated wavelet stretched by s, cropped centrally to the length of the data (complex conjugated wavelet and complex result for complex wavelets, real result otherwise), and frequencies central_frequency / scale / sampling_period, one per scale. This holds for scales given as array, tensor or number, in any order and with repetitions, for wavelet objects and names, continuous, discrete and learnable wavelets, and every sampling_period (which never changes the coefficients) and precision; the result is on the device of the data and differentiable with respect to the data and the parameters of a learnable wavelet, no argument is modified, and a scale that leaves fewer than two wavelet samples raises ValueError.",
     ["inputs", "configurations"], "all data and all wavelet functions (opaque values), at enumerated data lengths (1 to 16), batch shapes, wavelet grids and lists of scales",
     "the tests compare with pywt for increasing integer scales, one or two lengths and even symmetric grids; the reuse of the transformed data between scales, unordered or repeated scales, odd crops and unsymmetric grids are not covered",
     ["continuous_transform.py"],
     [("transformed data are reused only for an equal padding size", "continuous_transform.py: cwt"), ("integration and sampling of the wavelet", "continuous_transform.py: _integrate_wavelet")],
     "abstract interpretation with exact polynomial entries, compared with the documented formula")

prop("P25", "The form in which the wavelet is given does not matter",
     "The name of a wavelet, the pywt.Wavelet object, a WaveletTensorTuple of its filters (of any floating-point dtype and on any device), another object with the attributes of the Wavelet protocol and, in the convolution and stationary transforms, a learnable wavelet with these filters give the same result in every transform, inverse transform and packet tree: the same number of levels (also where the level is chosen by the transform), the same names, sizes, dtype, device and coefficients.",
     ["inputs", "configurations"], "every public transform, inverse and packet call of the other properties, every form, symbolic lengths and filter lengths, and enumerated sizes where the level is not given",
     "the tests pass names and pywt objects nearly everywhere; len() of a tuple of filters is four, so every use of it for the filter length is right for filters of length four only (this was wrong in four transforms, two others raised)",
     CONV + MAT + ["packets.py", "stationary_transform.py", "_util.py", "constants.py"],
     [("filter length of every form", "_util.py: _get_len"), ("filters of every form", "_util.py: _get_filter_tensors, _as_wavelet"), ("filters as tensors", "constants.py: WaveletTensorTuple")],
     "two-run abstract interpretation comparing the call with each form to the call with a pywt.Wavelet")
