#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook,
                     **({'state': state} if state else {}))))

prop('C01', 'Tree classifiers: the C model votes exactly like the fitted estimator',
 "For every fitted decision tree, random forest or extra-trees classifier that converts, and every input representable in the chosen feature type (including inputs that lie exactly on a split threshold), the C code, inline or loadable, returns for hard voting the most-voted class index over the trees' own majority classes (lowest index on a tie) with probabilities equal to the vote fractions. "
 "With soft voting at 3-8 leaf bits the probabilities equal the mean class proportions within the leaf quantization step, and the predicted class is the arg-max of the reported probabilities. "
 "The inline and the loadable code of one model agree on every input.",
 ['inputs','programs','configurations'],
 'all fitted supported tree classifiers (any shape, depth, number of classes/features, single-leaf trees), feature dtypes float/int8/int16/int32/uint8/uint16, leaf_bits 0 and 3..8, both inference methods; all feature vectors, in particular ones adjacent to and on split thresholds and at the dtype limits',
 'The tests compare 5-100 training rows of two random datasets, whose values almost never meet a threshold, with loose tolerances (up to 10% wrong, atol 0.3); they never look at thresholds, ties, negative values next to a threshold, or many classes.',
 ['emlearn/trees.py','emlearn/eml_trees.h','emlearn/cgen.py','emlearn/common.py'],
 [('flatten_tree/flatten_forest/remove_duplicate_leaves','emlearn/trees.py'),('generate_c_inlined, generate_c_loadable','emlearn/trees.py'),('eml_trees_predict, eml_trees_predict_proba','emlearn/eml_trees.h')],
 ['convert(...).save() C code compiled and driven on recorded inputs','convert(...).predict / predict_proba'])

prop('C02', 'Tree regressors: the C model returns the mean of the leaf values',
 "For every fitted decision tree, random forest or extra-trees regressor that converts, and every input representable in the feature type, the C code returns the mean over the trees of the value of the leaf that the estimator itself reaches, to single-precision accuracy relative to the largest leaf value. "
 "The inline and the loadable code of one model agree within single-precision rounding.",
 ['inputs','programs','configurations'],
 'all fitted supported tree regressors with one output, any target scale, feature dtypes, both methods; all feature vectors incl. on/adjacent to thresholds',
 'The tests check 5 rows at atol=2; leaf values of another magnitude (1e-6, 1e6) and threshold hits are never exercised.',
 ['emlearn/trees.py','emlearn/eml_trees.h','emlearn/cgen.py'],
 [('leaves_to_bytelist, generate_c_inlined, generate_c_loadable','emlearn/trees.py'),('eml_trees_regress, eml_trees_regress1','emlearn/eml_trees.h')],
 ['convert(...).save() C code compiled and driven on recorded inputs','convert(...).predict'])

prop('C03', 'Tree tables and CSV export describe exactly the fitted ensemble',
 "The CSV export of every convertible tree model lists features, classes, leaf bits, leaves, roots and nodes such that a reader following the relative child references, with the same decision rule as the C runtime, reaches for every input the same leaf values as the fitted ensemble. "
 "Every reference stays inside the tables, every node and leaf is reachable, no two leaves are equal, every walk ends, and the exported thresholds keep 6 decimals. "
 "Exporting leaves the model unchanged, so any later export or generated C code is identical to what it would have been before.",
 ['inputs','programs','histories'],
 'all fitted supported tree models (classifiers with hard/soft voting, regressors, ensembles with single-leaf trees); all sequences of save calls',
 'The tests only count CSV rows; they never interpret the table, and never export single-leaf trees or soft-voting leaves.',
 ['emlearn/trees.py'],
 [('Wrapper.save(format=csv), encode_child, assert_forest_valid','emlearn/trees.py'),('remove_duplicate_leaves','emlearn/trees.py')],
 ["convert(...).save(format='csv')"])

prop('C04', 'Neural networks: C inference equals the trained network',
 "For every supported multi-layer perceptron (scikit-learn classifier/regressor, Keras Sequential of dense layers with relu, tanh, logistic, softmax or identity activations) the C code reproduces the network's outputs, class probabilities and regression values to single-precision accuracy, with probabilities summing to 1. "
 "The predicted class is the network's decision whenever its margin exceeds that accuracy, and the inline and the loadable code make the same decision. ",
 ['inputs','programs','configurations'],
 'all layer counts/widths (widening, narrowing, single neuron), activations and weight magnitudes, binary/multiclass/regression with one or several outputs, all finite inputs incl. ones that saturate activations',
 'The tests compare 3 rows on 3 fixed architectures with 10 training iterations; the inline method is never executed by them, two-unit softmax, multi-output regression and tiny weights never occur.',
 ['emlearn/net.py','emlearn/eml_net.h','emlearn/eml_net_common.h','emlearn/templates/net_float.jinja','emlearn/cgen.py'],
 [('eml_net_forward, eml_net_infer, eml_net_predict_proba','emlearn/eml_net.h'),('c_generate_net_loadable / c_generate_net_inline','emlearn/net.py')],
 ['convert(...).predict/predict_proba','generated {name}_predict/_regress/_regress1 and eml_net_* on the generated model'])

prop('C05', 'Gaussian naive Bayes: decisions follow the class log-likelihoods',
 "For every fitted Gaussian naive Bayes model and input whose values, means, deviations and standardised distances to the means are within the range of the 16.16 fixed-point format, the C code returns the class with the highest sum of Gaussian log-likelihoods over the features (equal priors; the first one among classes with identical parameters), whenever the winner's margin exceeds the fixed-point error bound. "
 "It does so for any number of classes and features, and never returns a class that does not exist.",
 ['inputs','programs'],
 'all class counts (2..40), feature counts, means/variances representable in Q16.16 and inputs within a few tens of deviations of some class',
 'Two random standardized datasets, 5 rows each; more than 5 classes or values far from the means never occur.',
 ['emlearn/bayes.py','emlearn/eml_bayes.h','emlearn/eml_fixedpoint.h'],
 [('eml_bayes_predict, eml_bayes_logpdf','emlearn/eml_bayes.h'),('generate_c','emlearn/bayes.py')],
 ['convert(...).predict','generated {name}_predict'])

prop('C06', 'Nearest neighbours: exact k-NN over the stored and later added items',
 "For every sequence of add-item and predict calls, a prediction is the majority label (lowest label on a vote tie) among the k stored items closest to the input in Euclidean distance at integer resolution, over exactly the items that were successfully added, for all int16 feature values. "
 "Adding beyond the capacity or with the wrong number of features fails without changing the stored items. "
 "A converted scikit-learn classifier predicts like its estimator whenever the neighbour set is unambiguous.",
 ['inputs','histories'],
 'all item sets and queries over the full int16 range, all k >= 1, all histories of add/predict/failed add',
 'One dataset restricted to +-10000 ("FIXME: fails when values are larger") and one three-call C test.',
 ['emlearn/neighbors.py','emlearn/eml_neighbors.h','emlearn/eml_qsort.h'],
 [('eml_neighbors_add_item / _predict / _infer / _find_nearest','emlearn/eml_neighbors.h'),('eml_distance_euclidean_int16','emlearn/eml_neighbors.h')],
 ['eml_neighbors_* return values and model fields','convert(...).predict'],
 state=[dict(name='items', meaning='n_items, data, labels of the model', where='emlearn/eml_neighbors.h')])

prop('C07', 'Elliptic envelope: distances and outlier decisions match the estimator',
 "For every fitted elliptic envelope and finite input, the C code returns the squared Mahalanobis distance to the fitted location under the fitted precision, to single-precision accuracy, and the outlier decision is distance > -offset with the fitted offset (both through the Python wrapper and through the C predict function). "
 "Correlated features of any scale give the same agreement as uncorrelated standardized ones.",
 ['inputs','programs'],
 'all fitted envelopes (dimensions 1..12, contamination levels, feature scales over many decades), all inputs incl. exactly at the location and near the boundary',
 'One test dataset, ranks compared loosely; scaled/correlated data and the C-level decision are not looked at.',
 ['emlearn/distance.py','emlearn/eml_distance.h','emlearn/cgen.py'],
 [('eml_mahalanobis_distance_squared, eml_elliptic_envelope_predict','emlearn/eml_distance.h'),('generate_code, Wrapper.predict','emlearn/distance.py')],
 ['convert(...).predict/score_samples/mahalanobis','generated {name}_predict and eml_elliptic_envelope_predict'])

prop('C08', 'Gaussian mixtures: log-likelihoods and responsibilities match the estimator',
 "For every fitted (Bayesian) Gaussian mixture of any covariance type, the C code's per-component log-probabilities, sample score and responsibilities equal the estimator's to single-precision accuracy, responsibilities are in [0,1] and sum to 1, and the predicted component is the estimator's whenever its margin exceeds that accuracy. "
 "This includes inputs far from all components, where plain exponentials would underflow.",
 ['inputs','programs'],
 'covariance types full/tied/diag/spherical, plain and Bayesian, 1..8 components, 1..8 features, inputs up to hundreds of deviations away',
 'A few fixed datasets; far inputs, single component/feature and near-degenerate weights are not exercised.',
 ['emlearn/mixture.py','emlearn/eml_mixture.h'],
 [('eml_mixture_predict_log_proba/_score/_predict_proba, eml_logsumexp','emlearn/eml_mixture.h'),('convert_to_full, get_log_weights','emlearn/mixture.py')],
 ['convert(...).predict/predict_proba/score_samples/predict_log_proba','generated {name}_*'])

prop('C09', 'Generated C is portable, self-contained and free of dynamic allocation',
 "Every model or table that is saved under a valid C identifier yields C that compiles without diagnostics as strict C99 with warnings as errors, also as C++ and together with the code of other models saved under other names in one program; inline tree code needs no emlearn header. "
 "Running inference from it performs no heap allocation, and what save() writes to a file is what it returns, with the model named after the file when no name is given. "
 "Names that are not C identifiers or are reserved words are rejected with ValueError.",
 ['programs','configurations','inputs'],
 'all model families, methods, dtypes, names (valid and invalid strings), combinations of several models in one program',
 'Tests compile one model per program under fixed internal names; user chosen names, coexistence, C++ and the allocator are never observed.',
 ['emlearn/cgen.py','emlearn/creserved.py','emlearn/trees.py','emlearn/net.py','emlearn/bayes.py','emlearn/neighbors.py','emlearn/distance.py','emlearn/mixture.py','emlearn/templates/net_float.jinja'],
 [('assert_valid_identifier','emlearn/cgen.py'),('generate_c*, save()','emlearn/*.py')],
 ['compiler diagnostics on saved code','allocator interposition while inference runs','files written by save()'])

prop('C10', 'No memory error or undefined behaviour in the C library and generated code',
 "Under any sequence of calls with correctly sized buffers, and with any argument that the functions document as checked, the C headers and the generated code read and write only the memory handed to them and execute no undefined behaviour (overflow, invalid conversion, misalignment, invalid shift, uninitialised read). "
 "This holds at the edges: length 0 and 1, maximum feature values, largest supported models, non-finite floats where only arithmetic is done on them.",
 ['inputs','programs','histories'],
 'all public functions of the headers and all generated inference functions, exact-size heap buffers, extreme values',
 'No test is built with a sanitizer and the Unity C tests use oversized stack buffers and friendly values.',
 ['emlearn/eml_trees.h','emlearn/eml_net.h','emlearn/eml_bayes.h','emlearn/eml_neighbors.h','emlearn/eml_qsort.h','emlearn/eml_distance.h','emlearn/eml_mixture.h','emlearn/eml_fft.h','emlearn/eml_audio.h','emlearn/eml_iir.h','emlearn/eml_array.h','emlearn/eml_csv.h','emlearn/eml_quantizer.h','emlearn/eml_vector.h','emlearn/eml_fixedpoint.h','emlearn/eml_test.h'],
 [('bounds and precondition checks','emlearn/eml_*.h')],
 ['AddressSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck reports'])

prop('C11', 'C API: invalid calls are refused with the documented error, without effects',
 "Every C function with a length, shape or initialisation precondition returns the documented error value (never success or a class) when the precondition is violated, and then leaves output buffers, model state and memory outside them untouched. "
 "Class-returning functions report errors as negative values, float-returning convenience functions as NAN, and every error code has the string of its own name. ",
 ['inputs','configurations'],
 'all precondition-carrying functions x all wrong lengths/shapes (off by one, zero, negative, huge), NULL where checked, uninitialised models',
 'Only a couple of array preconditions are ever triggered by tests.',
 ['emlearn/eml_common.h','emlearn/eml_trees.h','emlearn/eml_net.h','emlearn/eml_bayes.h','emlearn/eml_neighbors.h','emlearn/eml_distance.h','emlearn/eml_mixture.h','emlearn/eml_fft.h','emlearn/eml_audio.h','emlearn/eml_iir.h','emlearn/eml_array.h','emlearn/eml_quantizer.h','emlearn/eml_csv.h'],
 [('EML_PRECONDITION / EML_CHECK_ERROR','emlearn/eml_common.h'),('eml_error_str','emlearn/eml_common.h')],
 ['return values','canary-filled output buffers'])

prop('C12', 'Converted models are independent of each other and of the conversion history',
 "In any interleaving of converting, saving and predicting with several models in one process, every converted model keeps answering for its own estimator, independent of models converted before or after it and of later training of any estimator. "
 "Converting and predicting change neither the estimator, nor the input arrays, nor global numeric settings, converting the same estimator again yields identical code, and a row's prediction does not depend on the other rows of the batch or their order.",
 ['histories','inputs'],
 'all histories of convert/save/predict/predict_proba over several models of equal or different families; all batch splits and permutations',
 'Tests use each converted model immediately after conversion and never come back to an earlier one.',
 ['emlearn/common.py','emlearn/convert.py','emlearn/trees.py','emlearn/net.py','emlearn/bayes.py','emlearn/neighbors.py','emlearn/distance.py','emlearn/mixture.py'],
 [('CompiledClassifier/build_classifier/run_classifier','emlearn/common.py')],
 ['convert(...).predict / predict_proba / save','numpy error state','estimator and input snapshots'])

prop('C13', 'C inference is repeatable, order independent, and unaffected by debug builds',
 "A C inference call depends only on the model and the features: repeating it, interleaving it with calls on other inputs or other models, or having had a failed call before gives bit-identical results and leaves the model data and features unmodified. "
 "Tree, mixture, distance and naive-Bayes inference on one shared model may run in parallel threads with these same results. "
 "Enabling logging, tracing or debug checks at compile time changes no result.",
 ['schedules','histories','configurations'],
 'all call sequences over several models and inputs, thread schedules for the stateless families, build options EML_LOG_ENABLE / EML_TREES_TRACE / EML_DEBUG / neighbour log level',
 'Tests run one call per process row; never repeat, interleave, thread, or enable logging.',
 ['emlearn/eml_trees.h','emlearn/eml_net.h','emlearn/eml_bayes.h','emlearn/eml_neighbors.h','emlearn/eml_distance.h','emlearn/eml_mixture.h','emlearn/eml_log.h','emlearn/eml_common.h','emlearn/trees.py','emlearn/net.py'],
 [('const models, caller-owned or per-model scratch buffers','emlearn/eml_*.h')],
 ['recorded call/result trace of a driver','ThreadSanitizer reports'])

prop('C14', 'FFT equals the discrete Fourier transform for every power-of-two length',
 "For every power-of-two length and complex input the in-place FFT equals the discrete Fourier transform to single-precision accuracy, in both its real and imaginary part; the Python rfft returns its real part and leaves the input unchanged. "
 "Any other length, or a table prepared for another length, is refused with an error and unchanged data.",
 ['inputs','configurations'],
 'lengths 2..8192, arbitrary finite complex inputs of any scale, all non-power-of-two lengths up to several hundred',
 'One test compares one sine input at fixed lengths, real part only.',
 ['emlearn/eml_fft.h','bindings/eml_audio.cpp'],
 [('eml_fft_fill, eml_fft_forward','emlearn/eml_fft.h'),('rfft','bindings/eml_audio.cpp')],
 ['eml_fft_forward outputs','eml_audio.rfft'])

prop('C15', 'Mel spectrum: correct triangular filters, inside the spectrum',
 "For every parameter set (FFT length, sample rate, number of bands, frequency range up to half the sample rate) the mel reduction weighs the input spectrum with the unnormalised HTK triangular mel filters, to single-precision accuracy, and the block mel-spectrogram equals Hann window, FFT, power spectrum of the real part and that reduction in sequence. "
 "Parameter sets whose filters leave the spectrum, or buffers of wrong length, are refused with an error; never is memory outside the spectrum read.",
 ['inputs','configurations'],
 'FFT lengths 32..4096, 1..80 bands, sample rates 8k..48k, arbitrary frequency ranges incl. beyond Nyquist, arbitrary non-negative spectra',
 'Only one parameter set is compared with librosa, the full chain test is skipped.',
 ['emlearn/eml_audio.h','emlearn/eml_vector.h','bindings/eml_audio.cpp'],
 [('eml_audio_melspec, eml_audio_melspectrogram, eml_audio_power_spectrogram','emlearn/eml_audio.h'),('eml_signal_hann_apply','emlearn/eml_vector.h')],
 ['eml_audio_* outputs','eml_audio.melfilter / melspectrogram'])

prop('C16', 'Sparse filterbank: same result as the dense filterbank, in Python and C',
 "For every filterbank matrix with one contiguous support per filter, converting it to sparse form and reducing a spectrum, in Python, through the bindings, or with the serialized C tables, gives the dense matrix product to single-precision accuracy (one value per band, in order). "
 "The mel-filterbank command line tool writes, for every parameter set, a C header whose tables reproduce librosa's mel filterbank and whose constants state the parameters it was generated for.",
 ['inputs','configurations'],
 'all banded non-negative or signed matrices incl. one-element supports, supports at the first/last bin; interior zeros and empty filters; all tool options',
 'One librosa filterbank is checked; the tool is not run by any test.',
 ['emlearn/signal.py','emlearn/tools/mel_filterbank.py','emlearn/eml_audio.h','bindings/eml_audio.cpp','emlearn/cgen.py'],
 [('sparse_filterbank, sparse_filterbank_serialize, sparse_filterbank_reduce','emlearn/signal.py'),('eml_sparse_filterbank','emlearn/eml_audio.h')],
 ['generated header compiled and read back','eml_sparse_filterbank output'])

prop('C17', 'IIR filter: equals a second-order-section cascade, for any chunking',
 "For every stable cascade of second-order sections and any input sequence, the filter output equals the reference cascade (scipy sosfilt convention) to accumulated single-precision accuracy, in C and through the Python binding. "
 "The output stream depends only on the sequence of inputs: splitting it over calls, or running other filters in between, changes nothing, and the state initialised to zero is the resting state. "
 "A malformed filter is reported by the check function, and the binding refuses it.",
 ['inputs','histories','configurations'],
 'cascades of 1..8 stages (lowpass..bandstop, Butterworth/Chebyshev/elliptic, generic stable), inputs of any shape and length, interleavings of several filters',
 'One noise signal through two filters.',
 ['emlearn/eml_iir.h','bindings/eml_signal.cpp'],
 [('eml_biquad_tdf2, eml_iir_filter, eml_iir_check','emlearn/eml_iir.h'),('iirfilter','bindings/eml_signal.cpp')],
 ['eml_iir_filter outputs','eml_signal.iirfilter'],
 state=[dict(name='states', meaning='4 delay values per stage', where='emlearn/eml_iir.h')])

prop('C18', 'Quantizer: saturating, monotone, sign-symmetric scaling with bounded error',
 "For every fitted quantizer and input the transformed values have the requested integer type and shape, are the scaled inputs truncated to integers within one step, saturate at plus/minus the output maximum instead of wrapping, and are monotone and odd in the input; the inverse restores every unsaturated value within one step. "
 "The C quantizer gives the same values as the Python one with the same scale, and its overflow/underflow counts are exactly the number of saturated values.",
 ['inputs','configurations'],
 'all scales, output dtypes (int8/int16/int32), output maxima, quantile settings, inputs over many decades incl. huge and tiny',
 'Tests use one dataset per dtype and one C vector of 4 values.',
 ['emlearn/preprocessing/quantizer.py','emlearn/eml_quantizer.h'],
 [('Quantizer.fit/transform/inverse_transform','emlearn/preprocessing/quantizer.py'),('eml_quantizer_forward_int16 / _check_forward_ / _inverse_','emlearn/eml_quantizer.h')],
 ['Quantizer outputs','eml_quantizer_* outputs and counters'])

prop('C19', 'Array container: every operation history matches a reference array',
 "After any sequence of initialise, fill, element write, row shift and row copy operations, an array holds exactly what the same operations on a reference 2-D array give: addressing is column-within-row, shifting by -n moves rows n..end to the front and leaves the rest, copying places the rows at the given start, sums add all elements. "
 "Refused operations return an error and change nothing, and element lookup outside the dimensions yields no pointer.",
 ['histories','inputs'],
 'all operation sequences over 2-D int16 arrays (and byte/float element sizes where supported) of all small shapes, in and out of range arguments',
 'Two short fixed scenarios in C, not run by the Python test-suite.',
 ['emlearn/eml_array.h','emlearn/eml_vector.h'],
 [('eml_array_init_full/_fill/_sum/_shift_rows/_copy_rows/_data_2d','emlearn/eml_array.h'),('eml_vector_set/_set_value/_view','emlearn/eml_vector.h')],
 ['array contents after each operation'])

prop('C20', 'CSV streams: what was written is what is read, over any stream behaviour',
 "Writing a header and any number of rows of finite values and reading them back over the same stream yields the same column names, number of rows and values to the written precision, then end of data. "
 "Rows of wrong length, more columns than the reader was given room for, lines longer than the buffer or malformed rows are reported as errors, never as rows with other contents, and no stream access goes outside the buffers given.",
 ['histories','inputs','fault_sequences'],
 'all column counts, names, values and row counts; buffers from exactly one line upward; file and memory streams, truncated files',
 'One file with 3 fixed rows in C, not run by the Python tests.',
 ['emlearn/eml_csv.h','emlearn/eml_io.h','emlearn/eml_fileio.h','emlearn/eml_test.h'],
 [('eml_csv_writer_write_header/_write_data, eml_csv_reader_read_header/_read_data','emlearn/eml_csv.h'),('eml_test_read_csv','emlearn/eml_test.h')],
 ['bytes on the stream','returned columns'])

prop('C21', 'Generated C literals and lookup tables carry the intended numbers',
 "Every numeric constant, array and lookup table that the code generator emits compiles and evaluates in C to the value it was given: integers exactly, floating-point values to single precision (whatever their magnitude), fixed-point values to their resolution, with the stated length, order, element type and qualifiers. "
 "The window-function tool writes for every window type, length and symmetry setting a header whose array equals the mathematical window and whose length constant is the array length, whatever the line width.",
 ['inputs','configurations'],
 'all finite values, sizes, dtypes and modifiers; all window types x lengths 1..2048 x symmetric/periodic x line widths x names',
 'The tests check identifiers and a handful of window lengths by parsing text.',
 ['emlearn/cgen.py','emlearn/fixedpoint.py','emlearn/tools/window_function.py'],
 [('constant, constant_declare, array_declare, array_declare_fixedpoint, struct_declare','emlearn/cgen.py'),('from_float/to_float','emlearn/fixedpoint.py'),('window_function, main','emlearn/tools/window_function.py')],
 ['values printed by a compiled program that includes the emitted text'])

prop('C22', 'Model evaluation metrics state the true cost of the model',
 "For every tree model the reported node, leaf, byte, tree-count, depth and compute-cost figures equal the values counted independently from the estimator and from the generated tables, and program sizes reported for a compiled program equal the section sizes in the built binary. "
 "The Pareto front of any result table consists of exactly the rows that are not dominated by another row, up to the requested performance cut, and leaves the table unchanged; the plot of the front shows the front of the metrics that were asked for. "
 "Tools that are missing are named, and all include directories that were given are used, whatever characters their names have.",
 ['inputs','programs'],
 'all tree models; all result tables incl. duplicates, ties, single row, lower-is-better, metric names and hues of plots; all binutils size listings with/without bss/rodata',
 'Tests check that metrics are not NaN and that sizes of one program are in a range; the Pareto code is not tested.',
 ['emlearn/evaluate/trees.py','emlearn/evaluate/pareto.py','emlearn/evaluate/size.py'],
 [('model_size_*, tree_depth_*, count_trees, compute_cost_estimate','emlearn/evaluate/trees.py'),('is_pareto_efficient_simple, find_pareto_front','emlearn/evaluate/pareto.py'),('parse_binutils_size_a_output, run_binutils_size, get_program_size','emlearn/evaluate/size.py')],
 ['returned figures'])

prop('C23', 'What cannot be converted faithfully is refused, never converted wrongly',
 "A model, option or size outside what the C code can represent (unknown estimator, activation, layer, metric or weighting, unknown inference method, loadable trees with a non-int16 type, too many features, classes or tree nodes, multi-output or unfitted models, nearest neighbor items that are not integers) raises an exception at conversion or saving, also when Python assertions are disabled. "
 "A subclass of a supported model, converted with its kind given explicitly, is converted like the model it extends. "
 "Conversion that succeeds yields a model whose predictions are valid classes or values, never an error code presented as a prediction.",
 ['programs','configurations'],
 'all unsupported estimators/options and all sizes around the representable limits (features 127/128, classes up to and beyond the runtime limits, child offsets around 2^15)',
 'The tests probe a few unsupported activations/metrics and one huge forest.',
 ['emlearn/convert.py','emlearn/trees.py','emlearn/net.py','emlearn/neighbors.py','emlearn/bayes.py','emlearn/distance.py','emlearn/mixture.py'],
 [('checks in the Wrappers and converters','emlearn/*.py')],
 ['exceptions of convert/save','predictions of what converted'])

prop('C24', 'Python bindings refuse malformed arrays and never harm the process',
 "The signal and audio bindings answer every call, with arrays of any shape, length, type or content, either with a correct result or with an ordinary Python exception naming the problem; they never crash the interpreter, read outside the arrays, or modify the arguments.",
 ['inputs'],
 'all binding functions x dimensions 0..3 x lengths 0..n x dtypes x memory layouts (strided, Fortran order, read-only) x inconsistent argument combinations',
 'The tests call the bindings only with well-formed arguments.',
 ['bindings/eml_audio.cpp','bindings/eml_signal.cpp','bindings/emlpy_common.hpp'],
 [('EMLPY_PRECONDITION / EMLPY_CHECK_ERROR','bindings/emlpy_common.hpp'),('argument checks','bindings/*.cpp')],
 ['exit status of a child interpreter','AddressSanitizer/valgrind on the extension','argument snapshots'])

prop('C25', 'Headers are usable alone, together, in C and C++, and install completely',
 "Each public header compiles on its own, when included twice, and together with all others, as C99 and as C++, without diagnostics. "
 "Installing the Arduino library copies every public header and the version file unmodified into the library folder, refuses to touch an existing library unless updating is requested, and with update replaces every file and keeps the other files of the user.",
 ['configurations','histories'],
 'all headers x languages x inclusion orders; all install histories (fresh, existing, update, stale contents, missing parents)',
 'Tests compile only the headers that a generated model includes, in C; the Arduino install is exercised once.',
 ['emlearn/eml_common.h','emlearn/eml_csv.h','emlearn/eml_neighbors.h','emlearn/eml_quantizer.h','emlearn/eml_fileio.h','emlearn/eml_io.h','emlearn/arduino/install.py','emlearn/utils/fileutils.py'],
 [('include guards and includes','emlearn/eml_*.h'),('install_arduino_library','emlearn/arduino/install.py')],
 ['compiler diagnostics','directory contents after install'])

prop('C26', 'Sorting and numeric helpers compute their mathematical function',
 "For every input in range, sorting yields the ascending permutation of its input, the integer square root is the floor of the real one, int16 Euclidean distance is the floor of the exact distance, fixed-point multiply/divide/convert and the fixed-point logarithm are within their resolution of the exact value, log-sum-exp, min/max, mean, Hann window and log-density helpers match double-precision evaluation to single-precision accuracy, and arg-max is the first maximal index. ",
 ['inputs'],
 'array lengths 0..2000 with heavy duplicates, sorted, reversed and organ-pipe inputs; all non-negative int32 squares and neighbours; full int16 vectors; all Q16 pairs whose result is representable',
 'No test addresses these helpers directly, apart from one fixed-point round trip.',
 ['emlearn/eml_qsort.h','emlearn/eml_neighbors.h','emlearn/eml_fixedpoint.h','emlearn/eml_bayes.h','emlearn/eml_mixture.h','emlearn/eml_net.h','emlearn/eml_vector.h'],
 [('QSORT, eml_isqrt, eml_distance_euclidean_int16','emlearn/eml_qsort.h, emlearn/eml_neighbors.h'),('eml_q16_*','emlearn/eml_fixedpoint.h'),('eml_logsumexp, eml_minmax','emlearn/eml_mixture.h')],
 ['values returned to a C driver'])

prop('C27', 'The structured log is well-formed and tells what really happened',
 "With EML_LOG_ENABLE every entry of the structured log is one line of logfmt (event name, then key=value pairs; arrays as [a,b,c]) with exactly the keys and values the program added, whatever expressions the arguments of the macros are and wherever EML_LOG_PRINTF sends it; the entries of the tree and nearest-neighbour inference are complete, in order, and equal what the call really did (model and input sizes, leaf reached in every tree, every step of the walk under EML_TREES_TRACE, mean class votes, chosen class, regression output, distance of every item, the k nearest, the votes; higher EML_NEIGHBORS_LOG_LEVELs only add entries); a refused call logs no result; with logging off (the default) nothing is written anywhere; and logging never changes a returned value. ",
 ['inputs','configurations'],
 'random log programs over all macros; random tree tables of all leaf kinds with 12 queries each; random nearest-neighbour histories; EML_LOG_ENABLE unset/0/1, stderr and application-defined sinks, EML_TREES_TRACE 0/1, EML_NEIGHBORS_LOG_LEVEL unset/0..3',
 'Logging is off in the test build, so no test reads a log entry; whether an entry is parseable and true depends on model, input, and argument expressions.',
 ['emlearn/eml_log.h','emlearn/eml_trees.h','emlearn/eml_neighbors.h'],
 [('EML_LOG_BEGIN/ADD/END macros','emlearn/eml_log.h'),('eml_trees_predict/regress/predict_tree logging','emlearn/eml_trees.h'),('eml_neighbors_* logging','emlearn/eml_neighbors.h')],
 ['text written to stderr or the application sink', 'values returned with and without logging'])

prop('C28', 'Host bridge: Python reports exactly what the compiled C code computed',
 "A compiled model run from Python hands every row of the matrix to its C function exactly once, in order, with every single-precision value bit for bit (any container, memory layout, width or number of rows; also after the working directory has changed), and returns for every row exactly the value the C function computed; malformed input or a wrong number of features never reaches the C function, and a C function that fails, crashes or is missing gives an exception, never a partial or earlier answer. "
 "Models and programs built at the same time by threads or processes in one working directory answer for themselves. "
 "The documented helper that compiles C code builds a program from the current source and headers, at the path it returns, for any spelling of the paths and from any working directory, reports compile and link errors, and writes nothing outside the output directory and the system's temporary directory. ",
 ['inputs','schedules','fault_sequences','configurations'],
 'matrices up to 3000 rows / 700 features of arbitrary finite bit patterns in 7 presentations; 9 spellings of the build folder; 5 kinds of failing executables; 2-6 threads plus 2 processes; 8 programs compiled at once; absolute, relative, parent and blank-containing paths',
 'The tests use a few small models one after another from one working directory with moderate values; only an observer inside the compiled code sees what it was handed.',
 ['emlearn/common.py'],
 [('CompiledClassifier, build_classifier, run_classifier','emlearn/common.py'),('compile_executable','emlearn/common.py'),('eml_test_read_csv','emlearn/eml_test.h')],
 ['values recorded inside the compiled C functions', 'values returned to Python', 'file system before and after', 'output of compiled programs'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
