#!/usr/bin/env python3
"""Single source for properties.jsonl (kept here because JSONL is unpleasant to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={'over': over, 'text': qtext}, why_tests_cant=why, anchors=a))

H = 'emlearn/'
# ------------------------------------------------------------------ C library
prop('C01', 'The C library needs no heap and a stack whose size is fixed at compile time',
 'No function of the C library allocates or frees dynamic memory, directly or through anything it calls. '
 'No function is (mutually) recursive and no function has a local array or stack allocation whose size depends on a runtime value.',
 ['inputs', 'configurations'], 'every function defined by the C headers, every call path, default and debugging/logging configurations',
 'Tests observe results, not where memory comes from; one allocation on a rarely taken path is invisible on a host with gigabytes of heap.',
 [H+'eml_*.h'], [('header-only C code with caller-provided buffers and fixed-size scratch arrays', H+'eml_trees.h, '+H+'eml_bayes.h, '+H+'eml_neighbors.h')])
prop('C02', 'The C library keeps no hidden mutable state between calls',
 'No function of the C library writes to a global variable or a function-level static variable, so everything a call changes is memory handed to it by its caller. '
 'Two models, two threads or an interrupt handler can therefore use the library without seeing one another.',
 ['schedules', 'histories'], 'all interleavings and call histories of all library functions',
 'Tests run one model at a time on one thread; a shared scratch variable gives right answers until two calls overlap.',
 [H+'eml_*.h'], [('all scratch memory is a local variable or a parameter', H+'eml_neighbors.h eml_neighbors_find_nearest, '+H+'eml_net.h EmlNet buffers')])
prop('C03', 'Inference never modifies the model or the input values',
 'Running inference or filtering writes only to the output locations, the scratch/state buffers and the in-place data buffers that the function is documented to use. '
 'Model parameters (nodes, leaves, weights, training items, coefficient tables, model header fields) and input feature arrays are never written; only adding a training item changes a model.',
 ['inputs', 'histories'], 'every inference entry point, all inputs and all paths including error paths',
 'Tests check outputs of a handful of calls; a stray write to the model shows up only on a later call, or as a fault when the model lies in flash.',
 [H+'eml_trees.h', H+'eml_net.h', H+'eml_bayes.h', H+'eml_distance.h', H+'eml_mixture.h', H+'eml_neighbors.h', H+'eml_iir.h', H+'eml_fft.h', H+'eml_audio.h', H+'eml_quantizer.h', H+'eml_array.h', H+'eml_vector.h'],
 [('const-qualified parameters and separate output/scratch buffers', 'all eml_*.h entry points')])
prop('C04', 'The C library is silent and never ends the process in its default configuration',
 'With logging and debugging left off, no library function writes to standard output or standard error, reads the environment, or ends the process. '
 'Input and output happen only through callbacks or file handles the caller supplies; a problem is reported only through the return value.',
 ['inputs', 'configurations'], 'all functions of the C headers apart from the host-side test helper, default configuration, all paths',
 'On a host stray output is just noise; on a device it drags in stdio or corrupts a serial protocol, and it sits on malformed-input paths tests rarely take.',
 [H+'eml_*.h'], [('logging macros that expand to nothing unless enabled', H+'eml_log.h'), ('debug reporting compiled only when enabled', H+'eml_common.h')])
prop('C05', 'Model inference stays inside the buffers it was given',
 'For every well-formed model and every combination of buffer lengths passed by the caller, inference with trees, neural networks, naive Bayes, elliptic envelope, Gaussian mixtures and nearest neighbours reads and writes only inside the model arrays and the buffers passed in. '
 'Class counts, feature counts or layer sizes beyond a fixed internal buffer are refused instead of overflowing it.',
 ['inputs', 'configurations'], 'all model sizes, all length arguments (including wrong ones), all feature values',
 'The tests run matching sizes only; an out-of-bounds access needs an unusual size combination and usually does not crash on a host.',
 [H+'eml_trees.h', H+'eml_net.h', H+'eml_bayes.h', H+'eml_distance.h', H+'eml_mixture.h', H+'eml_neighbors.h'],
 [('length preconditions before the loops', 'EML_PRECONDITION at the start of every entry point')])
prop('C06', 'Signal processing and container code stays inside its buffers',
 'For every input and every combination of lengths, the filters, windows, spectrogram and mel computations, quantizer, vectors, two-dimensional arrays and CSV reading/writing access only memory inside the buffers and declared lengths they were given.',
 ['inputs', 'configurations'], 'all lengths, shapes, row/column indices, stream contents and read results',
 'Tests use a few matching sizes; CSV lines longer than the buffer, failing reads or band edges at the top bin are not among them.',
 [H+'eml_audio.h', H+'eml_vector.h', H+'eml_iir.h', H+'eml_array.h', H+'eml_quantizer.h', H+'eml_csv.h'],
 [('size preconditions and index checks', 'EML_PRECONDITION, eml_array_data_2d, eml_iir_check')])
prop('C07', 'Every C library call finishes: loops are bounded by sizes, not by data values',
 'Every loop in the C library is controlled by a counter that moves monotonically towards a bound that does not change during the loop, so the number of iterations is bounded by buffer or model sizes. '
 'No feature value, label or distance can make a call run forever.',
 ['inputs'], 'all feature values and all well-formed models',
 'A value that makes a loop spin (for instance a shift that overflows to zero) lies at the extreme of the value range, which samples miss; a hang is also not an assertion failure.',
 [H+'eml_*.h'], [('counted for-loops', 'all eml_*.h'), ('integer square root and logarithm loops with shifting bounds', H+'eml_neighbors.h, '+H+'eml_bayes.h')])
prop('C08', 'A failed step is never reported as success by the C library',
 'Whenever a C library function calls another library function or a caller-supplied I/O callback that reports failure, the failure is either returned to the caller as an error or handled before anything is reported as successful. '
 'No path leads from a failing call to a success return value.',
 ['fault_sequences', 'inputs'], 'every call site of an error-returning function or callback, every path after it',
 'Tests run the success paths; the failing callee (unsupported activation, short write, failed seek) is practically never exercised.',
 [H+'eml_*.h'], [('EML_CHECK_ERROR and explicit checks after each call', 'eml_net.h, eml_audio.h, eml_neighbors.h, eml_csv.h')])
prop('C09', 'Input and output buffers of the wrong length are refused',
 'Every C inference, filterbank, quantization and row-copy function that is told the length of its input or output buffer succeeds only if that length fits the model or the other buffer as documented (equal to the number of features or outputs; at least as large for scratch space). '
 'A wrong length always yields an error result, never a prediction.',
 ['inputs'], 'all length arguments and all models, every path to a success result',
 'Tests pass matching lengths; a check that disappears or is loosened from equality to an inequality changes nothing they can see.',
 [H+'eml_trees.h', H+'eml_net.h', H+'eml_bayes.h', H+'eml_distance.h', H+'eml_mixture.h', H+'eml_neighbors.h', H+'eml_quantizer.h', H+'eml_array.h', H+'eml_audio.h', H+'eml_csv.h', H+'eml_fft.h', H+'eml_iir.h'],
 [('EML_PRECONDITION on lengths', 'entry points of each header')])
prop('C10', 'Error results of the C library cannot be mistaken for predictions or counts',
 'A C function whose integer result is a class, an inlier/outlier decision or a count reports errors only as negative values, and a function whose result is a status reports errors only as nonzero values. '
 'Single-value regression reports failure as NaN.',
 ['inputs', 'configurations'], 'every return statement of every integer-valued library function',
 'The error paths are not exercised by tests; a missing minus sign turns "size mismatch" into "class 1".',
 [H+'eml_trees.h', H+'eml_net.h', H+'eml_bayes.h', H+'eml_distance.h', H+'eml_mixture.h', H+'eml_csv.h', H+'eml_neighbors.h'],
 [('negated error codes in EML_PRECONDITION', 'eml_bayes_predict, eml_mixture_score'), ('NAN on failure', 'eml_net_regress1, eml_trees_regress1')])
prop('C11', 'Codes, names and lookup tables agree between the C library and the converter',
 'Every error code has the description of that error, every activation function has the same name and position in the C enumeration, the C name table and the list accepted by the Python converter, and every activation or covariance structure the converter can emit exists in C and is implemented there or refused. '
 'Adding, removing or reordering an entry on one side without the other is a violation.',
 ['configurations'], 'all enumerators and all table entries',
 'Tests touch two or three of the activations and never read the description tables.',
 [H+'eml_common.h', H+'eml_net_common.h', H+'eml_net.h', H+'eml_trees.h', H+'eml_mixture.h', H+'net.py', H+'mixture.py'],
 [('parallel enum and string tables', 'EmlError/eml_error_strs, EmlNetActivationFunction/eml_net_activation_function_strs, ACTIVATION_FUNCTIONS')])
prop('C12', 'Every header can be included alone, repeatedly, in any order, from C and C++',
 'Each C header compiles when it is the only emlearn header included, when it is included twice, and in any order together with the others, as C99 and as C++11. '
 'The same holds with logging and with debugging enabled.',
 ['programs', 'configurations'], 'all headers, all ordered pairs, both languages, default/debug/logging configurations',
 'The build and the tests include a few fixed combinations, mostly as C.',
 [H+'eml_*.h'], [('include guards, extern "C" blocks, explicit includes', 'all eml_*.h')])
prop('C13', 'Fixed-point constants, conversions and tables are the same on 16-bit-int targets',
 'The fixed-point format (one, conversion from integers and floats, multiplication, division), the error and activation codes and the field widths of the tree, naive Bayes, network, mixture, nearest-neighbour and quantizer model structures have the same values on targets whose int is 16 bits wide (such as AVR) as on 32-bit targets. '
 'No constant or shift in the library depends on int being wider than 16 bits.',
 ['configurations'], 'all supported integer widths of the target',
 'Tests run on a 64-bit host only.',
 [H+'eml_fixedpoint.h', H+'eml_bayes.h', H+'eml_net.h', H+'eml_trees.h', H+'eml_neighbors.h'],
 [('explicit-width integer types', 'eml_q16_t, int32_t/int16_t struct fields')])
prop('C14', 'Logging and debugging switches never change what the library computes',
 'Enabling logging, tracing or debug reporting adds diagnostic output only: results, error codes and memory effects stay identical to the default configuration. '
 'Everything passed to a log statement is free of side effects and matches its format.',
 ['configurations'], 'every log statement and every debug hook, all library functions',
 'Tests never enable logging, and would have to compare two builds on all inputs.',
 [H+'eml_log.h', H+'eml_common.h', H+'eml_trees.h', H+'eml_neighbors.h'],
 [('log macros expanding to nothing when disabled', H+'eml_log.h'), ('EML_DEBUG variants of the precondition macros', H+'eml_common.h')])
# ------------------------------------------------------------------ generated code
prop('G01', 'Generated model initialisers match the C structures they initialise',
 'In every model the converter generates, each field of a C model structure is initialised with the quantity that field means: counts with the matching count, pointers with the matching array, in the declared order and number, and each array is declared with the element type the field points to. '
 'A count always equals the length of the array it describes.',
 ['programs', 'configurations'], 'every generator and every configuration of it, all models',
 'A test with square sizes (classes == features, items == max items) cannot notice two swapped counts.',
 [H+'trees.py', H+'net.py', H+'bayes.py', H+'distance.py', H+'mixture.py', H+'neighbors.py', H+'eml_trees.h', H+'eml_net.h', H+'eml_bayes.h', H+'eml_distance.h', H+'eml_mixture.h', H+'eml_neighbors.h'],
 [('positional struct initialisers', 'forest_struct, init_net/init_layer, neighbors_model_init, cgen.struct_init')])
prop('G02', 'Generated code is valid C99 and valid C++ in every configuration',
 'For every model family, inference method, data type and option the converter accepts, the text it generates is a complete translation unit that compiles as C99 and as C++11 without errors, and every C function it calls exists in the C library with a matching signature.',
 ['programs', 'configurations'], 'every generator and every accepted configuration',
 'Tests compile a few configurations, as C only; Arduino users compile the same text as C++.',
 [H+'trees.py', H+'net.py', H+'bayes.py', H+'distance.py', H+'mixture.py', H+'neighbors.py', H+'templates/net_float.jinja', H+'templates/net_fixedpoint.jinja'],
 [('code templates', 'generate_c_*, c_generate_*, generate_code, jinja templates')])
prop('G03', 'Inline and loadable tree code take the same branch as scikit-learn',
 'At a decision node both inference methods go to the left child exactly when the feature value is less than or equal to the threshold of the trained tree, for floating-point and integer feature types and for non-integer thresholds. '
 'The decision is made on the node\'s own feature, and the left and right subtrees are never exchanged.',
 ['inputs', 'configurations'], 'all feature values including those equal or adjacent to a threshold, all thresholds, all feature types',
 'A value exactly on a (rounded) threshold has probability close to zero in randomly drawn test data.',
 [H+'trees.py', H+'eml_trees.h'], [('comparison in the tree walk', 'eml_trees_predict_tree'), ('nested if/else emitted for inline', 'generate_c_inlined'), ('threshold conversion', 'generate_c_nodes, cgen.constant')])
prop('G04', 'Models that do not fit the C data types are refused at conversion',
 'Converting or saving a model whose class count, feature count, node offsets, thresholds, items or labels exceed the range of the C field or fixed buffer that must hold them raises an exception. '
 'The converter never emits a value that the C type would wrap or truncate.',
 ['inputs', 'configurations'], 'all models, all sizes and all parameter values',
 'Test models are small; wrap-around needs more than 127 classes, 32767 nodes or thresholds beyond the 16-bit range.',
 [H+'trees.py', H+'neighbors.py', H+'bayes.py', H+'cgen.py', H+'eml_trees.h', H+'eml_neighbors.h', H+'eml_bayes.h'],
 [('range checks before emission', 'assert_valid_child, max_features check')])
prop('G05', 'Floating-point parameters reach the C code without loss of float precision',
 'Every floating-point model parameter (weights, means, precisions, thresholds, coefficients) is written to the generated code with enough digits to recover the same single-precision value, whatever its magnitude. '
 'In particular small parameters are not rounded to zero.',
 ['inputs'], 'all finite parameter values',
 'Test models have parameters of magnitude around one, where six decimals are nearly enough.',
 [H+'cgen.py', H+'bayes.py', H+'distance.py', H+'net.py', H+'mixture.py', H+'trees.py'],
 [('literal formatting', 'cgen.constant and the format strings of each generator')])
prop('G06', 'Only valid, non-reserved C identifiers become names in generated code',
 'Every name given by the user for a model or table is checked before any code using it is returned or written, and anything that is not a valid C identifier or is a reserved word of C raises an exception. '
 'The check accepts exactly the C identifiers: a letter or underscore followed by letters, digits or underscores, with nothing after it.',
 ['inputs'], 'all name strings and file names, every code-generating entry point',
 'Tests try a few bad names on some generators.',
 [H+'cgen.py', H+'creserved.py', H+'trees.py', H+'net.py', H+'bayes.py', H+'distance.py', H+'mixture.py', H+'neighbors.py', H+'signal.py', H+'tools/window_function.py', H+'tools/mel_filterbank.py'],
 [('identifier validation', 'cgen.assert_valid_identifier called by each generator')])
# ------------------------------------------------------------------ Python side
prop('P01', 'Unsupported models and options are refused, and the defaults always work',
 'Asking for a model class, inference method, data type, covariance type, activation, layer type, distance metric, output format or leaf size that is not implemented raises an exception on every path instead of silently producing something else. '
 'Leaving the inference method unspecified is accepted for every supported model class.',
 ['configurations'], 'all option values outside the supported sets, every model family',
 'The set of unsupported values is unbounded; tests sample a few.',
 [H+'convert.py', H+'trees.py', H+'net.py', H+'bayes.py', H+'distance.py', H+'mixture.py', H+'neighbors.py'],
 [('dispatch chains ending in raise', 'convert(), each Wrapper.__init__, save(), c_activation_function, convert_to_full, convert_keras')])
prop('P02', 'Conversion and prediction never modify the estimator or the caller\'s data',
 'Converting an estimator, saving it, predicting with the converted model and evaluating it leave the original estimator (all its fitted arrays) and the arrays or tables passed by the caller exactly as they were. ',
 ['histories', 'inputs'], 'all model families and options, all call sequences',
 'Tests convert a freshly fitted estimator and throw it away; in-place edits of shared arrays are noticed only when the estimator is used afterwards.',
 [H+'trees.py', H+'net.py', H+'bayes.py', H+'distance.py', H+'mixture.py', H+'neighbors.py', H+'signal.py', H+'evaluate/trees.py', H+'evaluate/pareto.py', H+'preprocessing/quantizer.py'],
 [('copies before in-place work', 'flatten_tree node lists, estimator.location_.copy(), df.copy()')])
prop('P03', 'Saving writes exactly the returned text and is reproducible',
 'When a file is given to save, the file receives exactly the text that save returns, and every save path returns that text. '
 'The text depends only on the model, the name and the options: not on time, randomness, object identity, environment, set ordering or earlier saves.',
 ['histories', 'configurations'], 'all model families, all sequences of save calls',
 'Two runs in the same process and environment look identical even when the text depends on hash order or on state left by an earlier call.',
 [H+'trees.py', H+'net.py', H+'bayes.py', H+'distance.py', H+'mixture.py', H+'neighbors.py'],
 [('save() methods', 'Wrapper.save in each family')])
prop('P04', 'Converted models never share files or executables',
 'Each converted model builds its sources, objects and executables in a location of its own, so converting, rebuilding or deleting one model can never change what another one predicts, in the same or another process. '
 'No location used for building is a fixed name shared between instances.',
 ['histories', 'schedules'], 'all sequences and interleavings of conversions and predictions',
 'Tests convert one model and use it at once; the second conversion that overwrites the first model is the case they miss.',
 [H+'common.py', H+'mixture.py', H+'trees.py', H+'net.py', H+'bayes.py', H+'distance.py', H+'neighbors.py'],
 [('build directory and executable path', 'common.build_classifier, common.CompiledClassifier')])
prop('P05', 'A failure inside the compiled model surfaces as a Python exception',
 'When the compiled C model reports an error, crashes, or is given rows with the wrong number of features, predicting from Python raises an exception. '
 'An error code is never returned as if it were a class, probability or regression value.',
 ['fault_sequences', 'inputs'], 'all error results of the C code, all input widths, every model family and prediction method',
 'Tests only predict with valid inputs.',
 [H+'common.py', H+'trees.py', H+'net.py', H+'neighbors.py', H+'bayes.py', H+'distance.py', H+'mixture.py'],
 [('C harness around the model and parsing of its output', 'common.build_classifier, common.run_classifier, CompiledClassifier.predict')])
prop('P06', 'Importing emlearn changes no process-wide state',
 'Importing any module of the package does not change global settings of the interpreter, numpy or other libraries, the environment, the working directory or the file system. '
 'Nothing but definitions and constants is evaluated at import time.',
 ['programs'], 'every module of the package and every program importing it',
 'Tests import the package first and then run with the changed settings, so they cannot see the difference.',
 [H+'*.py', H+'*/*.py'], [('module-level code', 'all modules')])
prop('P07', 'Inputs and outputs cross the Python/C boundary without losing precision',
 'The values sent to a compiled model are written with enough digits to recover the same single-precision numbers, and the numbers it prints back are printed with enough digits to recover its single-precision results.',
 ['inputs'], 'all finite feature values and all results, whatever their magnitude',
 'Test data has magnitudes near one; eight or six decimals are then enough.',
 [H+'common.py', H+'mixture.py'], [('CSV serialisation and printf formats', 'run_classifier.serialize_value, build_classifier, mixture.build_executable')])
prop('P08', 'Quantization saturates and never wraps around',
 'For every input value, the quantizers in Python and C limit the scaled value to the representable range of the integer output type before converting it, for signed and unsigned types. '
 'An out-of-range input therefore maps to the nearest end of the range, never to a value of the other sign.',
 ['inputs', 'configurations'], 'all input values and all output types',
 'Tests quantize data inside the learned range, with the default type.',
 [H+'preprocessing/quantizer.py', H+'eml_quantizer.h'], [('clipping before the type conversion', 'Quantizer.transform, eml_quantizer_check_forward_int16')])
prop('B01', 'Python bindings validate array shapes and turn C errors into exceptions',
 'Every function of the compiled Python extensions checks the number of dimensions, lengths and index contents of its arrays before handing raw pointers to the C code, and raises a Python exception when a check or a C call fails. '
 'No status returned by C is ignored.',
 ['inputs', 'fault_sequences'], 'all argument shapes and values, all functions of both extensions',
 'Tests call the bindings with well-shaped arrays only.',
 ['bindings/eml_audio.cpp', 'bindings/eml_signal.cpp', 'bindings/emlpy_common.hpp'],
 [('EMLPY_PRECONDITION, EMLPY_CHECK_ERROR and explicit throws', 'bindings/*.cpp')])
prop('S01', 'Sparse filterbanks are written and read with one layout',
 'The Python functions that build, reduce and serialise a sparse filterbank and the C function that applies it agree on the layout: band i covers every input index from its start to its end inclusive, and the coefficients of all bands are stored consecutively, one per covered index. '
 'A band with interior zeros keeps its zeros, and a band without any nonzero coefficient is representable.',
 ['inputs'], 'all filter matrices',
 'Triangular mel filters have no interior zeros and, with the tested sizes, no empty bands.',
 [H+'signal.py', H+'eml_audio.h', H+'tools/mel_filterbank.py'], [('start/end/coefficients triple', 'sparse_filterbank, sparse_filterbank_reduce, sparse_filterbank_serialize, eml_sparse_filterbank')])
prop('E01', 'Evaluation helpers describe the model and the data as they are',
 'count_trees, tree_depth_average, tree_depth_difference and compute_cost_estimate give the number of trees, the mean and the range of the depths of all trees, and the sum over all trees of the mean number of nodes visited per row. '
 'model_size_nodes and model_size_leaves are the lengths of the node and leaf tables of the converted model; model_size_bytes is nodes*node_size plus the leaf table as it is stored (or leaves*leaf_size when given), with the size of the C structure EmlTreesNode as default. '
 'The program size counts .text, .data and .rodata as flash and .data and .bss as RAM. find_pareto_front returns rows of the given table with all their values unchanged, leaves the caller\'s table alone, and keeps exactly rows that are not dominated (lower cost, better performance in the direction asked for) and reach min_performance.',
 ['inputs', 'configurations'], 'all tree models, leaf encodings, datasets and result tables',
 'Tests only check that the helpers can be used as scorers; size depends on encodings and on the number of classes, selection on the names and contents of the columns.',
 [H+'evaluate/trees.py', H+'evaluate/pareto.py', H+'evaluate/size.py'], [('measures of trees', 'count_trees, tree_depth_average, compute_cost_estimate, model_size_bytes'), ('Pareto front', 'find_pareto_front, is_pareto_efficient_simple'), ('sections', 'run_binutils_size')])
prop('T01', 'Command line tools generate the table that was asked for',
 'Every option of eml-window-function and eml-mel-filterbank reaches the parameter it stands for: the kind, length and symmetry of the window, the number of bands, FFT length, sample rate, frequency range, scale and normalization of the mel filters and of the generated frequencies and constants. '
 'No option is without effect and yes/no options can be given as no. The values of the table are those of the window or filters computed, the declared names start with the name given, the output replaces the file asked for (default NAME.h), and wrapping lines never breaks a number, a name or a comment of the C text.',
 ['inputs', 'configurations'], 'all combinations of options and their values',
 'Tests generate one hann window; the mel tool is not tested at all.',
 [H+'tools/window_function.py', H+'tools/mel_filterbank.py', H+'cgen.py'], [('options to parameters', 'parse, main, window_function, mel_filterbank'), ('line wrapping', 'textwrap.wrap calls')])
prop('I01', 'Installing the library yields a complete copy and touches nothing else',
 'Installing emlearn as an Arduino library copies every header of the library (eml_*.h), so every header that an installed header or generated C code includes is there, each under its own name in the folder emlearn of the library directory that was given. '
 'Nothing outside that folder is written and nothing is removed. An existing installation is refused unless an update was asked for; with an update every file is replaced, unconditionally. The command line options reach these parameters. '
 'The Python package itself contains every header, template, Makefile and module that its code needs.',
 ['inputs', 'configurations', 'states of the file system'], 'all directories, all states of the destination, with and without update',
 'The test installs once into an empty folder and looks at a few files.',
 [H+'arduino/install.py', 'MANIFEST.in', 'setup.py'], [('installation', 'install_arduino_library'), ('command', 'main'), ('package', 'MANIFEST.in')])
# ------------------------------------------------------------------ not decided statically
prop('N01', 'Converted models predict what the trained model predicts',
 'For every supported model and every input, the converted model\'s predictions, probabilities, scores and regression values equal those of the original estimator up to the documented quantization error.',
 ['inputs', 'programs'], 'all models and inputs',
 'Equality of two numerical programs over all inputs; tests compare a few datasets.',
 [H+'convert.py', H+'eml_*.h'], [('numerical inference code', 'all families')])
prop('N02', 'Signal processing results match the reference definitions',
 'FFT, IIR filtering, window functions and mel spectrograms agree with their mathematical definitions within float rounding for every length, coefficient set and signal.',
 ['inputs'], 'all signals and parameters',
 'Numerical agreement over all inputs.',
 [H+'eml_fft.h', H+'eml_iir.h', H+'eml_audio.h', H+'tools/window_function.py'], [('numerical code', 'headers')])
prop('N03', 'Fixed-point naive Bayes scores never overflow their format',
 'For every model and every input within the documented range, the fixed-point log-probabilities stay within the 32-bit format at every intermediate step.',
 ['inputs'], 'all models and inputs',
 'Value ranges of products of trained parameters and inputs.',
 [H+'eml_bayes.h', H+'eml_fixedpoint.h'], [('Q16 arithmetic', 'eml_bayes_logpdf')])
prop('N04', 'Size and cost estimates reflect the deployed model',
 'The reported model size in bytes and the compute-cost estimate equal the memory and the number of node evaluations of the deployed model.',
 ['inputs', 'configurations'], 'all models, options and datasets',
 'Measured quantities of built programs.',
 [H+'evaluate/trees.py', H+'evaluate/size.py'], [('size formulas and binutils parsing', 'model_size_bytes, get_program_size')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
