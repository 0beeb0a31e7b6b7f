IR = 'LLVM IR of the headers in the working tree (clang-18, debug info), nothing is executed'
T['C01'] = ('call-graph and allocation analysis on LLVM IR', 'Exhaustive over every function the headers define, in the default, logging and debug configurations: the call graph (indirect calls resolved by struct field/signature) is acyclic, no external call allocates (libc effect table), every alloca has constant size. Trusts the libc table (which library functions allocate) and that caller callbacks are the caller\'s.')
T['C02'] = ('interprocedural write-effect analysis on LLVM IR', 'Exhaustive over all store instructions and summarised callees: no write reaches a global or static object. Trusts the libc effect table.')
T['C03'] = ('interprocedural write-effect (mod) analysis on LLVM IR against a table of documented outputs', 'Field-sensitive write sets of every public function are compared with the documented output parameters/state fields. Trusts the table (reviewed against the headers\' documentation).')
T['C04'] = ('who-may-call analysis on LLVM IR', 'Exhaustive over call sites of the default configuration: stdio, environment and process-ending functions are unreachable except on caller-supplied handles. Trusts the libc effect table.')
T['C11'] = ('cross-table agreement: enumerations and string tables of the compiled library, inference functions specialised by constant propagation, and the code the converter emits under abstract interpretation', 'Every enumerator and table entry; every activation and covariance name of scikit-learn and Keras. Texts are matched to codes by shared words, so a text that shares no word with its code and none with another is accepted.')
T['C12'] = ('compile-time witnesses (type checker as the decision procedure)', 'Every header alone, twice, in pairs and in orders, as C99 and C++11 (and gnu variants), in the default/log/debug configurations, is accepted by clang. Bound: orders are all ordered pairs (thorough) plus forward/reverse/rotations.')
T['C13'] = ('differential constant folding and type layout for AVR (16-bit int) against the host target, plus width lints on IR', 'All object-like numeric macros, enumerators, model field widths, 32-bit operations and narrowings of the fixed-point code are compared between clang targets avr and host. AVR libc is represented by stub headers (declarations only).')
T['C14'] = ('IR equality after erasing log calls', 'Every function of the log/debug/trace configurations is structurally equal to its default counterpart once log calls and code only feeding them are erased; formats are decided by the compiler\'s format checker.')
NA = {
 'N01': 'equality of numerical predictions quantifies over trained models and inputs; no sound static argument in reach bounds it (structural clauses are claimed as G01, G03, G05, P05, P07, C05)',
 'N02': 'numerical agreement with mathematical definitions (FFT, filters, mel) is a statement about runtime float values; only memory safety, termination and layout are statically decidable (C06, C07, S01)',
 'N03': 'overflow of the fixed-point scores depends on means, deviations and inputs at run time; an interval argument over the 32-bit format fails for legal models, so the clause is not statically decidable here',
 'N04': 'compares an estimate computed from a trained model with compiler output and dynamic node counts; both sides exist only at run time',
}
T['P01'] = ('abstract interpretation of the conversion code with unsupported option values', 'Every option of every model class is tried with a value distinct from every constant in the program, plus each documented value of another family; models are otherwise unknown. The obligation is that no path returns. Trusts summaries of numpy/jinja2/sklearn calls and the documented table of supported combinations.')
T['P06'] = ('import-time effect analysis by abstract interpretation of the module bodies', 'Exhaustive over the statements reachable from the top level of every Python module of the package, functions called there included. Trusts a table of external functions that change process-wide state.')
T['C08'] = ('path-sensitive failure propagation (constant/interval dataflow) on LLVM IR', 'For every call site of a fallible library function or I/O callback and every error value, all paths of the caller are followed with the failure assumed; branches the failure does not decide are explored on both sides. Every return reached must report an error. Trusts the documented callback contract; memory is tracked only through exact addresses.')
T['C10'] = ('error-code sign analysis on the clang AST plus failure propagation on LLVM IR', 'Every return of every class/decision/count function: an error enumerator reaches it only negated; on every path after a failing call the result is negative (NaN for float regression). Trusts the table of such functions (from their documentation).')
T['P03'] = ('abstract interpretation of save: term comparison of written and returned text, dependence analysis of the text', 'Every supported family, method and option set; the text is a term over unknown models, so the verdict covers all models of the family. Third-party calls are functions of their arguments unless in a table of varying functions.')
T['P02'] = ('alias-aware effect analysis by abstract interpretation (terms over the caller\'s objects)', 'Every in-place operation on every path of convert, save, every public method of every converted family, and of the evaluation, signal, fixed-point, code generation and quantizer functions. Trusts tables of third-party functions that mutate an argument or return a view of it.')
T['P04'] = ('path-provenance analysis by abstract interpretation of two conversions in one process', 'Every path written, compiled, linked, run or removed on every path of convert and of every public method, for every family and method, with two models alive. Trusts that tempfile and uuid hand out fresh names; does not model the C compiler\'s own temporary files.')
T['G02'] = ('type checking of the generated code by a C99 and a C++11 front end, over instantiations of the text terms', 'The text of every accepted family, method and option is obtained for unknown models; dimensions 1 to 3 and each alternative of every choice are type checked. Value ranges are left to G04. Trusts clang as judge; small dimensions stand for all.')
T['G01'] = ('abstract interpretation of the generator plus parsing of instantiated text: each structure field compared with the quantity it means', 'Every field of every model structure in the text of each accepted configuration, and every layer call of inline networks, for model dimensions set to distinct primes in two orders; counts are polynomials of the dimensions, so agreement on distinct primes is strong but not a proof for all sizes; order inside multi-dimensional arrays is checked only for transposes and loop nesting.')
T['G03'] = ('abstract interpretation of the generator, syntax tree of the instantiated text and LLVM IR of the tree walk', 'Every decision in the generated functions for every feature type and every column of the node tables is traced to the parameters of the trained tree (children, feature, threshold); every comparison of a feature with a node in eml_trees.h is decided on IR. The threshold conversion is recognised by the operations between the trained threshold and the text (rounding down; single precision with a guarded step down).')
T['G05'] = ('abstract interpretation of the generator: operations and formats between parameter and text', 'Every hole of the text of every family, method and option that is computed from a floating-point parameter: lossy operations (rounding, integer or half precision conversion, printing of arrays) and formats with fewer than nine significant digits are reported. Quantization the user selects is excluded by table.')
T['P07'] = ('abstract interpretation of the wrappers (terms of standard input, arguments and results) and syntax tree of the generated programs', 'Every process started by every public method of every accepted family and method, for unknown models and data; the sources of each program are instantiated and parsed. Trusts that str() of a number reads back, and that the test header reads what strtod reads.')
T['P05'] = ('abstract interpretation of the wrappers (exit status, handlers, path facts) plus failure propagation on the LLVM IR of the generated programs', 'Every process of every public method; every failing library call of every instantiated program followed on all paths with the failure assumed. Trusts the row reader of the test header; results of processes are compared by the facts on the path.')
T['P08'] = ('interval analysis of the conversion operand: term intervals (Python) and dominating-comparison intervals on LLVM IR (C)', 'Every integer dtype with every kind of out_max and max_value; every float-to-integer conversion in eml_quantizer.h. Bounds are rounded to the floating-point type they are compared in. NaN inputs are outside the property.')
T['G06'] = ('path facts about an unknown name, turned into automata and compared with the language of C identifiers', 'All families, methods and options of save, and the table generators; characters are represented by a finite alphabet (ASCII plus representatives of the non-ASCII classes of str predicates). Checks written as loops over characters are evaluated over a list of probe words only.')
_B = 'relational bounds analysis on inlined LLVM IR: linear inequalities (Fourier-Motzkin) from branch conditions, inductive loop inequalities (Houdini) and contracts'
T['C05'] = (_B, 'Every load, store and block operation of every inference function, in every inlined context, for all models and lengths that satisfy the contract (documented pointer lengths, well-formed model arrays). Trusted: the contract table, no overlap of buffers, the interior of the sort macro (its range is checked).')
T['C06'] = (_B, 'Every load, store and block operation of filters, windows, mel code, quantizer, vectors, arrays and CSV, for all lengths that satisfy the contract. Not decided: the butterfly and permutation indices of eml_fft_forward and the coefficient index of eml_sparse_filterbank.')
T['C07'] = ('ranking expressions found from loop tests and inductive inequalities on LLVM IR, plus acyclic call graph', 'Every loop of every library function, in every context it is inlined into: a linear integer expression over loop-invariant bounds that decreases and is bounded below. Trusted: the sort macro, standard library calls, no integer overflow (C13/C08).')
T['C09'] = (_B + ', asked at every successful return', 'Every return that may mean success of 34 functions with lengths implies the documented relations, for all lengths and models. Trusts the table of relations.')
T['B01'] = (_B + ' of the bindings compiled against sized stand-ins, plus failure propagation', 'All exported functions of both extensions, for arrays of any number of dimensions, any lengths below 2^27 and any integers; the C code they call is inlined. Trusts the stand-ins for pybind11 (shape(k) raises, forced c_style arrays are contiguous).')
T['S01'] = ('abstract interpretation with a generic band (index polynomials and recurrences of loop variables), the same recurrences on LLVM IR', 'sparse_filterbank, sparse_filterbank_reduce, sparse_filterbank_serialize for every filter matrix, and eml_sparse_filterbank for every triple, agree with one layout (band i covers start..end inclusive, coefficients consecutive). Trusts the meaning of numpy.nonzero and slices; rounding is excluded.')
T['I01'] = ('effect analysis: abstract interpretation of the installation with unknown directories; the paths, conditions and file patterns of its effects against the include closure of the headers and templates', 'All destinations and states of the destination, update or not; every header of the library, every include of headers and generators, every file and import of the package')
T['T01'] = ('abstract interpretation of main() with an argument parser whose options are unknown values; dataflow from every option to parameters, constants, file name and line width', 'Both tools, every combination of the options that select a form, all values of the others')
T['E01'] = ('abstract interpretation of the evaluation helpers; normal form of the resulting terms; direction (sign) analysis of table columns; compile-fail witness for the node size', 'Every measure of tree models (5 kinds and sizes of ensembles), sizes for every leaf encoding, the four forms of Pareto selection and the sections of a program')
T['G04'] = ('abstract interpretation of the converters (comparisons on the path of every number of the text) and the C types each literal is converted to (clang syntax tree of the instantiated text)', 'Every number that depends on the model, in the text of every family, method and option: the guards on the path bound it to the range of each narrower integer type it is converted to (casts, fields, scaled fixed point), floats are known to be finite, counts and labels are within the fixed buffers of the library, and no numpy conversion wraps it before. Assumes fitted trees refer to existing features and that counts of things in memory fit 32 bits. The CSV format, which no C code of the library reads, is not covered.')
