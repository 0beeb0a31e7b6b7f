"""C03: what inference, filtering and transformation functions may write, decided on interprocedural write summaries."""
import re
import clib, effects
from report import Report, Lost

# public function -> allowed write targets: 'K' = the memory parameter K points to (any element),
# 'K.field' = the memory the pointer field of parameter K points to, 'K!field' = the field itself
ALLOWED = {
    'eml_trees_predict': [], 'eml_trees_predict_proba': ['3'], 'eml_trees_regress': ['3'], 'eml_trees_regress1': [],
    'eml_net_predict': ['0.activations1', '0.activations2'], 'eml_net_predict_proba': ['0.activations1', '0.activations2', '3'],
    'eml_net_regress': ['0.activations1', '0.activations2', '3'], 'eml_net_regress1': ['0.activations1', '0.activations2'],
    'eml_net_forward': ['5'], 'eml_net_forward_q16': ['5'], 'eml_net_argmax': [], 'eml_argmax_fixed32': [], 'eml_net_softmax': ['0'],
    'eml_bayes_predict': [],
    'eml_elliptic_envelope_predict': ['3'], 'eml_mahalanobis_distance_squared': [],
    'eml_mixture_predict_log_proba': ['3'], 'eml_mixture_score': ['3', '4'], 'eml_mixture_predict_proba': ['3', '4', '5'],
    'eml_mixture_precisions_length': [], 'eml_dot_product': [], 'eml_minmax': ['2', '3'], 'eml_logsumexp': ['2'],
    'eml_neighbors_add_item': ['0!n_items', '0.data', '0.labels'], 'eml_neighbors_infer': ['3'], 'eml_neighbors_find_nearest': ['1', '4'],
    'eml_neighbors_predict': ['3', '5'], 'eml_distance_euclidean_int16': [], 'eml_neighbors_sort_distances': ['0'],
    'eml_quantizer_forward_int16': ['3'], 'eml_quantizer_check_forward_int16': ['3', '5', '6'], 'eml_quantizer_inverse_int16': ['3'],
    'eml_iir_filter': ['0.states'], 'eml_iir_check': [],
    'eml_fft_fill': ['0.sin', '0.cos'], 'eml_fft_forward': ['1', '2'],
    'eml_audio_power_spectrogram': ['1.data'], 'eml_audio_melspec': ['2.data'], 'eml_audio_melspectrogram': ['2.data', '3.data'],
    'eml_sparse_filterbank': ['1'],
    'eml_vector_set': ['0.data'], 'eml_vector_set_value': ['0.data'], 'eml_signal_mean': [], 'eml_signal_hann_apply': ['0'],
    'eml_array_copy_rows': ['0.data'], 'eml_array_fill': ['0.data'], 'eml_array_shift_rows': ['0.data'], 'eml_array_sum': ['1'],
    'eml_csv_writer_write_header': ['0!n_columns', '0.stream'], 'eml_csv_writer_write_data': ['0.stream'],
}

def describe(mod, types, b):
    root, path, off = b
    if root[0] not in ('param', 'byval'):
        return None
    k = root[1]
    t = types[k + 1] if k + 1 < len(types) else ''
    base = re.sub(r'^[*]+|const ', '', t.replace('*', ''))
    mem = clib.members(mod, base)
    if not path:
        if not mem:
            return '%d' % k
        if t.startswith('*'):
            return '%d!%s' % (k, mem.get(off, '?')) if off is not None else '%d' % k if not t else '%d!?' % k
        return None
    f = mem.get(path[0], '?') if mem else ('*' if path[0] is None or path[0] == 0 else '?')
    return '%d.%s' % (k, f) + '.*' * (len(path) - 1)

def run():
    r = Report('C03', 'interprocedural write summaries (which parameter, through which struct field) of every inference, filtering and '
               'transformation function are contained in the set of output, scratch and state locations documented for it; no function of the '
               'library writes through a pointer-to-const parameter',
               ['parameters and pointer fields do not alias one another', 'I/O callbacks write only to the context and buffer they are handed'])
    for cfg, lang in (('default', 'c'), ('log', 'c')):
        mod = clib.module(cfg, lang=lang, passes='function(sroa)')
        eff = effects.Effects(mod)
        own = dict((f.name, (b, f)) for b, f in clib.own(mod))
        for name in ALLOWED:
            if name not in own:
                raise Lost('function %s vanished' % name)
        for name, (base, f) in own.items():
            types = mod.fn_types(f)
            r.ob('function summarised', '%s:%s' % (base, name), subject=name)
            for b, w in eff.sum[name].items():
                root, path, off = b
                if root[0] == 'unknown':
                    if name in ALLOWED:
                        r.violate('unknown:%s' % name, '%s writes through a pointer the analysis cannot attribute' % name, clib.where(mod, w, f))
                    continue
                if root[0] != 'param':
                    continue
                r.ob('write target')
                t = types[root[1] + 1] if root[1] + 1 < len(types) else ''
                d = describe(mod, types, b)
                pname = f.params[0][0]
                if not path and t.startswith('*const ') and not callback(w):
                    r.violate('const:%s:%d' % (name, root[1]), '%s writes through its pointer-to-const parameter %d (%s)' % (name, root[1], t), clib.where(mod, w, f))
                if name in ALLOWED and d is not None:
                    ok = d in ALLOWED[name]
                    if not ok and not path:
                        # parameter is a struct array (e.g. distance items): every field of an allowed output is output
                        ok = str(root[1]) in ALLOWED[name]
                    if not ok and callback(w) and not path:
                        ok = t.startswith('*const ') or t.startswith('**const')   # read-only data handed to a write callback
                    if not ok and callback(w) and t.startswith('**const'):
                        ok = True
                    if not ok:
                        r.violate('write:%s:%s' % (name, d), '%s writes %s, which is not one of its outputs or scratch buffers %s' %
                                  (name, pretty(d, f), ALLOWED[name]), clib.where(mod, w, f))
    r.floor('function summarised', 180)
    r.floor('write target', 120)
    return r.finish()

def callback(w):
    return w.op == 'call' and w.callee is None

def pretty(d, f):
    k = re.match(r'\d+', d).group(0)
    return 'parameter ' + d
