"""How many elements the pointers that a function of the C library is given point to, by what its documentation promises.

`a[i]` is the value of argument i, `s(i)[field]` a field of the structure that argument i is or points to.
"""
from lin import lift, atom
from bounds import Facts

ONE = lambda a, s: 1


def n(i):
    return lambda a, s: a[i]


INFER = {
    'eml_trees_predict': {1: n(2)},
    'eml_trees_predict_proba': {1: n(2), 3: n(4)},
    'eml_trees_regress': {1: n(2), 3: n(4)},
    'eml_trees_regress1': {1: n(2)},
    'eml_net_predict': {1: n(2)},
    'eml_net_infer': {1: n(2)},
    'eml_net_predict_proba': {1: n(2), 3: n(4)},
    'eml_net_regress': {1: n(2), 3: n(4)},
    'eml_net_regress1': {1: n(2)},
    'eml_bayes_predict': {1: n(2)},
    'eml_elliptic_envelope_predict': {1: n(2), 3: ONE},
    'eml_mixture_precisions_length': {},
    'eml_mixture_predict_log_proba': {1: n(2), 3: lambda a, s: s(0)['n_components']},
    'eml_mixture_score': {1: n(2), 3: lambda a, s: s(0)['n_components'], 4: ONE},
    'eml_mixture_predict_proba': {1: n(2), 3: lambda a, s: s(0)['n_components'], 4: ONE, 5: lambda a, s: s(0)['n_components']},
    'eml_neighbors_check': {},
    'eml_neighbors_add_item': {1: n(2)},
    'eml_neighbors_infer': {1: n(2), 3: n(4)},
    'eml_neighbors_predict': {1: n(2), 3: n(4), 5: ONE},
}
# helpers that are public but work on parts of a model
PARTS = {
    'eml_net_argmax': {0: n(1)},
    'eml_net_layer_forward': {1: n(2), 3: n(4)},
    'eml_neighbors_find_nearest': {1: n(2), 4: ONE},
    'eml_mahalanobis_distance_squared': {0: n(3), 1: n(3), 2: lambda a, s: a[3] * a[3]},
    'eml_distance_euclidean_int16': {0: n(2), 1: n(2)},
    'eml_logsumexp': {0: n(1), 2: ONE},
    'eml_minmax': {0: n(1), 2: ONE, 3: ONE},
    'eml_dot_product': {0: n(2), 1: n(2)},
    'eml_argmax_fixed32': {0: n(1)},
    'eml_net_forward': {0: n(1), 2: lambda a, s: a[1] * a[6], 3: n(6), 5: n(6)},
    'eml_net_forward_q16': {0: n(1), 2: lambda a, s: a[1] * a[6], 3: n(6), 5: n(6)},
}
SIGNAL = {
    'eml_vector_set': {},
    'eml_vector_set_value': {},
    'eml_vector_view': {},
    'eml_signal_hann_apply': {0: n(1)},
    'eml_signal_mean': {0: n(1)},
    'eml_fft_fill': {},
    'eml_iir_check': {},
    'eml_iir_filter': {},
    'eml_audio_power_spectrogram': {},
    'eml_audio_melspec': {},
    'eml_audio_melspectrogram': {},
    'eml_quantizer_check_forward_int16': {1: n(2), 3: n(4), 5: ONE, 6: ONE},
    'eml_quantizer_forward_int16': {1: n(2), 3: n(4)},
    'eml_quantizer_inverse_int16': {1: n(2), 3: n(4)},
    'eml_array_init_full': {2: n(1), 4: n(5)},
    'eml_array_storage_size': {},
    'eml_array_data_2d': {},
    'eml_array_fill': {},
    'eml_array_sum': {1: ONE},
    'eml_array_append': {},
    'eml_array_shift_rows': {},
    'eml_array_copy_rows': {},
    'eml_storage_size_array': {1: n(0)},
    'eml_csv_writer_write_header': {1: n(2)},
    'eml_csv_writer_write_data': {1: n(2)},
    'eml_csv_reader_read_header': {1: n(2), 3: n(4)},
    'eml_csv_reader_read_data': {1: n(2), 3: n(4)},
    'eml_benchmark_fill': {0: n(1)},
    'eml_sparse_filterbank': {0: lambda a, s: atom(('input_length',)), 1: n(2), 3: n(2), 4: n(2), 5: None},
    'eml_fft_forward': {1: n(3), 2: n(3)},
}


def indices(count):
    """the first `count` distances carry the number of an item"""
    def c(a, s, x, off, w):
        if w != 16 or off.t.get((), 0) % 8:
            return []
        return [Facts(alt=[[Facts([off - lift(count(a, s)) * 8]), Facts([x, s(0)['n_items'] - x - 1])]])]
    return c


PRE = {
    'eml_net_forward': {'facts': lambda a, s: [a[1], a[6]]},
    'eml_iir_filter': {'facts': lambda a, s: [s(0)['n_stages'] - 1, s(0)['states_length'] - s(0)['n_stages'] * 4, s(0)['coefficients_length'] - s(0)['n_stages'] * 6]},
    'eml_neighbors_find_nearest': {'content': {1: indices(lambda a, s: a[2])}},
    'eml_neighbors_predict': {'content': {3: indices(lambda a, s: s(0)['n_items'])}},
    'eml_sparse_filterbank': {'content': {3: lambda a, s, x, off, w: [x], 4: lambda a, s, x, off, w: [atom(('input_length',)) - x - 1]}},
}

TABLES = {'infer': {**INFER, **PARTS}, 'signal': SIGNAL}


def field(e, i, name):
    return e.c.structof(e, i)[name]


# how many distances hold something when the sort starts, and which function fills them
FILLED = {'eml_neighbors_find_nearest': lambda e: e.c.argform(e, 2), 'eml_neighbors_predict': lambda e: field(e, 0, 'n_items')}
FILLS = {'eml_neighbors_infer': (3, lambda e: field(e, 0, 'n_items')), 'eml_neighbors_predict': (3, lambda e: field(e, 0, 'n_items'))}


def arg(i):
    return lambda e: e.c.argform(e, i)


def fld(i, name):
    return lambda e: field(e, i, name)


def equal(x, y):
    return lambda e: [lift(x(e)) - lift(y(e)), lift(y(e)) - lift(x(e))]


def atleast(x, y):
    return lambda e: [lift(x(e)) - lift(y(e))]


def num(k):
    return lambda e: k


def layer(which, i, name):
    def f(e):
        import guards
        return getattr(guards, which)(e, i, name)
    return f


def mul(x, y):
    return lambda e: lift(x(e)) * lift(y(e))


def add(x, y):
    return lambda e: lift(x(e)) + lift(y(e))


def neg(x):
    return lambda e: -lift(x(e))


def half(x):
    """x / 2 of a number that is not negative, as the form a division by two has"""
    def f(e):
        a = ('half', repr(x(e)))
        h = atom(a)
        e.always.setdefault(a, [lift(x(e)) - h * 2, h * 2 + 1 - lift(x(e))])
        return h
    return f


def positive(x, cond):
    """the condition is only asked when x is not negative"""
    return lambda e: [[(Facts([lift(x(e))]), g)] for g in cond(e)]


def proba(e):
    """outputs of predict_proba: one output stands for two classes"""
    o = layer('last', 0, 'n_outputs')(e)
    n = e.c.argform(e, 4)
    two = Facts([o - 1, lift(1) - o])
    other = [Facts([o - 2]), Facts([-o])]
    return [[(two, n - 2)], [(two, lift(2) - n)], [(g, n - o) for g in other], [(g, o - n) for g in other]]


def features(i, j, n='n_features'):
    return ('the input has as many values as the model has features', equal(arg(j), fld(i, n)))


NET_IN = ('the input has as many values as the first layer has inputs', equal(arg(2), layer('first', 0, 'n_inputs')))
SAME = ('the output has as many values as the input', equal(arg(4), arg(2)))

# function -> (what success looks like, [(condition in words, forms that must be >= 0)])
GUARDS = {
    'eml_trees_predict': ('nonneg', [features(0, 2)]),
    'eml_trees_predict_proba': ('zero', [features(0, 2), ('the output has one value per class', equal(arg(4), fld(0, 'n_classes')))]),
    'eml_trees_regress': ('zero', [features(0, 2), ('the output has room for one value', atleast(arg(4), num(1)))]),
    'eml_trees_regress1': ('float', [features(0, 2)]),
    'eml_net_infer': ('zero', [NET_IN]),
    'eml_net_predict': ('nonneg', [NET_IN]),
    'eml_net_predict_proba': ('zero', [NET_IN, ('the output has one value per class', proba)]),
    'eml_net_regress': ('zero', [NET_IN, ('the output has one value per output of the last layer', equal(arg(4), layer('last', 0, 'n_outputs')))]),
    'eml_net_regress1': ('float', [NET_IN, ('the model has one output', equal(num(1), layer('last', 0, 'n_outputs')))]),
    'eml_net_layer_forward': ('zero', [('the input covers the inputs of the layer', atleast(arg(2), fld(0, 'n_inputs'))),
                                       ('the output has room for the outputs of the layer', atleast(arg(4), fld(0, 'n_outputs')))]),
    'eml_bayes_predict': ('nonneg', [features(0, 2)]),
    'eml_elliptic_envelope_predict': ('nonneg', [features(0, 2)]),
    'eml_mixture_predict_log_proba': ('zero', [features(0, 2)]),
    'eml_mixture_score': ('zero', [features(0, 2)]),
    'eml_mixture_predict_proba': ('zero', [features(0, 2)]),
    'eml_neighbors_check': ('zero', [('the data has room for all items', atleast(arg(1), mul(fld(0, 'max_items'), fld(0, 'n_features')))),
                                     ('there is room for the labels of all items', atleast(arg(2), fld(0, 'max_items'))),
                                     ('there is room for the distances of all items', atleast(arg(3), fld(0, 'max_items')))]),
    'eml_neighbors_add_item': ('zero', [features(0, 2)]),
    'eml_neighbors_infer': ('zero', [features(0, 2), ('there is room for the distances of all items', atleast(arg(4), fld(0, 'n_items')))]),
    'eml_neighbors_find_nearest': ('zero', [('no more neighbours are asked for than there are distances', atleast(arg(2), arg(3)))]),
    'eml_neighbors_predict': ('zero', [features(0, 2), ('there is room for the distances of all items', atleast(arg(4), fld(0, 'n_items')))]),
    'eml_vector_set': ('zero', [('the source fits behind the location', atleast(fld(0, 'length'), add(fld(1, 'length'), arg(2))))]),
    'eml_fft_fill': ('zero', [('the table is half as long as the transform', equal(fld(0, 'length'), half(arg(1))))]),
    'eml_fft_forward': ('zero', [('the table is half as long as the transform', equal(fld(0, 'length'), half(arg(3))))]),
    'eml_iir_check': ('zero', [('there are four states per stage', equal(fld(0, 'states_length'), mul(num(4), fld(0, 'n_stages')))),
                               ('there are six coefficients per stage', equal(fld(0, 'coefficients_length'), mul(num(6), fld(0, 'n_stages'))))]),
    'eml_audio_power_spectrogram': ('zero', [('the output has one value per bin', positive(arg(2), equal(fld(1, 'length'), add(num(1), half(arg(2)))))),
                                             ('the input covers the bins', positive(arg(2), atleast(fld(0, 'length'), add(num(1), half(arg(2))))))]),
    'eml_audio_melspec': ('zero', [('the output has one value per band', equal(fld(2, 'length'), fld(0, 'n_mels'))),
                                   ('the spectrum covers the bins', positive(fld(0, 'n_fft'), atleast(fld(1, 'length'), add(num(1), half(fld(0, 'n_fft'))))))]),
    'eml_audio_melspectrogram': ('zero', [('the input is as long as the transform', equal(fld(2, 'length'), fld(0, 'n_fft'))),
                                          ('the scratch buffer is at least as long as the input', atleast(fld(3, 'length'), fld(2, 'length'))),
                                          ('the bands fit into the input', atleast(fld(2, 'length'), fld(0, 'n_mels'))),
                                          ('the table is half as long as the transform', positive(fld(0, 'n_fft'), equal(fld(1, 'length'), half(fld(0, 'n_fft')))))]),
    'eml_quantizer_check_forward_int16': ('zero', [SAME]),
    'eml_quantizer_forward_int16': ('zero', [SAME]),
    'eml_quantizer_inverse_int16': ('zero', [SAME]),
    'eml_array_copy_rows': ('zero', [('both arrays have rows of the same length', equal(fld(0, 'dims[0]'), fld(2, 'dims[0]'))),
                                     ('both arrays have values of the same size', equal(fld(0, 'value_size'), fld(2, 'value_size'))),
                                     ('the rows fit behind the start', atleast(fld(0, 'dims[1]'), add(arg(1), fld(2, 'dims[1]'))))]),
    'eml_array_shift_rows': ('zero', [('the shift is not larger than the number of rows', atleast(fld(0, 'dims[1]'), neg(arg(1))))]),
    'eml_csv_writer_write_data': ('zero', [('the row has as many values as the header', equal(arg(2), fld(0, 'n_columns')))]),
    'eml_csv_reader_read_data': ('nonneg', [('there is room for all columns', atleast(arg(4), fld(0, 'n_columns')))]),
}
