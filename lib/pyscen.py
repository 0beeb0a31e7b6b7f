"""Symbolic use of the package: the converter, save and predict applied to models with unknown contents.

Everything the caller supplies is an input object whose attributes are opaque terms (`in` and `attr` terms).  The number of features, classes,
layers' sizes, nodes and rows stays symbolic; only the number of layers / trees is fixed, since the list handling is uniform in it.
"""
import builtins
from pyval import *
import pyabs
from pyabs import Interp, State

DTYPES = ('float', 'int8_t', 'int16_t', 'int32_t', 'uint8_t', 'uint16_t')


def D(name):
    return Sym('in', name)


class Session:
    """A package import followed by calls; a snapshot of the state is kept so several calls can start from one state."""
    def __init__(self):
        self.ip = Interp()
        self.mods = {}
        for n in ('NAME', 'NAME2', 'FILE', 'DIR'):
            self.ip.ext.typehint[D(n)] = 'str'
        for n in ('n_features', 'n_classes', 'n_neighbors', 'n_outputs'):
            self.ip.ext.typehint[D(n)] = 'int'

    def load(self, *names):
        for n in names:
            self.mods[n] = self.ip.import_module('emlearn.' + n if n else 'emlearn')
        return self

    def attr(self, mod, name):
        m = self.mods.get(mod) or self.ip.import_module('emlearn.' + mod)
        return self.ip.getattr(m, name)

    def snapshot(self):
        return (self.ip.S.copy(), len(self.ip.events))

    def restore(self, snap):
        self.ip.S = snap[0].copy()
        del self.ip.events[snap[1]:]

    def call(self, f, /, *args, **kw):
        """-> (value, None) or (None, exception)"""
        ip = self.ip
        ip.stack = []
        ip.trydepth = 0
        try:
            v = ip.call(f, list(args), kw)
            return v, None
        except PyRaise as e:
            return None, e.exc

    def method(self, o, name, /, *args, **kw):
        return self.call(self.ip.getattr(o, name), *args, **kw)

    def obj(self, name, typename, attrs=None, absent=(), methods=None, **meta):
        o = Obj('inst', input=True, term=Sym('in', name), typename=typename, absent=set(absent), **meta)
        for k, v in (attrs or {}).items():
            self.ip.put(o.id, '.' + k, v)
        for k, v in (methods or {}).items():
            self.ip.put(o.id, '.' + k, Native(v))
        return o

    def lst(self, vals):
        o = self.ip.mklist(list(vals))
        o.meta["input"] = True
        return o

    def dims(self, term, *dims, typ='array:float'):
        self.ip.ext.shapes[term] = tuple(dims)
        for d in dims:
            if isinstance(d, Sym) and d.op == 'in':
                self.ip.ext.typehint[d] = 'int'
        if typ:
            self.ip.ext.typehint[term] = typ
        return term


def tree(s, i, typename, leafcol, n_classes):
    t = s.obj('tree%d' % i, 'Tree')
    base = t.meta['term']
    n = D('n_nodes%d' % i)
    at = lambda a: Sym('attr', base, a)
    for a, ty in (('children_left', 'array:int'), ('children_right', 'array:int'), ('feature', 'array:int'), ('threshold', 'array:float')):
        s.dims(at(a), n, typ=ty)
        s.ip.put(t.id, '.' + a, at(a))
    s.dims(at('value'), n, 1, leafcol)
    s.ip.put(t.id, '.value', at('value'))
    s.ip.put(t.id, '.node_count', n)
    at_ = {'tree_': t, 'n_features_in_': D('n_features')}
    if n_classes is not None:
        at_['n_classes_'] = n_classes
    return s.obj('estimator%d' % i, typename, at_, absent={'estimators_'})


def trees(s, typename, n=2):
    cl = 'Classifier' in typename
    leafcol = D('n_classes') if cl else 1
    if typename.startswith('DecisionTree'):
        e = tree(s, 0, typename, leafcol, D('n_classes') if cl else None)
        e.meta['term'] = Sym('in', 'estimator')
        return e
    one = 'DecisionTree' + ('Classifier' if cl else 'Regressor') if 'Random' in typename else 'ExtraTree' + ('Classifier' if cl else 'Regressor')
    es = [tree(s, i, one, leafcol, D('n_classes') if cl else None) for i in range(n)]
    at = {'estimators_': s.lst(es), 'n_features_in_': D('n_features')}
    if cl:
        at['n_classes_'] = D('n_classes')
    return s.obj('estimator', typename, at)


ACTS = ('identity', 'relu', 'logistic', 'tanh')


def layer_arrays(s, sizes):
    ws, bs = [], []
    for i in range(len(sizes) - 1):
        ws.append(s.dims(D('weights%d' % i), sizes[i], sizes[i + 1]))
        bs.append(s.dims(D('biases%d' % i), sizes[i + 1]))
    return ws, bs


def mlp(s, typename, n_layers=3, activation=None, out_activation=None, n_outputs=None):
    sizes = [D('n_features')] + [D('hidden%d' % i) for i in range(n_layers - 1)] + [n_outputs if n_outputs is not None else D('n_outputs')]
    ws, bs = layer_arrays(s, sizes)
    return s.obj('estimator', typename, {
        'n_layers_': n_layers + 1, 'coefs_': s.lst(ws), 'intercepts_': s.lst(bs),
        'activation': activation if activation is not None else 'relu',
        'out_activation_': out_activation if out_activation is not None else ('identity' if 'Regressor' in typename else 'softmax')})


def keras(s, spec):
    """spec: list of ('Dense', activation name) | ('Activation', name) | (layer type, {attrs})"""
    layers = []
    ndense = sum(1 for x in spec if x[0] == 'Dense')
    sizes = [D('n_features')] + [D('hidden%d' % i) for i in range(ndense - 1)] + [D('n_outputs')]
    ws, bs = layer_arrays(s, sizes)
    d = 0
    for i, x in enumerate(spec):
        at, ex = {}, {}
        if x[0] in ('Dense', 'Activation'):
            at['activation'] = s.obj('activation%d' % i, 'function', {'__name__': x[1]})
        if len(x) > 2:
            at.update(x[2])
        if x[0] == 'Dense':
            at.setdefault('use_bias', True)
            w, b = ws[d], bs[d]
            d += 1
            ex['methods'] = {'get_weights': (lambda w=w, b=b: s.lst([w, b]))}
        layers.append(s.obj('layer%d' % i, x[0], at, **ex))
    return s.obj('estimator', 'Sequential', {'layers': s.lst(layers)})


def bayes(s):
    th = s.dims(D('theta_'), D('n_classes'), D('n_features'))
    va = s.dims(D('var_'), D('n_classes'), D('n_features'))
    return s.obj('estimator', 'GaussianNB', {'theta_': th, 'var_': va})


def elliptic(s):
    loc = s.dims(D('location_'), D('n_features'))
    prec = s.dims(D('precision_'), D('n_features'), D('n_features'))
    s.ip.ext.typehint[D('offset_')] = 'float'
    return s.obj('estimator', 'EllipticEnvelope', {'location_': loc, 'offset_': D('offset_'), 'precision_': prec},
                 methods={'get_precision': lambda: prec})


def mixture(s, typename, cov):
    k, f = D('n_components'), D('n_features')
    sh = {'full': (k, f, f), 'tied': (f, f), 'diag': (k, f), 'spherical': (k,)}.get(cov if isinstance(cov, str) else None, (k, f, f))
    at = {'means_': s.dims(D('means_'), k, f), 'precisions_cholesky_': s.dims(D('precisions_cholesky_'), *sh), 'covariance_type': cov,
          'weights_': s.dims(D('weights_'), k)}
    lw = s.dims(D('log_weights'), k)
    absent = set()
    if typename == 'GaussianMixture':
        absent = {'degrees_of_freedom_', 'mean_precision_'}
    else:
        at['degrees_of_freedom_'] = s.dims(D('degrees_of_freedom_'), k)
        at['mean_precision_'] = s.dims(D('mean_precision_'), k)
    return s.obj('estimator', typename, at, absent=absent, methods={'_estimate_log_weights': lambda: lw})


def neighbors(s, metric='euclidean', weights='uniform', algorithm='brute'):
    n, f = D('n_items'), D('n_features')
    return s.obj('estimator', 'KNeighborsClassifier', {
        '_fit_X': s.dims(D('_fit_X'), n, f, typ='array:float'), '_y': s.dims(D('_y'), n, typ='array:int'),
        'n_neighbors': D('n_neighbors'), 'effective_metric_': metric, 'weights': weights, 'algorithm': algorithm})


def X(s, name='X'):
    return s.dims(D(name), D('n_rows_' + name), D('n_columns_' + name))


def package_modules(repo):
    """names (below the package) of every Python module in the working tree"""
    import os
    root = os.path.join(repo, 'emlearn')
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
                out.append('' if rel == '__init__' else rel[:-9] if rel.endswith('.__init__') else rel)
    return out


def configs(thorough=False):
    """(label, builder, convert options, save option sets) for every supported family x method x type x option"""
    out = []

    def add(label, b, kw, saves=({},)):
        out.append((label, b, kw, saves))
    for c in ('RandomForestClassifier', 'RandomForestRegressor') + (('DecisionTreeClassifier', 'DecisionTreeRegressor', 'ExtraTreesClassifier', 'ExtraTreesRegressor') if thorough else ('DecisionTreeClassifier',)):
        cl = c.endswith('Classifier')
        for m in ('loadable', 'inline'):
            for d in (('int16_t',) if m == 'loadable' else DTYPES):
                for lb in ((None, 4, 8) if cl and (d == 'int16_t' or thorough) else (None,)) + ((1, 2, 3, 5, 6, 7) if thorough and cl and d == 'int16_t' else ()):
                    kw = {'method': m, 'dtype': d}
                    if lb is not None:
                        kw['leaf_bits'] = lb
                    add('%s %s %s leaf_bits=%s' % (c, m, d, lb), lambda s, c=c: trees(s, c), kw,
                        ({}, {'format': 'csv'}) if d == 'int16_t' else ({},))
    for c, rt in (('MLPClassifier', 'classifier'), ('MLPRegressor', 'regressor')):
        for m in ('loadable',) + (('inline',) if rt == 'classifier' else ()):
            for acts in (ACTS if thorough else ('relu', 'tanh')):
                add('%s %s %s' % (c, m, acts), lambda s, c=c, a=acts: mlp(s, c, 3, a), {'method': m, 'return_type': rt})
    for o in ('softmax', 'logistic'):
        add('MLPClassifier inline fixedpoint ' + o, lambda s, o=o: mlp(s, 'MLPClassifier', 2, 'relu', o, 1 if o == 'logistic' else None), {'method': 'inline', 'use_fixedpoint': True})
        add('MLPClassifier loadable ' + o, lambda s, o=o: mlp(s, 'MLPClassifier', 2, 'logistic', o, 1 if o == 'logistic' else None), {'method': 'loadable'})
    K = [[('Dense', 'relu'), ('Dense', 'softmax')],
         [('Dense', 'linear'), ('ReLU', None, {'negative_slope': 0.0, 'threshold': 0.0, 'max_value': None}), ('Dropout', None, {}), ('Dense', 'sigmoid')],
         [('Dense', 'tanh'), ('Dense', 'linear'), ('Softmax', None, {'axis': -1})]]
    for i, k in enumerate(K):
        for m in ('loadable', 'inline'):
            add('Sequential%d %s' % (i, m), lambda s, k=k: keras(s, k), {'method': m})
        add('Sequential%d regressor' % i, lambda s, k=k: keras(s, k), {'method': 'loadable', 'return_type': 'regressor'})
    add('GaussianNB', bayes, {})
    add('EllipticEnvelope', elliptic, {})
    for c in ('GaussianMixture', 'BayesianGaussianMixture'):
        for cov in ('full', 'tied', 'diag', 'spherical'):
            for m in ('loadable',) + (('inline',) if thorough else ()):
                add('%s %s %s' % (c, cov, m), lambda s, c=c, cov=cov: mixture(s, c, cov), {'method': m})
    add('KNeighborsClassifier', neighbors, {})
    return out


FAMILIES = ('convert', 'trees', 'net', 'bayes', 'distance', 'mixture', 'neighbors')
