"""P01: every unsupported model class / option raises on every path; the default inference method is accepted."""
import pyscen
from pyscen import *
from pyval import *
from report import Report, Lost

TREES = ('RandomForestClassifier', 'ExtraTreesClassifier', 'DecisionTreeClassifier', 'RandomForestRegressor', 'ExtraTreesRegressor', 'DecisionTreeRegressor')
CLASSES = TREES + ('EllipticEnvelope', 'GaussianMixture', 'BayesianGaussianMixture', 'MLPClassifier', 'MLPRegressor', 'Sequential', 'GaussianNB', 'KNeighborsClassifier')
# the feature type each of the other classes works in
DT = {'KNeighborsClassifier': 'int16_t'}
DENSE = [('Dense', 'relu'), ('Dense', 'softmax')]


def build(s, c, **o):
    if c in TREES:
        return pyscen.trees(s, c, 1)
    if c == 'EllipticEnvelope':
        return elliptic(s)
    if c in ('GaussianMixture', 'BayesianGaussianMixture'):
        return mixture(s, c, o.get('cov', 'full'))
    if c in ('MLPClassifier', 'MLPRegressor'):
        return mlp(s, c, 2, o.get('activation'), o.get('out_activation'))
    if c == 'Sequential':
        return keras(s, o.get('layers', DENSE))
    if c == 'GaussianNB':
        return bayes(s)
    if c == 'KNeighborsClassifier':
        return neighbors(s, o.get('metric', 'euclidean'), o.get('weights', 'uniform'))


def cases(thorough):
    """(label, class, build options, convert options, save options or None)"""
    for c in CLASSES:
        yield 'method', c, {}, {'method': Other('method')}, None
        yield 'dtype', c, {}, {'dtype': Other('dtype')}, None
        yield 'option', c, {}, {'emlv_unknown_option': Other('value')}, None
        if c not in TREES:
            for d in DTYPES + ('double', 'uint32_t'):
                if d != DT.get(c, 'float'):
                    yield 'dtype=' + d, c, {}, {'dtype': d}, None
        else:
            for m in (None, 'inline', 'loadable'):
                yield 'dtype,method=%s' % m, c, {}, {'dtype': Other('dtype'), 'method': m}, None
                for d in ('double', 'uint32_t', 'int64_t', 'q16', ''):
                    yield 'dtype=%s,method=%s' % (d, m), c, {}, {'dtype': d, 'method': m}, None
            for d in DTYPES:
                yield 'method,dtype=%s' % d, c, {}, {'dtype': d, 'method': Other('method')}, None
                if d != 'int16_t':
                    yield 'loadable with dtype=%s' % d, c, {}, {'dtype': d, 'method': 'loadable'}, None
            bad = (-1, 9, 12, 16, 31, 33, 64) + ((32,) if c.endswith('Classifier') else (0, 1, 4, 8))
            for b in bad:
                for m in ('inline', 'loadable'):
                    yield 'leaf_bits=%d,method=%s' % (b, m), c, {}, {'leaf_bits': b, 'method': m}, None
            yield 'leaf_bits', c, {}, {'leaf_bits': Other('leaf_bits')}, None
            for m in ('inline', 'loadable'):
                yield 'save format', c, {}, {'method': m}, {'format': Other('format')}
                yield 'save inference', c, {}, {'method': m}, {'inference': 'OTHER'}
    for c in ('MLPClassifier', 'MLPRegressor', 'Sequential'):
        for m in (None, 'loadable', 'inline'):
            yield 'return_type,method=%s' % m, c, {}, {'return_type': Other('return_type'), 'method': m}, None
            yield 'fixedpoint+unknown option', c, {}, {'use_fixedpoint': True, 'emlv_unknown_option': Other('value'), 'method': m}, None
        for r in ('classifier', 'regressor'):
            yield 'method,return_type=%s' % r, c, {}, {'return_type': r, 'method': Other('method')}, None
            for m in (None, 'loadable'):
                yield 'use_fixedpoint,method=%s,%s' % (m, r), c, {}, {'use_fixedpoint': True, 'method': m, 'return_type': r}, None
        yield 'inline regressor', c, {}, {'return_type': 'regressor', 'method': 'inline'}, None
        yield 'save inference', c, {}, {}, {'inference': 'OTHER'}
        yield 'save inference', c, {}, {'method': 'inline'}, {'inference': 'OTHER'}
    for c in ('MLPClassifier', 'MLPRegressor'):
        for m in ('loadable', 'inline') if c == 'MLPClassifier' else ('loadable',):
            rt = {'return_type': 'regressor'} if c == 'MLPRegressor' else {}
            yield 'activation,method=%s' % m, c, {'activation': Other('activation')}, dict(rt, method=m), None
            yield 'out_activation,method=%s' % m, c, {'out_activation': Other('activation')}, dict(rt, method=m), None
    for m in ('loadable', 'inline'):
        for lab, layers in [
                ('Dense activation', [('Dense', Other('activation')), ('Dense', 'softmax')]),
                ('Dense output activation', [('Dense', 'relu'), ('Dense', Other('activation'))]),
                ('Activation layer', [('Dense', 'linear'), ('Activation', Other('activation')), ('Dense', 'softmax')]),
                ('Activation output layer', [('Dense', 'relu'), ('Dense', 'linear'), ('Activation', Other('activation'))]),
                ('layer type', [('Dense', 'relu'), (Other('layer type'), None, {}), ('Dense', 'softmax')]),
                ('first layer type', [(Other('layer type'), None, {}), ('Dense', 'relu'), ('Dense', 'softmax')]),
                ('layer type Conv2D', [('Conv2D', None, {}), ('Dense', 'relu'), ('Dense', 'softmax')]),
                ('layer type BatchNormalization', [('Dense', 'relu'), ('BatchNormalization', None, {}), ('Dense', 'softmax')]),
                ('Dense without bias', [('Dense', 'relu', {'use_bias': False}), ('Dense', 'softmax')]),
                ('ReLU negative_slope', [('Dense', 'linear'), ('ReLU', None, {'negative_slope': 0.25, 'threshold': 0.0, 'max_value': None}), ('Dense', 'softmax')]),
                ('ReLU threshold', [('Dense', 'linear'), ('ReLU', None, {'negative_slope': 0.0, 'threshold': 1.0, 'max_value': None}), ('Dense', 'softmax')]),
                ('ReLU max_value', [('Dense', 'linear'), ('ReLU', None, {'negative_slope': 0.0, 'threshold': 0.0, 'max_value': 6.0}), ('Dense', 'softmax')]),
                ('Softmax axis', [('Dense', 'relu'), ('Dense', 'linear'), ('Softmax', None, {'axis': 1})]),
                ('Activation after activation', [('Dense', 'relu'), ('Activation', 'tanh'), ('Dense', 'softmax')]),
                ('Activation first', [('Activation', 'relu'), ('Dense', 'relu'), ('Dense', 'softmax')])]:
            yield '%s,method=%s' % (lab, m), 'Sequential', {'layers': layers}, {'method': m}, None
    for c in ('GaussianMixture', 'BayesianGaussianMixture'):
        for m in (None, 'inline', 'loadable'):
            yield 'covariance_type,method=%s' % m, c, {'cov': Other('covariance_type')}, {'method': m}, None
    yield 'metric', 'KNeighborsClassifier', {'metric': Other('metric')}, {}, None
    for k in ('manhattan', 'minkowski', 'chebyshev', 'cosine', 'precomputed'):
        yield 'metric=' + k, 'KNeighborsClassifier', {'metric': k}, {}, None
    yield 'weights', 'KNeighborsClassifier', {'weights': Other('weights')}, {}, None
    yield 'weights=distance', 'KNeighborsClassifier', {'weights': 'distance'}, {}, None
    yield 'inline', 'GaussianNB', {}, {'method': 'inline'}, None
    yield 'inline', 'KNeighborsClassifier', {}, {'method': 'inline'}, None
    yield 'loadable', 'EllipticEnvelope', {}, {'method': 'loadable'}, None


# explicit choices that are documented to work
ACCEPT = [(c, {}) for c in CLASSES] + [(c, {'method': 'loadable'}) for c in CLASSES if c != 'EllipticEnvelope'] + \
    [(c, {'method': 'inline', 'dtype': d}) for c in TREES for d in DTYPES] + \
    [(c, {'method': m, 'leaf_bits': b}) for c in TREES if c.endswith('Classifier') for m in ('inline', 'loadable') for b in range(9)] + \
    [('MLPRegressor', {'return_type': 'regressor'}), ('Sequential', {'return_type': 'regressor'}), ('MLPClassifier', {'method': 'inline'}),
     ('MLPClassifier', {'method': 'inline', 'use_fixedpoint': True}), ('Sequential', {'method': 'inline'})] + \
    [('EllipticEnvelope', {'method': 'inline'}), ('GaussianMixture', {'method': 'inline'})]


def place(s, m):
    """where the model that should not exist was built"""
    cls = m.meta.get('cls') if isinstance(m, Obj) else None
    return cls.qual if isinstance(cls, Cls) else type(m).__name__


def run():
    R = Report('P01', 'Refusal of unsupported options.  The conversion entry point, the family wrappers and everything they call are evaluated by an abstract '
               'interpreter on models whose contents are unknown, once per option with a value different from every constant in the program (and with each documented '
               'value belonging to another family).  Obligation: every path raises (no state returns).  For each supported class the unspecified method must have a returning path.',
               ['third-party functions behave as summarised (numpy, jinja2, sklearn helpers)', 'the list of supported classes, types and combinations is the documented one'])
    s = Session().load('', 'convert', 'trees', 'net', 'bayes', 'distance', 'mixture', 'neighbors', 'preprocessing.quantizer')
    s.ip.epoch = 'use'
    snap = s.snapshot()
    conv = s.attr('convert', 'convert')

    def go(c, o, co, so):
        s.restore(snap)
        e = build(s, c, **o) if not isinstance(c, Other) else s.obj('estimator', c)
        m, err = s.call(conv, e, **co)
        if err is None and so is not None:
            so = {k: (s.lst([Other('inference')]) if v == 'OTHER' else v) for k, v in so.items()}
            return s.method(m, 'save', name='emlv_name', **so), m
        return (m, err), m
    seen = set()
    for lab, c, o, co, so in cases(R.thorough):
        (v, err), m = go(c, o, co, so)
        R.ob('unsupported value refused', '%s: %s' % (c, lab), subject=c)
        if err is None:
            R.violate('accept:%s:%s' % (c, lab), '%s with an unsupported %s is accepted (a path through %s returns)' % (c, lab, place(s, m)), place(s, m))
    # model classes
    for kw in ({}, {'kind': Other('kind')}, {'method': 'inline'}, {'method': 'loadable'}, {'dtype': 'float'}):
        (v, err), m = go(Other('class'), {}, kw, None)
        R.ob('unsupported value refused', 'model class %s' % (kw or ''))
        if err is None:
            R.violate('accept:class:%s' % sorted(kw), 'an unsupported model class is accepted (a path through %s returns)' % place(s, m), place(s, m))
    for name in ('SVC', 'LogisticRegression', 'KNeighborsRegressor', 'GradientBoostingClassifier', 'IsolationForest', 'MultinomialNB', 'Functional', 'HistGradientBoostingClassifier'):
        s.restore(snap)
        m, err = s.call(conv, s.obj('estimator', name))
        R.ob('unsupported value refused', 'model class ' + name)
        if err is None:
            R.violate('accept:class:' + name, 'model class %s is accepted (a path through %s returns)' % (name, place(s, m)), place(s, m))
    # mixture executables
    s.restore(snap)
    e = build(s, 'GaussianMixture')
    m, err = s.call(conv, e)
    if err is None and 'build_executable' in vars_of(s, 'mixture'):
        v, err = s.call(s.attr('mixture', 'build_executable'), m, out_dir=D('DIR'), output_type=Other('output_type'))
        R.ob('unsupported value refused', 'mixture.build_executable output_type')
        if err is None:
            R.violate('accept:mixture:output_type', 'an unsupported mixture output type is accepted', 'emlearn.mixture.build_executable')
    for c, kw in ACCEPT:
        (v, err), m = go(c, {}, kw, None)
        R.ob('supported value accepted', '%s %s' % (c, kw), subject=c)
        if err is not None:
            ev = [x for x in s.ip.events if x.kind == 'raise']
            w = '%s:%s in %s' % ev[-1].loc if ev else ''
            R.violate('refuse:%s:%s' % (c, sorted((k, str(x)) for k, x in kw.items())), '%s with %s always raises %s' % (c, kw or 'default options', err), w)
    R.extra['functions_evaluated'] = len(s.ip.functions_seen)
    R.floor('unsupported value refused', 200)
    R.floor('supported value accepted', 60)
    return R.finish()


def vars_of(s, mod):
    m = s.mods[mod]
    return {k[1] for k in s.ip.S.h if k[0] == m.frame.id}
