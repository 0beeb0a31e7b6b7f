"""G01: initialisers of the model structures in generated code carry the quantity each field means."""
import re
import pyinst, pygen
from pyscen import *
from pyval import *
from cast import strip
from report import Report, Lost

TYPES = {'int8_t': 'signed char', 'uint8_t': 'unsigned char', 'int16_t': 'short', 'uint16_t': 'unsigned short', 'int32_t': 'int', 'uint32_t': 'unsigned int',
         'eml_q16_t': 'int', 'int64_t': 'long'}
KERAS = {'linear': 'Identity', 'identity': 'Identity', 'relu': 'Relu', 'ReLU': 'Relu', 'logistic': 'Logistic', 'sigmoid': 'Logistic', 'tanh': 'Tanh', 'softmax': 'Softmax', 'Softmax': 'Softmax'}
LAYOUT = ('transpose', 'swapaxes', 'rot90', 'flip', 'fliplr', 'flipud', 'sort', 'roll')


def canon(t):
    t = re.sub(r'\b(const|static|struct|enum|volatile)\b', '', t).strip()
    b, stars = t.rstrip('* ').strip(), t.count('*')
    return TYPES.get(b, b).lstrip('_') + '*' * stars


def fieldtypes(t):
    """canonical pointee of a pointer field, None for other fields"""
    c = canon(t)
    return c[:-1] if c.endswith('*') else None


def inputs(t, out=None, ops=None):
    """names of the model's arrays and numbers a term is computed from, and the operations on the way"""
    out = set() if out is None else out
    ops = [] if ops is None else ops

    def go(x):
        if isinstance(x, Sym):
            if x.op == 'in':
                out.add(x.args[0])
                return
            if x.op == 'attr' and isinstance(x.args[0], Sym) and x.args[0].op == 'in' and isinstance(x.args[1], str):
                out.add('%s.%s' % (x.args[0].args[0], x.args[1]))
                return
            if x.op == 'attr' and x.args[1] == 'T':
                ops.append('transpose')
                return go(x.args[0])
            if x.op in ('range', 'idx', 'dim', 'size', 'shape', 'rank', 'altlen', 'seglen', 'loopvar', 'count'):
                return
            if x.op == 'elem':
                return go(x.args[0])
            if x.op == 'item':
                ks = x.args[1] if isinstance(x.args[1], tuple) else (x.args[1],)
                if any(isinstance(k, Sym) and k.op == 'slice' for k in ks):
                    ops.append('slice')
                for k in ks:
                    if isinstance(k, Sym) and k.op == 'elem' and isinstance(k.args[0], Sym) and k.args[0].op == 'range':
                        continue
                return go(x.args[0])
            if x.op == 'call':
                n = x.args[0].split('.')[-1]
                ops.append(n)
                kw = dict(x.args[2]) if len(x.args) > 2 else {}
                if kw.get('order', 'C') not in ('C', 'K', 'A'):
                    ops.append('order')
                a = x.args[1]
                return [go(y) for y in (a[:1] if n in LAYOUT else a)]
            if x.op == 'meth':
                n = x.args[1]
                ops.append(n)
                kw = dict(x.args[3]) if len(x.args) > 3 else {}
                if kw.get('order', 'C') not in ('C', 'K', 'A') or n in ('flatten', 'ravel') and x.args[2][:1] == ('F',):
                    ops.append('order')
                go(x.args[0])
                return [go(y) for y in x.args[2]] if n not in ('astype', 'flatten', 'ravel', 'reshape', 'transpose', 'swapaxes') else None
            if x.op in ('top', 'cut'):
                ops.append('unknown')
            if x.op in ('bin', 'un'):
                ops.append(x.args[0])
                return [go(y) for y in x.args[1:]]
            for y in x.args:
                go(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
        elif isinstance(x, Choice):
            for y in x.vals:
                go(y)
        elif isinstance(x, Str):
            for p in x.parts:
                go(p)
        elif isinstance(x, Hole):
            go(x.value)
        elif isinstance(x, RepS):
            go(x.body)
    go(t)
    return out, ops


class Model:
    """one instantiation of the text a model is saved as, with the comparisons made on it"""

    def __init__(self, R, s, label, place, v, alt, presets, base):
        self.R, self.s, self.ip, self.label, self.place, self.v, self.alt = R, s, s.ip, label, place, v, alt
        self.env = pyinst.Env(s.ip, alt=alt, presets=presets, base=base)
        self.g = pygen.Gen(s.ip, v, self.env)
        self.presets = presets
        self.seen = set()
        self._other = None

    def other(self):
        """the same dimensions, other values for quantities that are not known"""
        if self._other is None:
            p = dict(self.presets)
            p.update(self.env.syms)
            self._other = pygen.Gen(self.ip, self.v, pyinst.Env(self.ip, alt=self.alt, presets=p, base=50))
        return self._other

    def bad(self, key, msg):
        self.R.violate('%s:%s' % (self.place, key), '%s: %s' % (self.label, msg), self.place)

    def equal(self, struct, field, read, want, what):
        """read(Gen) is a number of the text, want the number it has to be (or a function of the text)"""
        got = read(self.g)
        w = want(self.g) if callable(want) else want
        self.R.ob('count', '%s.%s' % (struct, field), subject=self.place)
        if got is None or w is None or self.env.capped:
            return self.R.ob('count not known', '%s.%s %s' % (struct, field, self.label))
        if got == w:
            return
        if self.env.atoms:
            o = self.other()
            if o.env.capped or read(o) != got or callable(want) and want(o) != w:
                return self.R.ob('count not known', '%s.%s %s' % (struct, field, self.label))
        self.bad('%s.%s' % (struct, field), '%s.%s is %s, but %s is %s (dimensions %s)' % (
            struct, field, got, what, w, ', '.join('%s=%s' % (k.args[0], x) for k, x in sorted({**self.presets, **self.env.syms}.items(), key=repr) if k.op == 'in')))

    # ---- reading
    def length(self, name):
        return lambda g: None if name not in g.vars else g.declared(name) if g.elements(name) is None else len(g.elements(name))

    def dim(self, name):
        return lambda g: g.env.num(D(name))

    def root(self, struct, field, name, want, siblings, sqrt=None, layout=True, elements=None):
        """the numbers of an array come from one parameter of the model"""
        es = elements if elements is not None else self.g.elements(name)
        if es is None:
            return
        for e in es:
            for h in self.g.holes(e):
                self.roothole(struct, field, h, want, siblings, layout)

    def roothole(self, struct, field, h, want, siblings, layout=True, plain=True):
        if (struct, field, h) in self.seen:
            return
        self.seen.add((struct, field, h))
        got, ops = inputs(h.value)
        self.R.ob('value', '%s.%s' % (struct, field), subject=self.place)
        if 'unknown' in ops:
            return
        if want not in got:
            self.bad('%s.%s' % (struct, field), '%s.%s is filled from %s instead of %s' % (struct, field, ', '.join(sorted(got)) or 'a constant', want))
        elif plain and exact(h.value) and got & (set(siblings) - {want}):
            self.bad('%s.%s' % (struct, field), '%s.%s is filled from %s as well as %s' % (struct, field, ', '.join(sorted(got & (set(siblings) - {want}))), want))
        elif layout and (sum(1 for o in ops if o in ('transpose', 'swapaxes', 'order')) % 2 or any(o in LAYOUT[2:] for o in ops)):
            self.bad('%s.%s' % (struct, field), '%s.%s holds %s in another order than the C code reads it (%s)' % (struct, field, want, ', '.join(o for o in ops if o in LAYOUT or o == 'order')))


def values(m, struct, name):
    """{field: (read function, value)} of one structure initialiser, after the checks every structure gets"""
    fs = pygen.fields()[struct]
    return rowvalues(m, struct, lambda g: g.init(name), name, fs)


def rowvalues(m, struct, node, where, fs):
    init = node(m.g)
    if init is None or init.get('kind') != 'InitListExpr':
        m.bad('%s:initialiser' % struct, '%s has no initialiser of its own (%s)' % (struct, where))
        return None
    row = [x for x in init.get('inner', ())]
    m.R.ob('initialiser', '%s %s' % (struct, m.label), subject=m.place)
    if len([x for x in row if x.get('kind') != 'ImplicitValueInitExpr']) != len(fs):
        m.bad('%s:fields' % struct, 'the initialiser of %s gives %d of %d fields' % (struct, len([x for x in row if x.get('kind') != 'ImplicitValueInitExpr']), len(fs)))
        return None
    out = {}
    for i, (f, t, dt) in enumerate(fs):
        v = m.g.value(row[i])
        out[f] = v

        def read(g, i=i):
            n = node(g)
            r = n.get('inner', ())
            x = g.value(r[i]) if i < len(r) else None
            return x[1] if x and x[0] == 'num' else None
        out['#' + f] = read
        pt = fieldtypes(dt or t)
        if pt is not None:
            m.R.ob('pointer', '%s.%s' % (struct, f), subject=m.place)
            if v[0] != 'ref' or v[1] not in m.g.vars:
                if v[0] != 'expr':
                    m.bad('%s.%s' % (struct, f), '%s.%s is initialised with %s, not with an array' % (struct, f, v[1]))
                continue
            et = m.g.elemtype(v[1])
            if et is None or canon(et) != canon(pt):
                m.bad('%s.%s' % (struct, f), '%s.%s points to %s, the array %s has elements of type %s' % (struct, f, pt, v[1], et))
        elif v[0] == 'ref':
            m.bad('%s.%s' % (struct, f), '%s.%s is a number and is initialised with %s' % (struct, f, v[1]))
    return out


def ref(vals, f):
    return vals[f][1] if vals[f][0] == 'ref' else None


# ---- one structure each

def columns(m, struct, arr, spec, siblings):
    """elements of an array of structures: {field: parameter or None}"""
    fs = pygen.fields()[struct]
    es = m.g.elements(arr) or []
    rows = []
    for e in es:
        if e.get('kind') != 'InitListExpr':
            continue
        row = e.get('inner', ())
        m.R.ob('initialiser', '%s %s' % (struct, m.label), subject=m.place)
        given = [x for x in row if x.get('kind') != 'ImplicitValueInitExpr']
        if len(given) != len(fs):
            m.bad('%s:fields' % struct, 'an initialiser of %s gives %d of %d fields' % (struct, len(given), len(fs)))
            continue
        hs = {f: m.g.holes(x) for (f, _, _), x in zip(fs, row)}
        rows.append((hs, row))
    return rows


def check_trees(m, name, cfg):
    v = values(m, 'EmlTrees', name)
    if v is None:
        return
    m.equal('EmlTrees', 'n_nodes', v['#n_nodes'], m.length(ref(v, 'nodes')), 'the number of nodes')
    m.equal('EmlTrees', 'n_trees', v['#n_trees'], m.length(ref(v, 'tree_roots')), 'the number of tree roots')
    m.equal('EmlTrees', 'n_trees', v['#n_trees'], lambda g: cfg['trees'], 'the number of trees')
    m.equal('EmlTrees', 'n_leaves', v['#n_leaves'], m.length(ref(v, 'leaves')), 'the number of leaves')
    m.equal('EmlTrees', 'leaf_bits', v['#leaf_bits'], lambda g: cfg['leaf_bits'], 'the leaf format')
    m.equal('EmlTrees', 'n_features', v['#n_features'], m.dim('n_features'), 'the number of features')
    if cfg['leaf_bits'] != 32:
        m.equal('EmlTrees', 'n_classes', v['#n_classes'], m.dim('n_classes'), 'the number of classes')
    if ref(v, 'leaves'):
        for e in m.g.elements(ref(v, 'leaves')) or ():
            for h in m.g.holes(e):
                got, ops = inputs(h.value)
                m.R.ob('value', 'EmlTrees.leaves', subject=m.place)
                if not any(x.endswith('.value') for x in got) and 'unknown' not in ops:
                    m.bad('EmlTrees.leaves', 'a leaf holds a quantity made from %s instead of the tree\'s values' % (', '.join(sorted(got)) or 'nothing'))
    first = {}
    if ref(v, 'nodes'):
        cols = {'feature': 'feature', 'value': 'threshold', 'left': 'children_left', 'right': 'children_right'}
        for i, (hs, row) in enumerate(columns(m, 'EmlTreesNode', ref(v, 'nodes'), None, None)):
            own = set()
            for f, want in cols.items():
                for h in hs[f]:
                    if (f, h) in m.seen:
                        got, _ = inputs(h.value)
                        own |= {x.split('.')[0] for x in got if '.' in x}
                        continue
                    m.seen.add((f, h))
                    got, ops = inputs(h.value)
                    m.R.ob('value', 'EmlTreesNode.' + f, subject=m.place)
                    own |= {x.split('.')[0] for x in got if '.' in x}
                    kinds = {x.split('.')[1] for x in got if '.' in x}
                    if 'unknown' in ops or not got and not hs[f]:
                        continue
                    if want not in kinds or kinds & (set(cols.values()) - {want}) and exact(h.value):
                        m.bad('EmlTreesNode.' + f, 'EmlTreesNode.%s is filled from %s instead of %s of the tree' % (f, ', '.join(sorted(kinds)) or 'nothing', want))
            if len(own) > 1:
                m.bad('EmlTreesNode:tree', 'one node mixes values of %s' % ', '.join(sorted(own)))
            for o in own:
                first.setdefault(o, i)
    if ref(v, 'tree_roots'):
        es = m.g.elements(ref(v, 'tree_roots')) or []
        for k, e in enumerate(es):
            x = m.g.value(e)
            w = first.get('tree%d' % k)
            if w is not None:
                def read(g, k=k):
                    l = g.elements(ref(v, 'tree_roots')) or []
                    y = g.value(l[k]) if k < len(l) else ('', None)
                    return y[1] if y[0] == 'num' else None
                m.equal('EmlTrees', 'tree_roots', read, lambda g, w=w: w if g is m.g else None if g.env.atoms and g.text != m.g.text else w, 'the first node of tree %d' % k)


def check_net(m, name, cfg):
    v = values(m, 'EmlNet', name)
    if v is None:
        return
    layers = ref(v, 'layers')
    m.equal('EmlNet', 'n_layers', v['#n_layers'], m.length(layers), 'the number of layers given')
    m.equal('EmlNet', 'n_layers', v['#n_layers'], lambda g: len(cfg['activations']), 'the number of layers of the network')
    for b in ('activations1', 'activations2'):
        m.equal('EmlNet', 'activations_length', v['#activations_length'], lambda g, b=b: g.declared(ref(v, b)) if ref(v, b) in g.vars else None, 'the length of ' + b)
    if ref(v, 'activations1') and ref(v, 'activations1') == ref(v, 'activations2'):
        m.bad('EmlNet.activations2', 'both activation buffers are %s' % ref(v, 'activations1'))
    n = len(cfg['activations'])
    big = max(m.env.num(d) for d in cfg['sizes'])
    al = v['#activations_length'](m.g)
    if al is not None and al < big and not m.env.atoms:
        m.bad('EmlNet.activations_length', 'the activation buffers hold %d values, the largest layer has %d' % (al, big))
    fs = pygen.fields()['EmlNetLayer']
    for i in range(n):
        es = m.g.elements(layers) if layers else None
        if es is None or i >= len(es):
            break

        def node(g, i=i):
            l = g.elements(layers) or []
            return l[i] if i < len(l) else {}
        w = rowvalues(m, 'EmlNetLayer', node, 'layer %d' % i, fs)
        if w is None:
            continue
        L = 'EmlNetLayer'
        m.equal(L, 'n_inputs', w['#n_inputs'], lambda g: g.env.num(cfg['sizes'][i]), 'the number of inputs of layer %d' % i)
        m.equal(L, 'n_outputs', w['#n_outputs'], lambda g: g.env.num(cfg['sizes'][i + 1]), 'the number of outputs of layer %d' % i)
        if ref(w, 'weights'):
            m.equal(L, 'weights', m.length(ref(w, 'weights')), lambda g: g.env.num(cfg['sizes'][i]) * g.env.num(cfg['sizes'][i + 1]), 'inputs times outputs of layer %d' % i)
        if ref(w, 'biases'):
            m.equal(L, 'biases', m.length(ref(w, 'biases')), lambda g: g.env.num(cfg['sizes'][i + 1]), 'the number of outputs of layer %d' % i)
        sib = ['weights%d' % k for k in range(n)] + ['biases%d' % k for k in range(n)]
        if ref(w, 'weights'):
            m.root(L, 'weights', ref(w, 'weights'), 'weights%d' % i, sib)
        if ref(w, 'biases'):
            m.root(L, 'biases', ref(w, 'biases'), 'biases%d' % i, sib)
        a = w['activation']
        m.R.ob('value', 'EmlNetLayer.activation', subject=m.place)
        if a[0] != 'enum' or a[1].replace('EmlNetActivation', '') != cfg['activations'][i]:
            m.bad(L + '.activation', 'layer %d has the activation %s, the network has %s' % (i, a[1], cfg['activations'][i]))


def check_bayes(m, name, cfg):
    v = values(m, 'EmlBayesModel', name)
    if v is None:
        return
    m.equal('EmlBayesModel', 'n_classes', v['#n_classes'], m.dim('n_classes'), 'the number of classes')
    m.equal('EmlBayesModel', 'n_features', v['#n_features'], m.dim('n_features'), 'the number of features')
    su = ref(v, 'summaries')
    if not su:
        return
    m.equal('EmlBayesModel', 'summaries', m.length(su), lambda g: g.env.num(D('n_classes')) * g.env.num(D('n_features')), 'classes times features')
    for hs, row in columns(m, 'EmlBayesSummary', su, None, None):
        for f, want in (('mean', 'theta_'), ('std', 'var_'), ('stdlog2', 'var_')):
            for h in hs[f]:
                first = ('EmlBayesSummary', f, h) not in m.seen
                m.roothole('EmlBayesSummary', f, h, want, ('theta_', 'var_'))
                if not first:
                    continue
                got, ops = inputs(h.value)
                opaque = set(ops) - {'sqrt', 'log2', '**', 'float', 'float32', 'float64', 'asarray', 'array', 'copy', 'astype', 'power', 'log', '*', '/', 'flatten', 'ravel', 'tolist', 'reshape'}
                bad = order(m, h)
                if bad:
                    m.bad('EmlBayesModel.summaries', bad)
                if opaque or not exact(h.value):
                    continue
                root = any(o in ('sqrt', '**', 'power') for o in ops)
                logs = any(o in ('log2', 'log') for o in ops)
                if f == 'mean' and (root or logs) or f == 'std' and (logs or not root) or f == 'stdlog2' and (not logs or not root and not set(ops) & {'*', '/'}):
                    m.bad('EmlBayesSummary.' + f, 'EmlBayesSummary.%s is %s of %s' % (f, ' of '.join(ops) or 'the value', want))


def exact(t):
    """the term keeps apart what it was made from"""
    return not any(x.op in ('arr', 'view', 'mix', 'choice', 'setelem', 'top', 'cut') for x in terms(t)) and not any(isinstance(y, Choice) for x in terms(t) for y in x.args)


def order(m, h):
    """classes are the outer dimension of the summaries"""
    for t in terms(h.value):
        if t.op == 'item' and isinstance(t.args[1], tuple) and len(t.args[1]) == 2:
            ds = []
            for k in t.args[1]:
                if isinstance(k, Sym) and k.op == 'elem' and isinstance(k.args[0], Sym) and k.args[0].op == 'range':
                    ds.append(m.env.num(m.ip.ext.range_len(k.args[0])))
            if len(ds) == 2 and ds == [m.env.num(D('n_features')), m.env.num(D('n_classes'))]:
                return 'the parameters are taken by feature and class, the model stores them by class and feature'
    chain = []

    def find(p, outer):
        if isinstance(p, Str):
            return any([find(q, outer) for q in p.parts])
        if isinstance(p, RepS):
            return find(p.body, outer + [p.count])
        if isinstance(p, AltS):
            return any([find(q, outer) for q in p.alts])
        if isinstance(p, Hole) and (p.value, p.spec) == (h.value, h.spec):
            chain.append(outer)
            return True
        return False
    find(m.v, [])
    for c in chain:
        ns = [m.env.num(x) for x in c]
        if ns == [m.env.num(D('n_features')), m.env.num(D('n_classes'))]:
            return 'the summaries are written by feature and class, the model stores them by class and feature'
    return None


def terms(t):
    if isinstance(t, Sym):
        yield t
        for a in t.args:
            yield from terms(a)
    elif isinstance(t, (tuple, list)):
        for a in t:
            yield from terms(a)


def check_elliptic(m, name, cfg):
    S = 'EmlEllipticEnvelope'
    v = values(m, S, name)
    if v is None:
        return
    m.equal(S, 'n_features', v['#n_features'], m.dim('n_features'), 'the number of features')
    sib = ('location_', 'precision_', 'offset_')
    for f, want, n in (('means', 'location_', lambda g: g.env.num(D('n_features'))), ('precision', 'precision_', lambda g: g.env.num(D('n_features')) ** 2)):
        if ref(v, f):
            m.equal(S, f, m.length(ref(v, f)), n, 'the length the C code reads')
            m.root(S, f, ref(v, f), want, sib, layout=want != 'precision_')
    init = m.g.init(name)
    i = [f for f, _, _ in pygen.fields()[S]].index('decision_boundary')
    for h in m.g.holes(init['inner'][i]):
        m.roothole(S, 'decision_boundary', h, 'offset_', sib)


LENGTHS = {'Full': lambda k, f: k * f * f, 'Tied': lambda k, f: f * f, 'Diag': lambda k, f: k * f, 'Diagonal': lambda k, f: k * f, 'Spherical': lambda k, f: k}


def check_mixture(m, name, cfg):
    S = 'EmlMixtureModel'
    v = values(m, S, name)
    if v is None:
        return
    k, f = D('n_components'), D('n_features')
    m.equal(S, 'n_components', v['#n_components'], m.dim('n_components'), 'the number of components')
    m.equal(S, 'n_features', v['#n_features'], m.dim('n_features'), 'the number of features')
    ct = v['covariance_type']
    m.R.ob('value', S + '.covariance_type', subject=m.place)
    kind = ct[1].replace('EmlCovariance', '') if ct[0] == 'enum' else None
    if kind not in LENGTHS:
        m.bad(S + '.covariance_type', 'the covariance type is %s' % (ct[1],))
    lens = {'means': lambda g: g.env.num(k) * g.env.num(f), 'log_dets': lambda g: g.env.num(k), 'log_weights': lambda g: g.env.num(k)}
    if kind in LENGTHS:
        lens['precisions'] = lambda g: LENGTHS[kind](g.env.num(k), g.env.num(f))
    for x, n in lens.items():
        if ref(v, x):
            m.equal(S, x, m.length(ref(v, x)), n, 'the length the C code reads')
    sib = ('means_', 'precisions_cholesky_', 'weights_', 'log_weights')
    for x, want in (('means', 'means_'), ('precisions', 'precisions_cholesky_'), ('log_dets', 'precisions_cholesky_')):
        if ref(v, x):
            m.root(S, x, ref(v, x), want, sib)
    if ref(v, 'log_dets') and ref(v, 'precisions'):
        a, b = ([h for e in m.g.elements(ref(v, x)) or () for h in m.g.holes(e)] for x in ('log_dets', 'precisions'))
        if a and b and set(a) == set(b):
            m.bad(S + '.log_dets', 'the log determinants are the precisions themselves')
    if ref(v, 'log_weights'):
        for e in m.g.elements(ref(v, 'log_weights')) or ():
            for h in m.g.holes(e):
                got, ops = inputs(h.value)
                m.R.ob('value', S + '.log_weights', subject=m.place)
                if 'unknown' not in ops and (got & {'means_', 'precisions_cholesky_'} or not got & {'weights_', 'log_weights'}
                                             or 'log_weights' not in got and not set(ops) & {'log', '_estimate_log_weights'} and set(ops) <= {'flatten', 'ravel', 'copy', 'float32', 'astype', 'asarray', 'array'}):
                    m.bad(S + '.log_weights', 'the log weights are %s of %s' % (' of '.join(ops), ', '.join(sorted(got)) or 'nothing'))


def check_neighbors(m, name, cfg):
    S = 'EmlNeighborsModel'
    v = values(m, S, name)
    if v is None:
        return
    m.equal(S, 'n_features', v['#n_features'], m.dim('n_features'), 'the number of features')
    m.equal(S, 'n_items', v['#n_items'], m.dim('n_items'), 'the number of items')
    m.equal(S, 'k_neighbors', v['#k_neighbors'], m.dim('n_neighbors'), 'the number of neighbours')
    m.equal(S, 'max_items', v['#max_items'], m.length(ref(v, 'labels')), 'the number of labels')
    if ref(v, 'data'):
        m.equal(S, 'data', m.length(ref(v, 'data')), lambda g: (v['#max_items'](g) or 0) * g.env.num(D('n_features')), 'items times features')
        m.root(S, 'data', ref(v, 'data'), '_fit_X', ('_fit_X', '_y'))
    if ref(v, 'labels'):
        m.root(S, 'labels', ref(v, 'labels'), '_y', ('_fit_X', '_y'))


def check_inline_net(m, cfg):
    """the layers of a network written out as calls"""
    def layers(g):
        return [a for fn, callee, a in g.calls() if callee.startswith('eml_net_forward')]
    ls = layers(m.g)
    n = len(cfg['activations'])
    L = 'inline layer'
    m.equal('inline network', 'layers', lambda g: len(layers(g)), lambda g: n, 'the number of layers of the network')
    sib = ['weights%d' % k for k in range(n)] + ['biases%d' % k for k in range(n)]
    for i, a in enumerate(ls[:n]):
        if len(a) != 7:
            continue

        def num(k, i=i):
            def read(g):
                l = layers(g)
                return l[i][k][1] if i < len(l) and l[i][k][0] == 'num' else None
            return read
        m.R.ob('initialiser', 'layer %d %s' % (i, m.label), subject=m.place)
        nin, nout = (lambda g: g.env.num(cfg['sizes'][i])), (lambda g: g.env.num(cfg['sizes'][i + 1]))
        m.equal(L, 'in_length', num(1), nin, 'the number of inputs of layer %d' % i)
        m.equal(L, 'out_length', num(6), nout, 'the number of outputs of layer %d' % i)
        for k, want, ln in ((2, 'weights', lambda g: nin(g) * nout(g)), (3, 'biases', nout)):
            if a[k][0] == 'array':
                m.equal(L, want, m.length(a[k][1]), ln, 'the number of %s of layer %d' % (want, i))
                m.root(L, want, a[k][1], '%s%d' % (want, i), sib)
        if a[4][0] == 'enum' and a[4][1].replace('EmlNetActivation', '') != cfg['activations'][i]:
            m.bad(L + '.activation', 'layer %d has the activation %s, the network has %s' % (i, a[4][1], cfg['activations'][i]))
    big = max(m.env.num(d) for d in cfg['sizes'])
    for name in sorted(m.g.vars):
        if m.g.elements(name) is None and m.g.declared(name) is not None:
            m.R.ob('count', 'buffer', subject=m.place)
            if m.g.declared(name) < big and not m.env.atoms:
                m.bad('inline network.buffer', 'the buffer %s has %d values, the largest layer has %d' % (name, m.g.declared(name), big))
    for fn, callee, a in m.g.calls():
        if callee in m.g.funcs:
            bufs = [x[1] for x in a if x[0] == 'array' and m.g.elements(x[1]) is None]
            for x in a:
                if x[0] == 'num' and bufs:
                    m.R.ob('count', 'buffer length', subject=m.place)
                    for b in bufs:
                        if x[1] > (m.g.declared(b) or x[1]) and not m.env.atoms:
                            m.bad('inline network.buffer_length', '%s passes %s with the length %d, it has %d values' % (fn, b, x[1], m.g.declared(b)))


SPEC = {'EmlTrees': check_trees, 'EmlNet': check_net, 'EmlBayesModel': check_bayes, 'EmlEllipticEnvelope': check_elliptic, 'EmlMixtureModel': check_mixture, 'EmlNeighborsModel': check_neighbors}
FAMILY = {'trees': 'EmlTrees', 'net': 'EmlNet', 'bayes': 'EmlBayesModel', 'distance': 'EmlEllipticEnvelope', 'mixture': 'EmlMixtureModel', 'neighbors': 'EmlNeighborsModel'}


def config(s, label, est):
    """what the model the text stands for looks like"""
    at = lambda n: s.ip.get(est.id, '.' + n)
    c = {}
    w = label.split()[0]
    if 'Tree' in w or 'Forest' in w:
        c['trees'] = 1 if w.startswith('DecisionTree') else 2
        lb = re.search(r'leaf_bits=(\w+)', label).group(1)
        c['leaf_bits'] = 32 if w.endswith('Regressor') else 0 if lb in ('None', '0', '1') else 8
    return c


def netconfig(s, est):
    from chk_p04 import listof
    ip = s.ip
    at = lambda o, n: ip.get(o.id, '.' + n)
    t = est.meta.get('typename') or est.meta.get('type') or ''
    if t == 'Sequential':
        acts, ndense = [], 0
        for l in listof(ip, at(est, 'layers')):
            k = l.meta.get('typename')
            if k == 'Dense':
                ndense += 1
                acts.append(KERAS[at(at(l, 'activation'), '__name__')])
            elif k in ('ReLU', 'Softmax'):
                acts[-1] = KERAS[k]
            elif k == 'Activation':
                acts[-1] = KERAS[at(at(l, 'activation'), '__name__')]
        hidden = ['hidden%d' % i for i in range(ndense - 1)]
        return {'activations': acts, 'sizes': [D('n_features')] + [D(h) for h in hidden] + [D('n_outputs')]}
    ws = listof(ip, at(est, 'coefs_'))
    n = len(ws)
    acts = [KERAS[at(est, 'activation')]] * (n - 1) + [KERAS[at(est, 'out_activation_')]]
    last = ip.ext.dim(ws[-1], 1)
    return {'activations': acts, 'sizes': [D('n_features')] + [D('hidden%d' % i) for i in range(n - 1)] + [last]}


def run():
    R = Report('G01', 'Structure initialisers.  The text save returns is obtained as a term by abstract interpretation of the converter for every family and option, instantiated with a different prime for every dimension of '
               'the model (twice, in opposite orders) and a literal of its own for every parameter, and parsed.  Every field of the library\'s structure (layout read from the headers) is compared with the quantity it '
               'means: counts with the length of the array beside them and with the dimension of the model, pointers with the array holding the parameters the field is named after, element types with the field.',
               ['the meaning of each field, table in chk_g01', 'a count which depends on unknown data and differs is reported as not known, never as a violation'])
    s = Session().load('', *FAMILIES)
    ip = s.ip
    snap = s.snapshot()
    conv = s.attr('convert', 'convert')
    found = {}
    for label, b, kw, saves in configs(R.thorough):
        s.restore(snap)
        ip.epoch = 'convert'
        est = b(s)
        w = label.split()[0]
        cfg = netconfig(s, est) if w.startswith(('MLP', 'Seq')) else config(s, label, est)
        m, err = s.call(conv, est, **kw)
        if err is not None:
            continue
        snap2 = s.snapshot()
        for so in saves:
            if so.get('format') == 'csv':
                continue
            s.restore(snap2)
            v, err = s.method(m, 'save', **dict(so, name=D('NAME')))
            if err is not None or not isinstance(v, (Str, str)):
                continue
            place = m.meta['cls'].qual + '.save'
            fam = m.meta['cls'].qual.split('.')[-2]
            R.ob('saved text', label, subject=place)
            for alt in range(3):
                presets = {}
                for turn in range(2):
                    md = Model(R, s, label, place, v, alt, presets, 20)
                    if turn == 0:
                        ps = list(md.env.syms.values())
                        rev = {k: x for k, x in zip(md.env.syms, ps[::-1])}
                    presets = rev
                    if alt and md.env.branches:
                        continue
                    if fam == 'net' and 'inline' in label:
                        check_inline_net(md, cfg)
                    for name, o in sorted(md.g.vars.items()):
                        if md.g.elements(name) is not None and md.g.elemtype(name):
                            md.equal('array', 'length', lambda g, n=name: g.declared(n), md.length(name), 'the number of values given for ' + name)
                        t = canon(md.g.type(name))
                        if t in SPEC:
                            found.setdefault(fam, set()).add(t)
                            SPEC[t](md, name, cfg)
    for fam, t in FAMILY.items():
        if t not in found.get(fam, ()):
            raise Lost('no %s in the code generated by emlearn.%s' % (t, fam))
    R.floor('saved text', 40)
    R.floor('count', 300)
    R.floor('value', 50)
    R.floor('initialiser', 100)
    R.floor('pointer', 60)
    return R.finish()
