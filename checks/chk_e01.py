"""E01: size, cost and selection helpers describe the model and the data as they are"""
import os, subprocess
from fractions import Fraction
import cc
from pyscen import *
from pyval import *
from sums import Terms, bare, add, mul, const
from report import Report, Lost

MEAN = ('numpy.mean', 'numpy.average', 'statistics.mean', 'statistics.fmean', 'numpy.nanmean')
SUM = ('sum', 'numpy.sum', 'math.fsum', 'numpy.nansum')
MAX = ('max', 'numpy.max', 'numpy.amax')
MIN = ('min', 'numpy.min', 'numpy.amin')
ITEM = {'uint8': 1, 'int8': 1, 'uint16': 2, 'int16': 2, 'float16': 2, 'uint32': 4, 'int32': 4, 'float32': 4, 'float64': 8, 'int64': 8}


def items(t):
    """the members of a list of known length"""
    t = bare(t)
    if isinstance(t, Sym) and t.op in ('list', 'tuple') and all(isinstance(a, tuple) and a[0] == 'item' for a in t.args):
        return [a[1] for a in t.args]
    return None


def call(t):
    """(name, first argument, other arguments, keywords) of a call of a function or a method"""
    t = bare(t)
    if isinstance(t, Sym) and t.op == 'call' and t.args[1]:
        return t.args[0], t.args[1][0], tuple(t.args[1][1:]), dict(t.args[2])
    if isinstance(t, Sym) and t.op == 'meth' and t.args[1] in ('mean', 'sum', 'max', 'min'):
        return 'numpy.' + t.args[1], t.args[0], tuple(t.args[2]), dict(t.args[3])
    return None


def exact(p):
    return {m: Fraction(c).limit_denominator(10 ** 9) for m, c in p.items() if c}


class Norm(Terms):
    """terms as polynomials over the depths, counts and paths of a model"""
    def __init__(self, X=None, shapes=None):
        Terms.__init__(self, self.atomic)
        self.X, self.shapes = X, shapes or {}

    def poly(self, t):
        return exact(Terms.poly(self, t))

    def total(self, xs):
        p = {}
        for x in xs:
            p = add(p, self.poly(x))
        return p

    def path(self, t):
        """the estimator whose paths through the tree for all rows these are"""
        t = bare(t)
        if isinstance(t, Sym) and t.op == 'meth' and t.args[1] == 'decision_path' and t.args[2] and bare(t.args[2][0]) is self.X:
            return t.args[0]
        return None

    def perrow(self, t):
        """the estimator, when this is the number of visited nodes of every row"""
        c = call(t)
        if c and c[0] in SUM and (c[2] == (1,) or c[3].get('axis') == 1):
            return self.path(c[1])
        if isinstance(t, Sym) and t.op == 'meth' and t.args[1] == 'getnnz' and (tuple(t.args[2]) == (1,) or dict(t.args[3]).get('axis') == 1):
            return self.path(t.args[0])
        return None

    def total_of_paths(self, t):
        c = call(t)
        if c and c[0] in SUM and not c[2] and not c[3]:
            return self.path(c[1]) or self.perrow(c[1])
        return None

    def rows(self, t):
        t = bare(t)
        if isinstance(t, Sym) and t.op in ('dim',):
            return bare(t.args[0]) is self.X and t.args[1] == 0
        if isinstance(t, Sym) and t.op == 'call' and t.args[0] == 'len':
            return bare(t.args[1][0]) is self.X
        return False

    def atomic(self, t):
        if not isinstance(t, Sym):
            return t
        c = call(t)
        if c:
            n, x, pos, kw = c
            xs = items(x)
            if n in MEAN and not pos and not kw:
                if xs:
                    return mul(self.total(xs), const(Fraction(1, len(xs))))
                e = self.perrow(x)
                if e is not None:
                    return {(Sym('nodes visited per row', e),): 1}
            if n in SUM and not kw:
                if xs is not None:
                    return add(self.total(xs), self.poly(pos[0]) if pos else {})
            if n in MAX + MIN and not kw:
                xs = [x] + list(pos) if pos and n in ('max', 'min') else xs
                if xs:
                    return {(Sym('largest' if n in MAX else 'smallest', *sorted((str(sorted(self.poly(y).items(), key=repr)) for y in xs))),): 1}
            if n == 'numpy.ptp' and xs:
                u = sorted(str(sorted(self.poly(y).items(), key=repr)) for y in xs)
                return {(Sym('largest', *u),): 1, (Sym('smallest', *u),): -1}
            if n == 'len' and xs is not None:
                return const(len(xs))
        if t.op == 'bin' and t.args[0] in ('/', '//'):
            a, b = t.args[1:]
            e = self.total_of_paths(a)
            if e is not None and self.rows(b) and t.args[0] == '/':
                return {(Sym('nodes visited per row', e),): 1}
            q = self.poly(b)
            if t.args[0] == '/' and list(q) == [()]:
                return mul(self.poly(a), const(1 / q[()]))
        if t.op == 'meth' and t.args[1] == 'get_depth':
            return {(depth(t.args[0]),): 1}
        if t.op == 'dim' and t.args[1] == 0:
            b = self.bytes(t.args[0])
            if b is not None:
                return b
        if t.op == 'attr' and t.args[1] in ('nbytes',):
            b = self.nbytes(t.args[0])
            if b is not None:
                return b
        if t.op == 'attr' and t.args[1] == 'size' or t.op == 'call' and t.args[0] == 'numpy.size':
            b = self.nbytes(Sym('meth', t.args[0] if t.op == 'attr' else t.args[1][0], 'astype', ('uint8',), ()))
            if b is not None:
                return b
        return t

    def bytes(self, t):
        t = bare(t)
        if isinstance(t, Sym) and t.op == 'meth' and t.args[1] == 'tobytes':
            return self.nbytes(t.args[0])
        return None

    def nbytes(self, a):
        size = None
        while isinstance(a, Sym):
            if a.op == 'meth' and a.args[1] == 'astype' and a.args[2]:
                d = a.args[2][0]
            elif a.op == 'call' and 'dtype' in dict(a.args[2]):
                d = dict(a.args[2])['dtype']
            else:
                d = None
            if d is not None and size is None:
                size = ITEM.get(str(d).strip('<>').replace('numpy.', '').rstrip('_'))
                if size is None:
                    return None
            if a.op == 'meth' and a.args[1] in ('astype', 'copy', 'flatten', 'ravel'):
                a = a.args[0]
            elif a.op == 'call' and a.args[0] in ('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray') and a.args[1]:
                a = a.args[1][0]
            else:
                break
        if size is None or a not in self.shapes:
            return None
        p = const(size)
        for d in self.shapes[a]:
            p = mul(p, self.poly(d))
        return p


def depth(est):
    """the atom for the depth of an estimator's tree: the same for tree_.max_depth and get_depth()"""
    n = est.args[0] if isinstance(est, Sym) and est.op == 'in' else str(est)
    return Sym('attr', D('tree0' if n == 'estimator' else str(n).replace('estimator', 'tree')), 'max_depth')


def alternatives(v):
    return [x for w in v.vals for x in alternatives(w)] if isinstance(v, Choice) else [v]


OTHER = ('numpy.median', 'numpy.std', 'numpy.var', 'numpy.prod', 'numpy.quantile', 'numpy.percentile', 'numpy.argmax', 'numpy.argmin', 'statistics.median',
         'statistics.stdev', 'math.prod', 'math.ceil', 'math.floor', 'numpy.ceil', 'numpy.floor', 'round', 'abs', 'numpy.abs', 'set', 'numpy.unique')


def known(t):
    """made up of operations with a known meaning, so a difference in form is a difference in value"""
    if isinstance(t, (tuple, list)):
        return all(known(x) for x in t)
    if not isinstance(t, Sym):
        return True
    if t.op in ('in', 'attr', 'largest', 'smallest', 'nodes visited per row'):
        return True
    if t.op == 'call':
        return t.args[0] in MEAN + SUM + MAX + MIN + OTHER + ('len', 'numpy.array', 'numpy.asarray') and known(t.args[1])
    if t.op == 'meth':
        return t.args[1] in ('decision_path', 'mean', 'sum', 'max', 'min', 'astype', 'copy') and known(t.args[0]) and known(t.args[2])
    if t.op in ('list', 'tuple'):
        return items(t) is not None and known(items(t))
    if t.op in ('bin', 'un'):
        return known(t.args[1:])
    if t.op == 'dim':
        return known(t.args[0])
    return False


def opaque(p):
    """terms whose meaning is not known to the normal form"""
    return [a for m in p for a in m if isinstance(a, Sym) and not known(a)]


def text(p):
    return ' + '.join('%s%s' % ('' if c == 1 and m else '%s*' % c if m else c, '*'.join(show(a, 4) for a in m)) for m, c in p.items()) or '0'


def compare(R, key, what, got, want, norm, where, needs=()):
    """the value equals the polynomial wanted, in every alternative; a value in an unknown form has to depend on all it needs"""
    for g in alternatives(got):
        p = norm.poly(g)
        if not add(p, exact(want), -1):
            R.ob('value in the normal form', what, subject=where)
        elif opaque(p):
            R.ob('value in another form', what, subject=where)
            seen = set(subterms(g)) if isinstance(g, Sym) else set()
            wanted = {x for n in needs for x in n}
            for x in seen:
                if x.op == 'set' and sum(1 for i in x.args if isinstance(i, tuple) and i[0] == 'item' and i[1] in wanted) > 1 or x.op == 'call' and x.args[0] == 'numpy.unique' and wanted & set(subterms(x)):
                    R.violate(key + ':set', '%s counts equal values of different trees once' % what, where)
            for n in needs:
                if not any(x in seen for x in n):
                    R.violate(key + ':needs', '%s does not depend on %s' % (what, show(n[0], 3)), where)
        else:
            R.violate(key, '%s is %s, expected %s' % (what, text(p)[:200], text(exact(want))[:200]), where)


def value(R, s, key, f, where, *args, **kw):
    v, err = s.call(f, *args, **kw)
    if err is not None:
        R.violate(key + ':raise', '%s always raises %r' % (where, err), where)
        return None
    return v


def measures(R, s):
    """number, depths and cost of the trees of a model"""
    snap = s.snapshot()
    X = D('X')
    for tn, n in (('RandomForestClassifier', 2), ('RandomForestClassifier', 3), ('ExtraTreesRegressor', 3), ('DecisionTreeClassifier', 1), ('DecisionTreeRegressor', 1)):
        norm = Norm(X)
        T = [D('tree%d' % i) for i in range(n)]
        E = [D('estimator%d' % i) for i in range(n)] if n > 1 else [D('estimator')]
        depths = [Sym('attr', t, 'max_depth') for t in T]
        ds = sorted(str(sorted(norm.poly(d).items(), key=repr)) for d in depths)
        span = {(Sym('largest', *ds),): 1, (Sym('smallest', *ds),): -1} if n > 1 else {}
        alldepths = [[d, t] for d, t in zip(depths, T)]
        for fn, args, want, needs in (
                ('count_trees', [], const(n), []),
                ('tree_depth_average', [], mul(norm.total(depths), const(Fraction(1, n))), alldepths),
                ('tree_depth_difference', [], span, alldepths),
                ('compute_cost_estimate', [X], norm.total([Sym('nodes visited per row', e) for e in E]), [[e] for e in E])):
            s.restore(snap)
            f = s.attr('evaluate.trees', fn)
            where = 'evaluate.trees.%s' % fn
            v = value(R, s, fn, f, where, trees(s, tn, n), *args)
            if v is None:
                continue
            R.ob('measure of the trees', '%s of a %s' % (fn, tn), subject=where)
            if n == 1 and fn == 'tree_depth_difference':
                d = [{(Sym('largest', *ds),): 1, (Sym('smallest', *ds),): -1}, {}]
                if any(not add(norm.poly(g), exact(w), -1) for g in alternatives(v) for w in d):
                    continue
            compare(R, fn, '%s of a %s with %d trees' % (fn, tn, n), v, want, norm, where, needs)


def sizes(R, s):
    """tables of the converted model"""
    snap = s.snapshot()
    W = s.attr('trees', 'Wrapper')
    coef = set()
    for bits, classes, itemsize in ((0, False, 1), (2, True, 1), (4, True, 1), (8, True, 1), (32, False, 4)):
        for given in (False, True):
            s.restore(snap)
            nodes = s.dims(D('nodes'), D('n_nodes'), 4, typ='array:int')
            roots = s.dims(D('roots'), D('n_roots'), typ='array:int')
            shape = (D('n_leaves'),) + ((D('n_classes'),) if classes else ())
            leaves = s.dims(D('leaves'), *shape, typ='array:int')
            em = s.obj('wrapper', 'Wrapper', {'forest_': s.lst([nodes, roots, leaves]), 'leaf_bits': bits, 'n_classes': D('n_classes'),
                                              'is_classifier': bits != 32}, cls=W)
            norm = Norm(None, {leaves: shape, nodes: (D('n_nodes'), 4), roots: (D('n_roots'),)})
            N, Lv, NS, LS = ({(D(x),): 1} for x in ('n_nodes', 'n_leaves', 'node_size', 'leaf_size'))
            stored = const(itemsize)
            for d in shape:
                stored = mul(stored, norm.poly(d))
            kw = {}
            if given:
                for k in ('node_size', 'leaf_size'):
                    s.ip.ext.typehint[D(k)] = 'int'
                    kw[k] = D(k)
            else:
                for fn, want in (('model_size_nodes', N), ('model_size_leaves', Lv)):
                    v = value(R, s, fn, s.attr('evaluate.trees', fn), 'evaluate.trees.' + fn, em)
                    if v is not None:
                        R.ob('size of a table', '%s, leaf_bits=%d' % (fn, bits), subject='evaluate.trees.' + fn)
                        compare(R, fn, '%s with leaf_bits=%d' % (fn, bits), v, want, norm, 'evaluate.trees.' + fn, [[D('nodes' if fn.endswith('nodes') else 'leaves')]])
            where = 'evaluate.trees.model_size_bytes'
            v = value(R, s, 'bytes', s.attr('evaluate.trees', 'model_size_bytes'), where, em, **kw)
            if v is None:
                continue
            R.ob('size in bytes', 'leaf_bits=%d %s' % (bits, 'given sizes' if given else 'default sizes'), subject=where)
            what = 'model_size_bytes with leaf_bits=%d%s' % (bits, ' and given sizes' if given else '')
            if given:
                vals = alternatives(v)
                want = add(mul(N, NS), mul(Lv, LS))
                ok = [g for g in vals if not add(norm.poly(g), exact(want), -1)]
                if len(vals) > 1 and ok:
                    R.ob('value in one alternative', what)       # the test for None is not decided
                    continue
                compare(R, 'bytes given', what, v, want, norm, where, [[D('node_size')], [D('leaf_size')]])
                continue
            for g in alternatives(v):
                p = norm.poly(g)
                k = p.get((D('n_nodes'),))
                if k is not None:
                    coef.add(k)
            want = add(mul(N, const(8)), stored)
            compare(R, 'bytes', what, v, want if not coef else add(mul(N, const(max(coef))), stored), norm, where, [[D('n_nodes'), D('nodes')], [D('leaves'), D('n_leaves')]])
    return coef


def structsize(R, coef):
    """a witness that compiles only when the default size of a node is that of the C structure"""
    for k in sorted(coef):
        src = '#include "eml_trees.h"\n_Static_assert(sizeof(EmlTreesNode) == %s, "size of a node");\n' % k
        r = subprocess.run(['clang', '-std=c11', '-w', '-fsyntax-only', '-I', cc.INC, '-x', 'c', '-'], input=src, text=True, capture_output=True)
        R.ob('size of the C structure', 'EmlTreesNode == %s bytes' % k, subject='EmlTreesNode')
        if r.returncode and 'static assertion failed' in r.stderr:
            R.violate('node size', 'a node is counted as %s bytes, which is not the size of EmlTreesNode' % k, 'evaluate.trees.model_size_bytes')
        elif r.returncode:
            raise Lost('EmlTreesNode: ' + r.stderr[:200])


FRAME = ('values', 'T', 'loc', 'iloc', 'shape', 'size', 'columns', 'index', 'array')
OWN = {}             # table -> values of the columns written in it
STORED = {}          # columns written in a table that is made from the given one


def named(k):
    names = items(k) or (list(k) if isinstance(k, tuple) else [k])
    return names if all(n in (D('perf'), D('cost')) or isinstance(n, str) for n in names) else None


def columns(t, sign, out, depth=0):
    """columns of the table a term is made of, with the direction in which each counts"""
    if isinstance(t, (tuple, list)):
        for x in t:
            columns(x, sign, out, depth)
    elif isinstance(t, Sym):
        if t in OWN and depth < 4:
            columns(OWN[t], sign, out, depth + 1)
        if (t.op in ('item', 'view') or t.op == 'attr' and t.args[1] not in FRAME) and len(t.args) > 1 and base(t.args[0])[0] is D('df') and named(t.args[1]):
            for n in named(t.args[1]):
                if n in STORED and depth < 4:
                    columns(STORED[n], sign, out, depth + 1)
                else:
                    out.add((n, sign))
        elif t.op == 'un' and t.args[0] == '-':
            columns(t.args[1], -sign, out, depth)
        elif t.op == 'bin' and t.args[0] == '-':
            columns(t.args[1], sign, out, depth)
            columns(t.args[2], -sign, out, depth)
        elif t.op == 'bin' and t.args[0] == '*':
            neg = any(isinstance(a, (int, float)) and a < 0 for a in t.args[1:])
            columns(t.args[1:], -sign if neg else sign, out, depth)
        elif t.op == 'call' and t.args[0] == 'numpy.negative':
            columns(t.args[1], -sign, out, depth)
        else:
            columns([a for a in t.args if isinstance(a, (Sym, tuple))], sign, out, depth)
    return out


FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
NEG = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}


def rule(v):
    """(quantifier, comparison, axis, points compared, with which point) of the test that keeps a point"""
    neg = False
    while isinstance(v, Sym) and (v.op == 'un' and v.args[0] in ('~', 'not') or v.op == 'not' or v.op == 'call' and v.args[0] in ('numpy.logical_not', 'numpy.invert')):
        v = v.args[1][0] if v.op == 'call' else v.args[-1]
        neg = not neg
    if not isinstance(v, Sym):
        return None
    if v.op == 'call' and v.args[0] in ('numpy.any', 'numpy.all') and v.args[1]:
        q, x, ax = v.args[0][6:], v.args[1][0], dict(v.args[2]).get('axis', v.args[1][1] if len(v.args[1]) > 1 else None)
    elif v.op == 'meth' and v.args[1] in ('any', 'all'):
        q, x, ax = v.args[1], v.args[0], dict(v.args[3]).get('axis', v.args[2][0] if v.args[2] else None)
    else:
        return None
    if not (isinstance(x, Sym) and x.op == 'cmp' and x.args[0] in FLIP):
        return None
    op, a, b = x.args
    each = lambda t: isinstance(t, Sym) and (t.op == 'elem' or t.op in ('item', 'view') and isinstance(t.args[-1], Sym) and t.args[-1].op == 'idx')
    if each(a) and not each(b):
        op, a, b = FLIP[op], b, a
    if not each(b) or each(a):
        return None
    if neg:
        q, op = {'any': 'all', 'all': 'any'}[q], NEG[op]
    return q, op, ax, a, b


def base(t):
    """the table rows were selected from, and the selections"""
    sel = []
    while isinstance(t, Sym):
        if t.op == 'meth' and t.args[1] in ('copy', 'reset_index'):
            t = t.args[0]
        elif t.op in ('item', 'view') and len(t.args) > 1:
            sel.append(t.args[1])
            t = t.args[0]
        elif t.op == 'attr' and t.args[1] in ('loc', 'iloc'):
            t = t.args[0]
        else:
            break
    return t, sel


def limits(t, out):
    """comparisons of the performance with the minimum, not looking into the test for the front"""
    if isinstance(t, Sym):
        if t.op == 'cmp' and t.args[0] in FLIP and any(x is D('minimum') for x in t.args[1:]):
            out.append(t)
        elif t.op in ('bin', 'un', 'not', 'call', 'bool'):
            for a in t.args:
                limits(a, out)
    elif isinstance(t, (tuple, list)):
        for a in t:
            limits(a, out)
    return out


def pareto(R, s):
    snap = s.snapshot()
    s.ip.ext.typehint[D('minimum')] = 'float'
    where = 'evaluate.pareto.find_pareto_front'
    f = s.attr('evaluate.pareto', 'find_pareto_front')
    for higher in (True, False):
        for mini in (False, True):
            s.restore(snap)
            n = len(s.ip.events)
            what = 'higher_is_better=%s%s' % (higher, ' min_performance' if mini else '')
            v, err = s.call(f, D('df'), cost_metric=D('cost'), performance_metric=D('perf'), higher_is_better=higher, **({'min_performance': D('minimum')} if mini else {}))
            if err is not None:
                R.violate('front:raise', 'find_pareto_front always raises %r' % (err,), where)
                continue
            ev = s.ip.events[n:]
            got = []
            for g in alternatives(v):
                b, sel = base(g)
                R.ob('rows returned', what, subject=where)
                if b is not D('df'):
                    R.ob('result in another form', what)
                got.append((b, sel))
            # the table handed in, and the copy that is returned, keep their values
            copies = sum(1 for e in ev if e.kind == 'methcall' and e.name == 'copy' and e.target is D('df'))
            for e in ev:
                t = e.__dict__.get('target')
                if e.kind == 'mutate' and isinstance(t, Sym):
                    b, sel = base(t)
                    if b is not D('df'):
                        continue
                    R.ob('store into a table', '%s:%s' % e.loc[:2])
                    if t is D('df'):
                        R.violate('caller', "the caller's table is modified (%s)" % show(e.__dict__.get('key'), 3), '%s:%s' % e.loc[:2])
                    elif copies < 2 and any(x is t for g in alternatives(v) for x in subterms(base_chain(g))):
                        R.violate('rows', 'the rows returned do not keep their values: %s is written' % show(e.__dict__.get('key'), 3), '%s:%s' % e.loc[:2])
            STORED.clear()
            STORED.update((e.key, e.value) for e in ev if e.kind == 'mutate' and hasattr(e, 'key') and hasattr(e, 'value') and isinstance(e.key, (str, Sym)))
            OWN.clear()
            for e in ev:
                if e.kind == 'mutate' and isinstance(e.__dict__.get('target'), Sym) and isinstance(e.__dict__.get('value'), Sym):
                    OWN[e.target] = OWN.get(e.target, ()) + (e.value,)
            # which rows
            tests = [r for r in (rule(x) for e in ev if e.kind == 'arrstore' for x in [e.value]) if r]
            R.ob('test that keeps a point recognised' if tests else 'front computed in another form', what, subject='evaluate.pareto.is_pareto_efficient_simple')
            for q, op, ax, pts, pt in tests:
                loc = 'evaluate.pareto.is_pareto_efficient_simple'
                cols = columns(pts, 1, set())
                if q != 'any' or ax not in (1, -1):
                    R.violate('test', 'a point is kept when it is better in %s of the costs (axis %s), not in any' % (q, ax), loc)
                if op in ('<=', '>='):
                    R.violate('strict', 'a point that only equals another is kept although it is dominated (comparison %s)' % op, loc)
                sg = 1 if op in ('<', '<=') else -1
                want = {(D('perf'), -1 if higher else 1), (D('cost'), 1)}
                have = {(c, x * sg) for c, x in cols if c in (D('perf'), D('cost'))}
                if have and have != want:
                    R.violate('direction', 'with higher_is_better=%s the front is computed with %s' % (
                        higher, ', '.join('%s %s' % ('lower' if x > 0 else 'higher', show(c)) for c, x in sorted(have, key=str))), where)
            terms = list(alternatives(v)) + [x for x in STORED.values() if isinstance(x, Sym)]
            dep = any(x is D('perf') for g in terms for x in subterms(g)), any(x is D('cost') for g in terms for x in subterms(g))
            if not all(dep):
                R.violate('front needs', 'the rows returned do not depend on the %s metric' % ('cost' if dep[0] else 'performance'), where)
            if mini:
                cut = [limits(sel, []) for b, sel in got]
                R.ob('minimal performance', what, subject=where)
                # with the test for None undecided one alternative has no limit
                if not any(cut) and not any(x is D('minimum') for g in alternatives(v) for x in subterms(g)):
                    R.violate('minimum', 'min_performance has no effect on the rows returned', where)
                for c in [c for cs in cut for c in cs]:
                    op, a, b = c.args
                    if a is D('minimum'):
                        op, a, b = FLIP[op], b, a
                    cols = columns(a, 1, set())
                    if len(cols) == 1 and b is D('minimum'):
                        (col, sg), = cols
                        w = '>=' if higher else '<='
                        if col is not D('perf') or sg > 0 and op != w or sg < 0:
                            R.violate('minimum direction', 'with higher_is_better=%s the rows kept have %s%s %s min_performance' % (
                                higher, '-' if sg < 0 else '', show(col), op), where)


def base_chain(t):
    """only the tables, without the conditions of the selections"""
    while isinstance(t, Sym) and (t.op == 'meth' and t.args[1] in ('copy', 'reset_index') and base(t)[0] is not t) and base(t.args[0])[1]:
        t = t.args[0]
    b = t
    while isinstance(b, Sym) and b.op in ('item', 'view') and len(b.args) > 1:
        b = b.args[0]
    return b if isinstance(b, Sym) else Sym('none')


def programs(R, s):
    """flash and RAM from the sections of a program"""
    m = s.ip.import_module('emlearn.evaluate.size')
    if s.ip.get(m.frame.id, 'parse_binutils_size_a_output') is UNDEF:
        R.ob('parser of the sections not recognised', m.name)
        return
    SEC = {x: D('section' + x) for x in ('.text', '.data', '.rodata', '.bss')}
    def sections(*a, **k):
        return s.ip.new_dict([(k, v) for k, v in SEC.items()], ())
    s.ip.put(m.frame.id, 'parse_binutils_size_a_output', Native(sections))
    where = 'evaluate.size.run_binutils_size'
    v = value(R, s, 'sections', s.attr('evaluate.size', 'run_binutils_size'), where, D('elf'), D('binary'))
    f = s.ip.freeze(v) if v is not None else None
    got = {a[0]: a[1] for a in f.args if len(a) == 2} if isinstance(f, Sym) and f.op == 'dict' else {}
    norm = Norm()
    for k, want in (('flash', ('.text', '.data', '.rodata')), ('ram', ('.data', '.bss'))):
        R.ob('sections of a memory', k, subject=where)
        if k not in got:
            R.violate('memory:' + k, 'no %s size is returned' % k, where)
            continue
        compare(R, 'memory:' + k, 'the %s size' % k, got[k], norm.total([SEC[x] for x in want]), norm, where, [[SEC[x]] for x in want])


def run():
    R = Report('E01', 'Evaluation helpers.  They are evaluated by an abstract interpreter on models, tables and sizes with unknown contents; the resulting terms are brought into a '
               'normal form (polynomials over the depths, the nodes visited and the lengths of the tables) and compared with what is documented.  A term outside the normal form '
               'has to depend on every tree or table.  For the Pareto front: the rows are a selection from the table, nothing is stored into it, each column counts in the right '
               'direction, the test that keeps a point is "strictly better in any cost", and the minimum is compared in the same direction.',
               ['numpy, pandas and scikit-learn functions compute what they document', 'decision_path marks the nodes visited'])
    s = Session().load('', *FAMILIES)
    for m, n in (('trees', 'count_trees'), ('pareto', 'find_pareto_front'), ('size', 'run_binutils_size')):
        s.attr('evaluate.' + m, n)
    snap = s.snapshot()
    measures(R, s)
    s.restore(snap)
    coef = sizes(R, s)
    structsize(R, coef)
    s.restore(snap)
    pareto(R, s)
    s.restore(snap)
    programs(R, s)
    R.floor('measure of the trees', 20)
    R.floor('value in the normal form', 15)
    R.floor('rows returned', 4)
    return R.finish()
