"""Where the numbers of a generated text end up: every literal with the C types it is converted to."""
from pyval import *
import pyinst, pygen


class OwnEnv(pyinst.Env):
    """every number that depends on the model gets a literal of its own"""

    def hole(self, h):
        v = h.value
        if isinstance(v, (Str, str)) and not h.spec or isinstance(v, Sym) and v.op == 'cut':
            return super().hole(h)
        k = self.kind(h)
        if k == 'str' or isinstance(v, (int, float)) and not isinstance(v, bool):
            return super().hole(h)
        key = (v, h.conv, h.spec, h.facts)
        own = self.__dict__.setdefault('own', {})
        if key not in own:
            self.n += 1
            own[key] = str(1000000 + self.n) if k == 'int' else '%d.5' % (2000000 + self.n)
            self.lit[own[key]] = h
        return own[key]


def uses(gen):
    """(owner, field or None, [C types from the outermost conversion in], negated, value, Hole|None) of every literal"""
    out = []
    fs = pygen.fields()

    def ty(o):
        t = o.get('type', {})
        return t.get('qualType', ''), t.get('desugaredQualType', t.get('qualType', ''))

    def number(n):
        while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ConstantExpr', 'CStyleCastExpr') and n.get('inner'):
            n = n['inner'][0]
        if n.get('kind') == 'IntegerLiteral':
            s = str(n['value'])
            return None if s in gen.env.lit else int(s)
        if n.get('kind') == 'BinaryOperator' and n.get('opcode') in ('<<', '*', '+', '-'):
            a, b = number(n['inner'][0]), number(n['inner'][1])
            if a is None or b is None:
                return None
            return {'<<': lambda: a << b, '*': lambda: a * b, '+': lambda: a + b, '-': lambda: a - b}[n['opcode']]()
        return None

    def go(n, owner, field, types, neg):
        k = n.get('kind')
        if k in ('IntegerLiteral', 'FloatingLiteral'):
            v = gen.value(n)
            out.append((owner, field, types + [ty(n)[0]], neg, v[1], v[2]))
            return
        ins = n.get('inner', ())
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            for x in ins:
                go(x, owner, field, types + [ty(n)[0]], neg)
            return
        if k in ('ParenExpr', 'ConstantExpr'):
            for x in ins:
                go(x, owner, field, types, neg)
            return
        if k == 'UnaryOperator' and n.get('opcode') in ('-', '+'):
            go(ins[0], owner, field, types, neg ^ (n['opcode'] == '-'))
            return
        if k == 'InitListExpr':
            t = ty(n)[0].replace('const ', '').replace('struct ', '').strip()
            if 'array_filler' in n and not ins:
                ins = n['array_filler']
            f = fs.get(t)
            for i, x in enumerate(ins):
                if f and i < len(f):
                    go(x, owner, t + '.' + f[i][0], ['=' + f[i][1]], False)
                else:
                    go(x, owner, field, ['=' + t.split('[')[0].strip()], False)
            return
        if k == 'BinaryOperator' and n.get('opcode') == '*' and len(ins) == 2:
            c = [number(x) for x in ins]
            for i in (0, 1):
                if c[i] is not None and c[1 - i] is None:
                    go(ins[1 - i], owner, field, types + [('*', c[i])], neg)
                    return
        if k == 'VarDecl':
            # a value of the type of the variable
            if ins and ins[-1].get('kind') != 'InitListExpr' and '[' not in ty(n)[0]:
                for x in ins:
                    go(x, n.get('name'), n.get('name'), ['=' + ty(n)[0]], False)
                return
            owner = n.get('name')
        if k == 'FunctionDecl':
            owner = n.get('name')
        for x in ins:
            if isinstance(x, dict):
                go(x, owner, None, [], False)
    for o in list(gen.vars.values()) + list(gen.funcs.values()):
        go(o, o.get('name'), None, [], False)
    return out


# ---------------------------------------------------------------- intervals from path facts
import math
INF = float('inf')
FLT_MAX = 3.4028234663852886e38
SAME = ('int', 'float', 'numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.asanyarray', 'list', 'tuple', 'numpy.int64', 'numpy.int32', 'numpy.float64', 'numpy.concatenate', 'numpy.stack',
        'numpy.hstack', 'numpy.ravel', 'numpy.squeeze', 'numpy.atleast_1d', 'str', 'repr', 'operator.index', 'numpy.intp', 'sorted')
SHAPE = ('flatten', 'ravel', 'reshape', 'copy', 'tolist', 'item', 'squeeze', 'transpose')
WIDTH = {'uint8': (0, 255), 'int8': (-128, 127), 'uint16': (0, 65535), 'int16': (-32768, 32767), 'int32': (-2**31, 2**31 - 1), 'uint32': (0, 2**32 - 1), 'int64': (-2**63, 2**63 - 1), 'bool': (0, 1), 'bool_': (0, 1)}
MAXES, MINS = ('numpy.max', 'numpy.amax', 'max', 'numpy.nanmax'), ('numpy.min', 'numpy.amin', 'min', 'numpy.nanmin')


def dtypename(a):
    s = a if isinstance(a, str) else repr(a)
    s = s.strip("<>'\"").split('.')[-1]
    return {'float': 'float64', 'int': 'int64'}.get(s, s)


class Range:
    """bounds of terms, from comparisons on the path"""

    def __init__(self, facts, known=(), atconv=None):
        self.atconv = atconv or {}
        self.facts = facts
        self.b = {}
        self.rel = []
        self.used = None
        self.wraps = []             # integer conversions whose operand may be outside the type
        self.known = known
        for f in facts:
            if not isinstance(f, Sym) or f.op != 'cmp' or len(f.args) != 3:
                continue
            op, x, y = f.args
            if op == '==' and isinstance(y, (int, float)):
                self.add(x, y, y)
            if op in ('<', '<=', '>', '>='):
                if isinstance(x, (int, float)):
                    x, y, op = y, x, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
                if isinstance(y, (int, float)) and not isinstance(y, bool):
                    k = y
                    if op == '<':
                        self.add(x, -INF, math.nextafter(k, -INF))
                    elif op == '<=':
                        self.add(x, -INF, k)
                    elif op == '>':
                        self.add(x, math.nextafter(k, INF), INF)
                    else:
                        self.add(x, k, INF)
                elif self.struct(y, 0)[0] == self.struct(y, 0)[1] if isinstance(y, Sym) and y.op == 'attr' else False:
                    k = self.struct(y, 0)[0]
                    self.add(x, -INF if op[0] == '<' else k, k if op[0] == '<' else INF)
                else:
                    self.rel.append((op, x, y) if op[0] == '<' else (op.replace('>', '<'), y, x))

    def add(self, t, lo, hi, depth=0):
        if depth > 8:
            return
        if isinstance(t, Choice):
            for x in t.vals:
                self.add(x, lo, hi, depth + 1)
            return
        if isinstance(t, (tuple, list)):
            for x in t:
                self.add(x, lo, hi, depth + 1)
            return
        if not isinstance(t, Sym):
            return
        a, b = self.b.get(t, (-INF, INF))
        self.b[t] = (max(a, lo), min(b, hi))
        if t.op == 'choice':
            for x in t.args:
                self.add(x, lo, hi, depth + 1)
        elif t.op == 'call' and t.args[1]:
            n, a = t.args[0], t.args[1]
            if n.split('.')[-1] in ('abs', 'fabs', 'absolute') and hi < INF:
                self.add(a[0], -hi, hi, depth + 1)
            elif n in MAXES and len(a) == 1 and hi < INF:
                self.add(a[0], -INF, hi, depth + 1)
            elif n in MINS and len(a) == 1 and lo > -INF:
                self.add(a[0], lo, INF, depth + 1)
            elif n in MAXES and hi < INF:
                for x in a:
                    self.add(x, -INF, hi, depth + 1)
            elif n in MINS and lo > -INF:
                for x in a:
                    self.add(x, lo, INF, depth + 1)
            elif n in SAME:
                self.add(a[0], lo if n != 'int' else -INF, hi if n != 'int' else INF, depth + 1)
        elif t.op == 'meth' and t.args[1] == 'max' and not t.args[2] and hi < INF:
            self.add(t.args[0], -INF, hi, depth + 1)
        elif t.op == 'meth' and t.args[1] == 'min' and not t.args[2] and lo > -INF:
            self.add(t.args[0], lo, INF, depth + 1)
        elif t.op == 'meth' and t.args[1] in SHAPE:
            self.add(t.args[0], lo, hi, depth + 1)
        elif t.op == 'arr' and len(t.args) > 3 and isinstance(t.args[3], tuple):
            for w in t.args[3]:
                if isinstance(w, tuple) and len(w) >= 2:
                    self.add(w[1], lo, hi, depth + 1)
        elif t.op == 'list':
            for s in t.args:
                self.segs(s, lo, hi, depth + 1)
        elif t.op == 'item' and isinstance(t.args[0], Sym) and t.args[0].op == 'call' and t.args[0].args[0] in ('numpy.unique', 'numpy.sort', 'sorted') and t.args[1] in (0, -1):
            # the first or last of the sorted values
            self.add(t.args[0].args[1][0], lo if t.args[1] == 0 else -INF, hi if t.args[1] == -1 else INF, depth + 1)
        elif t.op in ('elem',):
            self.elemof(t.args[0], lo, hi)

    def elemof(self, x, lo, hi):
        """a comparison made with every element of x"""
        k = ('each', x)
        a, b = self.b.get(k, (-INF, INF))
        self.b[k] = (max(a, lo), min(b, hi))

    def segs(self, s, lo, hi, depth):
        if isinstance(s, tuple) and s:
            if s[0] == 'item':
                self.add(s[1], lo, hi, depth)
            elif s[0] in ('rep', 'alt'):
                for x in s[1]:
                    self.segs(x, lo, hi, depth)

    def of(self, t, depth=0):
        if isinstance(t, bool):
            return (int(t), int(t))
        if isinstance(t, (int, float)):
            return (t, t)
        if isinstance(t, Choice):
            rs = [self.of(x, depth + 1) for x in t.vals]
            return (min(r[0] for r in rs), max(r[1] for r in rs))
        if not isinstance(t, Sym) or depth > 30:
            return (-INF, INF)
        lo, hi = self.struct(t, depth)
        a, b = self.b.get(t, (-INF, INF))
        lo, hi = max(lo, a), min(hi, b)
        if depth < 6:
            for op, x, y in self.rel:
                if x is t:
                    hi = min(hi, self.of(y, depth + 6)[1])
                if y is t:
                    lo = max(lo, self.of(x, depth + 6)[0])
        return lo, hi

    def whole(self, x, depth):
        """bounds of every element of x"""
        lo, hi = self.b.get(('each', x), (-INF, INF))
        a, b = self.of(x, depth + 1) if isinstance(x, (Sym, Choice)) else (-INF, INF)
        return max(lo, a), min(hi, b)

    def finite(self, v):
        """a fact says that all of v is finite"""
        isnot = set()
        for f in self.facts:
            neg = isinstance(f, Sym) and f.op == 'not'
            c = f.args[0] if neg else f
            if isinstance(c, Sym) and c.op == 'call' and c.args[1]:
                n, a = c.args[0].split('.')[-1], c.args[1][0]
                hit = a is v or isinstance(a, Choice) and any(x is v for x in a.vals) or isinstance(a, Sym) and (
                    a.op == 'choice' and any(x is v for x in a.args) or a.op == 'call' and a.args[0].endswith('float32') and a.args[1] and a.args[1][0] is v)
                if hit and not neg and n == 'isfinite':
                    return True
                if hit and neg and n in ('isinf', 'isnan'):
                    isnot.add(n)
        if len(isnot) == 2:
            return True
        lo, hi = self.of(v)
        return -FLT_MAX <= lo and hi <= FLT_MAX

    def wrap(self, t, r, w):
        if w is None or w[0] <= r[0] and r[1] <= w[1]:
            return r
        if w[1] < 2**62:
            if t in self.atconv and self.atconv is not self.used:
                q = Range(self.atconv[t], self.known)
                q.used = q.atconv
                l, h = q.whole(t.args[0], 0)
                if w[0] <= l and h <= w[1]:
                    return max(r[0], l), min(r[1], h)
            self.wraps.append(t)
        return w

    def struct(self, t, depth):
        for k in self.known:
            r = k(self, t, depth)
            if r is not None:
                return r
        o, a = t.op, t.args
        of = lambda x: self.of(x, depth + 1)
        if o in ('choice', 'mix'):
            rs = [of(x) for x in a]
            return (min(r[0] for r in rs), max(r[1] for r in rs)) if rs and o == 'choice' else (-INF, INF)
        if o in ('dim', 'size', 'altlen', 'seglen', 'idx', 'rank', 'shape', 'len'):
            return (0, INF)
        if o in ('elem', 'item', 'view', 'setelem'):
            if o == 'item' and isinstance(a[0], Sym) and a[0].op == 'shape':
                return (0, INF)
            if o == 'elem' and isinstance(a[0], Sym) and a[0].op == 'range':
                l, h, s = a[0].args[:3]
                if s == 1:
                    return (of(l)[0], of(h)[1] - 1)
                return (-INF, INF)
            return self.whole(a[0], depth)
        if o == 'list':
            out = []

            def seg(s):
                if isinstance(s, tuple) and s:
                    if s[0] == 'item':
                        out.append(of(s[1]))
                    elif s[0] in ('rep', 'alt'):
                        for x in s[1]:
                            for y in (x if isinstance(x, tuple) and x and isinstance(x[0], tuple) else (x,)):
                                seg(y)
                    else:
                        out.append((-INF, INF))
            for s in a:
                seg(s)
            return (min(r[0] for r in out), max(r[1] for r in out)) if out else (-INF, INF)
        if o == 'attr' and isinstance(a[0], Sym) and a[0].op == 'call' and a[0].args[0] == 'numpy.finfo' and a[1] in ('max', 'min'):
            m = {'float32': 3.4028234663852886e38, 'float16': 65504.0, 'float64': 1.7976931348623157e308}.get(dtypename(a[0].args[1][0]))
            if m:
                m = m if a[1] == 'max' else -m
                return (m, m)
        if o == 'un' and a[0] == '-':
            l, h = of(a[1])
            return (-h, -l)
        if o == 'bin':
            (l, h), (m, n) = of(a[1]), of(a[2])
            if a[0] == '+':
                return (l + m, h + n)
            if a[0] == '-':
                return (l - n, h - m)
            if a[0] == '*':
                ps = [0 if 0 in (x, y) else x * y for x in (l, h) for y in (m, n)]
                return (min(ps), max(ps))
            if a[0] == '/' and m == n and m not in (0, INF, -INF):
                return (min(l / m, h / m), max(l / m, h / m))
            if a[0] == '&' and (m >= 0 or l >= 0):
                return (0, min(x for x, y in ((h, l), (n, m)) if y >= 0))
            if a[0] == '%' and m == n and 0 < m < INF:
                return (0, m - (1 if isinstance(m, int) else 0))
            if a[0] == '//' and m == n and 0 < m < INF:
                return (l if l == -INF else l // m, h if h == INF else h // m)
            return (-INF, INF)
        if o == 'call' and a[1]:
            n, x = a[0], a[1]
            last = n.split('.')[-1]
            if n in SAME or last in ('float32', 'longdouble'):
                l, h = of(x[0])
                if n == 'int':
                    l = l if l in (-INF, INF) else math.trunc(l) if l >= 0 or l == int(l) else math.trunc(l)
                    h = h if h in (-INF, INF) else math.trunc(h)
                return (l, h)
            if last in ('floor', 'trunc', 'ceil', 'round', 'rint', 'fix', 'around'):
                l, h = of(x[0])
                return (l if l == -INF else math.floor(l), h if h == INF else (math.floor(h) if last in ('floor', 'trunc', 'fix') and h >= 0 else math.ceil(h)))
            if last in ('abs', 'fabs', 'absolute'):
                l, h = of(x[0])
                return (0, max(abs(l), abs(h)))
            if last in ('argmax', 'argmin', 'argsort', 'count_nonzero', 'len'):
                return (0, INF)
            if n in ('min', 'numpy.minimum') and len(x) > 1:
                rs = [of(y) for y in x]
                return (min(r[0] for r in rs), min(r[1] for r in rs))
            if n in ('max', 'numpy.maximum') and len(x) > 1:
                rs = [of(y) for y in x]
                return (max(r[0] for r in rs), max(r[1] for r in rs))
            if n in MAXES + MINS and len(x) == 1:
                return self.whole(x[0], depth)
            if last == 'clip' and len(x) >= 3:
                return (of(x[1])[0] if x[1] is not None else -INF, of(x[2])[1] if x[2] is not None else INF)
            if last in WIDTH:
                return self.wrap(t, of(x[0]), WIDTH[last])
            return (-INF, INF)
        if o == 'meth':
            m = a[1]
            if m in SHAPE:
                return self.whole(a[0], depth)
            if m == 'tobytes':
                self.whole(a[0], depth)         # for the conversions in it
                b = a[0]
                while isinstance(b, Sym) and b.op == 'meth' and b.args[1] in SHAPE:
                    b = b.args[0]
                if isinstance(b, Sym) and b.op == 'meth' and b.args[1] == 'astype' and dtypename(b.args[2][0]) in ('float32', 'float16', 'single', 'half') and not self.finite(b):
                    self.wraps.append(b)
                return (0, 255)
            if m == 'astype' and a[2]:
                w = WIDTH.get(dtypename(a[2][0]))
                return self.wrap(t, self.whole(a[0], depth), w)
            if m in ('max', 'min'):
                return self.whole(a[0], depth)
            if m == 'clip' and len(a[2]) >= 2:
                return (of(a[2][0])[0], of(a[2][1])[1])
            return (-INF, INF)
        return (-INF, INF)
