"""Turns a generated text with unknowns into one C text a compiler front end can read.

Dimensions of the model become distinct primes, counts computed from them are evaluated, every other unknown number becomes a literal of its own,
repeated parts are repeated as often as their count says.  The literals lead back from the C syntax tree to the terms over the model."""
from pyval import *

PRIMES = [p for p in range(2, 800) if all(p % q for q in range(2, p))]


class Env:
    """dims='primes' or a fixed number used for every dimension"""

    def __init__(self, ip, alt=0, dims=None, small=False, cap=None, presets=None, base=20):
        self.ip, self.alt, self.fixed, self.small, self.cap = ip, alt, dims, small, cap
        self.base = base
        self.markexpr = False
        self.marks = None           # list: texts of recursive calls are marked
        self.capped = False         # a repeated part was cut short
        self.branches = False       # lengths depend on a branch taken per element; only alternative 0 is coherent
        self.syms = {}
        self.atoms = {}
        self.lit = {}           # literal text -> Hole
        self.n = 0
        self.presets = presets or {}
        self.names = {}

    # ---- numbers
    def atom(self, t):
        if t not in self.atoms:
            self.atoms[t] = self.fixed if self.fixed else PRIMES[self.base + len(self.atoms)]
        return self.atoms[t]

    def dim(self, t):
        if t in self.presets:
            return self.presets[t]
        if t not in self.syms:
            self.syms[t] = self.fixed if self.fixed else PRIMES[len(self.syms)]
        return self.syms[t]

    def shape(self, x):
        ext = self.ip.ext
        if isinstance(x, Sym):
            if x in ext.shapes:
                return [self.num(d) for d in ext.shapes[x]]
            if x.op == 'elem' and not (isinstance(x.args[0], Sym) and x.args[0].op == 'range'):
                s = self.shape(x.args[0])
                return s[1:] if s else None
            if x.op == 'item':
                s = self.shape(x.args[0])
                if s is None:
                    return None
                ks = x.args[1] if isinstance(x.args[1], tuple) else (x.args[1],)
                out = []
                for k, n in zip(ks, s):
                    if isinstance(k, Sym) and k.op == 'slice':
                        lo, hi, st = (list(k.args) + [None] * 3)[:3]
                        lo, hi, st = (None if z is None else self.num(z) for z in (lo, hi, st))
                        out.append(len(range(*slice(lo, hi, st).indices(n))))
                    elif k is None or isinstance(k, Sym) and self.shape(k):
                        return None
                return out + s[len(ks):]
            if x.op == 'meth':
                if x.args[1] in ('copy', 'astype', 'round', 'clip', 'tolist'):
                    return self.shape(x.args[0])
                if x.args[1] == 'tobytes':
                    s = self.shape(x.args[0])
                    w = itemsize(x.args[0])
                    return None if s is None or w is None else [prod(s) * w]
                if x.args[1] in ('flatten', 'ravel'):
                    s = self.shape(x.args[0])
                    return None if s is None else [prod(s)]
                if x.args[1] == 'transpose':
                    s = self.shape(x.args[0])
                    ax = x.args[2][0] if len(x.args[2]) == 1 and isinstance(x.args[2][0], tuple) else x.args[2]
                    if s is None or ax and sorted(a for a in ax if isinstance(a, int)) != list(range(len(s))):
                        return None
                    return [s[a] for a in ax] if ax else s[::-1]
                if x.args[1] == 'reshape':
                    s = self.shape(x.args[0])
                    ks = x.args[2][0] if len(x.args[2]) == 1 and isinstance(x.args[2][0], tuple) else x.args[2]
                    if s is None or not ks or not all(isinstance(k, (int, Sym)) for k in ks):
                        return None
                    ks = [self.num(k) for k in ks]
                    if ks.count(-1) == 1:
                        rest = prod([k for k in ks if k != -1])
                        ks = [prod(s) // rest if k == -1 and rest else k for k in ks]
                    return ks
            if x.op == 'attr' and x.args[1] == 'T':
                s = self.shape(x.args[0])
                return None if s is None else s[::-1]
            if x.op == 'call' and x.args[1]:
                n = x.args[0]
                if n in ('numpy.array', 'numpy.asarray') and isinstance(x.args[1][0], Sym) and x.args[1][0].op == 'list':
                    c, e = self.listlen(x.args[1][0])
                    s = self.shape(e) if isinstance(e, Sym) else [] if isinstance(e, (int, float)) else None
                    return None if c is None or s is None else [c] + s
                if n.endswith('._compute_log_det_cholesky'):
                    s = self.shape(x.args[1][0])
                    return s[:1] if s else None
                if n in ('numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.float32', 'numpy.sqrt', 'numpy.log2', 'numpy.log', 'numpy.abs', 'numpy.round', 'numpy.clip'):
                    return self.shape(x.args[1][0])
                if n in ('numpy.ravel',):
                    s = self.shape(x.args[1][0])
                    return None if s is None else [prod(s)]
                if n == 'numpy.transpose':
                    s = self.shape(x.args[1][0])
                    return None if s is None else s[::-1]
                if n in ('numpy.eye', 'numpy.identity'):
                    a = self.num(x.args[1][0])
                    b = self.num(x.args[1][1]) if len(x.args[1]) > 1 else a
                    return [a, b]
                if n == 'numpy.diag':
                    s = self.shape(x.args[1][0])
                    return None if s is None else [s[0], s[0]] if len(s) == 1 else [min(s)]
                if n in ('numpy.stack',):
                    l = x.args[1][0]
                    c, e = self.listlen(l)
                    s = self.shape(e) if e is not None else None
                    return None if s is None or c is None else [c] + s
            if x.op == 'bin':
                a, b = self.shape(x.args[1]), self.shape(x.args[2])
                return a if a and (not b or len(a) >= len(b)) else b
            if x.op == 'un':
                return self.shape(x.args[1])
            if x.op == 'choice':
                return self.shape(x.args[0])
            if x.op == 'arr' and isinstance(x.args[1], tuple):
                return [self.num(d) for d in x.args[1]]
            if x.op == 'view':
                return self.shape(x.args[0])
        return None

    def listlen(self, l):
        """length and one element of a frozen list term"""
        if isinstance(l, Sym) and l.op == 'list':
            n, e = 0, None
            for a in l.args:
                if isinstance(a, tuple) and a and a[0] == 'alt':
                    self.branches = True
                    c, e1 = self.listlen(Sym('list', *a[1][self.alt % len(a[1])]))
                    n += c if c is not None else 0
                    e = e if e is not None else e1
                elif isinstance(a, tuple) and a and a[0] == 'rep':
                    c, e1 = self.listlen(Sym('list', *a[1]))
                    n += (c if c is not None else 0) * self.num(a[2])
                    e = e if e is not None else e1
                elif isinstance(a, tuple) and a and a[0] == 'item':
                    n += 1
                    e = e if e is not None else a[1]
                else:
                    n += 1
                    e = e if e is not None else a
            return n, e
        return None, None

    def num(self, t):
        if isinstance(t, bool):
            return int(t)
        if isinstance(t, (int, float)):
            return int(t)
        if isinstance(t, Choice):
            return self.num(t.vals[self.alt % len(t.vals)])
        if not isinstance(t, Sym):
            return self.atom(str(t))
        if t in self.presets:
            return self.presets[t]
        if t.op == 'in':
            return self.dim(t)
        if t.op == 'dim' and isinstance(t.args[1], int):
            d = self.ip.ext.dim(t.args[0], t.args[1])
            if isinstance(d, Sym) and d.op == 'dim':
                s = self.shape(d.args[0])
                if s is not None and -len(s) <= d.args[1] < len(s):
                    return s[d.args[1]]
                return self.atom(d)
            return self.num(d)
        if t.op == 'size':
            s = self.shape(t.args[0])
            return prod(s) if s is not None else self.atom(t)
        if t.op == 'bin':
            a, b = self.num(t.args[1]), self.num(t.args[2])
            o = t.args[0]
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '//': lambda: a // b, '%': lambda: a % b, '**': lambda: a ** b,
                        '<<': lambda: a << b, '/': lambda: a // b}[o]()
            except (KeyError, ZeroDivisionError, ValueError):
                return self.atom(t)
        if t.op == 'un' and t.args[0] in '+-':
            a = self.num(t.args[1])
            return -a if t.args[0] == '-' else a
        if t.op == 'call' and t.args[0] in ('int', 'len', 'float', 'numpy.int32', 'numpy.int64') and len(t.args[1]) == 1:
            x = t.args[1][0]
            if t.args[0] != 'len':
                return self.num(x)
            s = self.shape(x)
            if s:
                return s[0]
            n, e = self.listlen(x)
            return n if n is not None else self.atom(t)
        if t.op == 'call' and t.args[0] in ('max', 'min', 'numpy.max', 'numpy.min', 'numpy.prod', 'sum'):
            vs = []
            for a in t.args[1]:
                if isinstance(a, Sym) and a.op == 'list' or isinstance(a, tuple):
                    vs += [self.num(x) for x in (a.args if isinstance(a, Sym) else a) if not (isinstance(x, tuple))]
                else:
                    vs.append(self.num(a))
            if vs:
                f = t.args[0].split('.')[-1]
                return {'max': max, 'min': min, 'prod': prod, 'sum': sum}[f](vs)
        if t.op == 'sum' or t.op == 'call' and t.args[0] == 'sum':
            return sum(self.num(a) for a in t.args if not isinstance(a, (str, tuple)))
        if t.op == 'altlen':
            self.branches = True
            a = t.args[self.alt % len(t.args)]
            return self.num(a[0]) + sum(self.num(x) for x in a[1:])
        if t.op == 'range':
            return self.num(self.ip.ext.range_len(t))
        return self.atom(t)

    def countlike(self, t):
        """a number made only of dimensions of the model"""
        if isinstance(t, (int, bool)):
            return True
        if isinstance(t, Choice):
            return all(self.countlike(x) for x in t.vals)
        if not isinstance(t, Sym):
            return False
        if t.op == 'in':
            return self.ip.ext.kind(t) == 'int'
        if t.op in ('dim', 'size', 'altlen', 'rank'):
            return True
        if t.op == 'bin':
            return self.countlike(t.args[1]) and self.countlike(t.args[2])
        if t.op == 'call' and t.args[0] in ('int', 'len', 'max', 'min', 'numpy.max', 'numpy.min'):
            if t.args[0] == 'len':
                return True
            vs = []
            for a in t.args[1]:
                vs += list(a.args) if isinstance(a, Sym) and a.op == 'list' else [a]
            return bool(vs) and all(self.countlike(x) for x in vs)
        return False

    # ---- text
    def text(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, Str):
            return ''.join(self.text(p) for p in v.parts)
        if isinstance(v, Choice):
            return self.text(v.vals[self.alt % len(v.vals)])
        if isinstance(v, RepS):
            w = wrapped(v)
            if w is not None:
                return self.wrap(w)
            n = self.num(v.count)
            if self.cap:
                n = min(n, self.cap)
            if n > 400:
                self.capped, n = True, 400
            body = self.text(v.body)
            sep = v.sep if isinstance(v.sep, str) else self.text(v.sep)
            return sep.join([body] * max(n, 0)) if body != '' else ''
        if isinstance(v, AltS):
            if isinstance(v, TagS) and self.marks is not None:
                self.marks.append(v.tag)
                k = len(self.marks) - 1
                body = self.text(v.alts[self.alt % len(v.alts)])
                return '(emlvtag%d(), %s)' % (k, body) if self.markexpr else 'emlvtag%d(); ' % k + body
            for k in range(len(v.alts)):
                x = self.text(v.alts[(self.alt + k) % len(v.alts)])
                if x.strip():
                    return x
            return ''
        if isinstance(v, OpS):
            x = self.text(v.arg)
            f = getattr(x, v.op, None)
            if v.op in ('lower', 'upper', 'title', 'capitalize', 'swapcase', 'strip', 'lstrip', 'rstrip') and f:
                return f()
            return x
        if isinstance(v, Hole):
            return self.hole(v)
        if isinstance(v, Sym):
            return self.hole(Hole(v, '', ''))
        return str(v)

    def wrap(self, c):
        import textwrap
        a, kw = c.args[1], dict(c.args[2]) if len(c.args) > 2 else {}
        k = {x: y for x, y in kw.items() if isinstance(y, bool)}
        k['width'] = 70
        lines = textwrap.wrap(self.text(a[0]), **k)
        return '\n'.join(lines)

    def kind(self, h):
        v = h.value
        if isinstance(v, bool):
            return 'str'
        if isinstance(v, int):
            return 'int'
        if isinstance(v, float):
            return 'float'
        if h.spec and h.spec[-1] in 'eEfFgG':
            return 'float'
        if h.spec and h.spec[-1] in 'dxXo':
            return 'int'
        k = self.ip.ext.kind(v)
        if k in ('int', 'float', 'str'):
            return k
        if isinstance(v, (Str, str)):
            return 'str'
        if isinstance(v, Sym) and v.op == 'call' and v.args[0].startswith('os.path.'):
            return 'str'
        if isinstance(v, Sym) and v.op == 'call' and v.args[0] in ('numpy.sqrt', 'numpy.log2', 'numpy.log', 'numpy.exp', 'numpy.float32', 'numpy.float64', 'math.log2', 'math.sqrt', 'math.log', 'float'):
            return 'float'
        return 'int'

    def hole(self, h):
        v = h.value
        if isinstance(v, (Str, str)) and not h.spec:
            return self.text(v)
        if isinstance(v, Sym) and v.op == 'cut':
            return ' return 0; '
        k = self.kind(h)
        if k == 'str':
            return self.names.setdefault(v, 'emlvname%d' % len(self.names))
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return repr(v)
        if k == 'int' and self.countlike(v):
            t = str(self.num(v))
            self.lit.setdefault(t, h)
            return t
        if self.small:
            return '1' if k == 'int' else '1.5'
        key = (h.value, h.conv, h.spec)
        for t, o in self.lit.items():
            if (o.value, o.conv, o.spec) == key and not self.countlike(o.value):
                return t
        self.n += 1
        t = str(1000000 + self.n) if k == 'int' else '%d.5' % (2000000 + self.n)
        self.lit[t] = h
        return t


def wrapped(v):
    """the textwrap.wrap call whose lines this joins"""
    b = v.body
    if isinstance(b, Str) and len(b.parts) == 1:
        b = b.parts[0]
    if isinstance(b, Hole) and isinstance(b.value, Sym) and b.value.op == 'elem':
        c = b.value.args[0]
        if isinstance(c, Sym) and c.op == 'call' and c.args[0] in ('textwrap.wrap',):
            return c
    return None


def prod(l):
    out = 1
    for x in l:
        out *= x
    return out


def itemsize(x):
    """bytes per element after the last conversion"""
    if isinstance(x, Sym) and x.op == 'meth' and x.args[1] in ('flatten', 'ravel', 'reshape', 'copy'):
        return itemsize(x.args[0])
    if isinstance(x, Sym) and x.op == 'meth' and x.args[1] == 'astype' and x.args[2]:
        n = repr(x.args[2][0]).strip("<>'").split('.')[-1]
        return {'uint8': 1, 'int8': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'float32': 4, 'float64': 8, 'int64': 8}.get(n)
    return None
