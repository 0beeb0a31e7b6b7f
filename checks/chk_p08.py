"""P08: quantizers limit the scaled value to the range of the integer type before they convert it."""
import math, re, struct
import cc, cir, clib
from pyscen import *
from pyval import *
from pyext import IINFO
from chk_g05 import terms
from report import Report, Lost

INF = math.inf
DTYPES = ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64')
ROUND = ('rint', 'round', 'around', 'round_', 'floor', 'ceil', 'trunc', 'fix')
WIDE = ('float', 'float64', 'double', 'longdouble', 'float_')


def f32(x):
    if abs(x) == INF:
        return x
    try:
        return struct.unpack('f', struct.pack('f', float(x)))[0]
    except OverflowError:
        return math.copysign(INF, x)


def data(t):
    return any(isinstance(y, Sym) and y.op == 'in' and y.args[0] == 'X' for y in terms(t))


class Ranges:
    """intervals of the values of terms; alternatives that cannot happen give None"""

    def __init__(self, ip, guarded):
        self.ip, self.guarded = ip, guarded

    def dtype(self, d):
        return self.ip.ext.dtype_name(d) if d is not None else None

    def double(self, t):
        """the array is surely of double precision"""
        if isinstance(t, Sym):
            if t.op == 'meth' and t.args[1] == 'astype':
                kw = dict(t.args[3])
                return self.dtype(t.args[2][0] if t.args[2] else kw.get('dtype')) in WIDE
            if t.op == 'call':
                n = t.args[0].split('.')[-1]
                kw = dict(t.args[2]) if len(t.args) > 2 else {}
                if n in ('asarray', 'array', 'asanyarray', 'ascontiguousarray') and (len(t.args[1]) > 1 or 'dtype' in kw):
                    return self.dtype(t.args[1][1] if len(t.args[1]) > 1 else kw['dtype']) in WIDE
                if n in ('float64', 'double'):
                    return True
                if n in ROUND + ('clip', 'minimum', 'maximum', 'multiply', 'abs', 'nan_to_num', 'divide', 'copy'):
                    return any(self.double(x) for x in t.args[1][:2 if n in ('multiply', 'divide', 'minimum', 'maximum') else 1])
                if n == 'where':
                    return all(self.double(x) or not isinstance(x, Sym) for x in t.args[1][1:])
            if t.op == 'bin':
                return self.double(t.args[1]) or self.double(t.args[2])
            if t.op == 'meth' and t.args[1] in ('clip', 'round', 'copy', 'reshape'):
                return self.double(t.args[0])
            if t.op in ('choice', 'mix'):
                return all(self.double(x) for x in t.args)
        return False

    def alts(self, t):
        if isinstance(t, Choice):
            return [y for x in t.vals for y in self.alts(x)]
        if isinstance(t, Sym) and t.op == 'choice':
            return [y for x in t.args for y in self.alts(x)]
        return [t]

    def scalar(self, t):
        """interval of a scalar bound, exact"""
        if isinstance(t, bool):
            return (int(t), int(t))
        if isinstance(t, (int, float)):
            return (t, t)
        if isinstance(t, (Choice,)) or isinstance(t, Sym) and t.op == 'choice':
            rs = [r for r in (self.scalar(x) for x in self.alts(t)) if r]
            return (min(r[0] for r in rs), max(r[1] for r in rs)) if rs else None
        if not isinstance(t, Sym):
            return (-INF, INF)
        if t.op == 'attr' and t.args[1] in ('min', 'max') and isinstance(t.args[0], Sym) and t.args[0].op == 'call' and t.args[0].args[0] in ('numpy.iinfo', 'numpy.finfo'):
            d = self.dtype(t.args[0].args[1][0])
            if t.args[0].args[0] == 'numpy.iinfo':
                if d in IINFO:
                    v = IINFO[d][t.args[1] == 'max']
                    return (v, v)
                return None if d is not None else (-INF, INF)
            if d in IINFO:
                return None
            return (-INF, INF)
        if t.op == 'un' and t.args[0] == '-':
            r = self.scalar(t.args[1])
            return r and (-r[1], -r[0])
        if t.op == 'bin' and t.args[0] in ('+', '-'):
            a, b = self.scalar(t.args[1]), self.scalar(t.args[2])
            if a is None or b is None:
                return None
            return (a[0] + b[0], a[1] + b[1]) if t.args[0] == '+' else (a[0] - b[1], a[1] - b[0])
        if t.op == 'call':
            n = t.args[0].split('.')[-1]
            rs = [self.scalar(x) for x in t.args[1]]
            if n in ('max', 'min', 'maximum', 'minimum', 'fmin', 'fmax') and len(rs) > 1:
                if any(r is None for r in rs):
                    return None
                f = max if n in ('max', 'maximum', 'fmax') else min
                return (f(r[0] for r in rs), f(r[1] for r in rs))
            if n in ('float', 'float64', 'double') and rs:
                return rs[0] and tuple(float(x) for x in rs[0])
            if n == 'float32' and rs:
                return rs[0] and tuple(f32(x) for x in rs[0])
            if n == 'int' and rs:
                return rs[0] and tuple(int(x) if abs(x) != INF else x for x in rs[0])
            if n == 'nextafter' and len(rs) == 2:
                a, b = rs
                if a is None or b is None:
                    return None
                lo, hi = float(a[0]), float(a[1])
                to0 = lambda x: math.nextafter(x, b[0]) if b[0] == b[1] else x
                return (to0(lo), to0(hi))
            if n == 'clip' and len(rs) == 3:
                if None in rs:
                    return None
                return (min(max(rs[0][0], rs[1][0]), rs[2][0]), min(max(rs[0][1], rs[1][1]), rs[2][1]))
            if n == 'abs' and rs:
                r = rs[0]
                return r and ((0, max(-r[0], r[1])) if r[0] <= 0 <= r[1] else tuple(sorted((abs(r[0]), abs(r[1])))))
        return (-INF, INF)

    def sides(self, t):
        if isinstance(t, Sym) and t.op == 'call' and t.args[0] == 'numpy.where' and len(t.args[1]) == 3:
            return list(t.args[1][1:])
        return self.alts(t)

    def bound(self, t, wide, low, siblings=()):
        """the value a bound takes in an array of this precision"""
        r = self.scalar(t)
        if r is None:
            return None
        x = r[0] if low else r[1]
        if abs(x) == INF:
            return x
        y = float(x) if wide else f32(x)
        if y != x and any(same(t, g) for g in self.guarded) and wide:
            # this alternative is taken only if the bound is exact as a float
            y = math.nextafter(y, 0.0) if abs(y) > abs(x) else y
        return y

    def array(self, t):
        """interval of the elements of an array"""
        if isinstance(t, (int, float)):
            return (t, t)
        if isinstance(t, Choice) or isinstance(t, Sym) and t.op in ('choice', 'mix'):
            rs = [r for r in (self.array(x) for x in (t.vals if isinstance(t, Choice) else t.args)) if r]
            return (min(r[0] for r in rs), max(r[1] for r in rs)) if rs else None
        if not isinstance(t, Sym):
            return (-INF, INF)
        wide = self.double(t)
        name, args, kw, base = None, (), {}, None
        if t.op == 'call':
            name, args, kw = t.args[0].split('.')[-1], t.args[1], dict(t.args[2]) if len(t.args) > 2 else {}
        elif t.op == 'meth':
            name, args, kw = t.args[1], (t.args[0],) + tuple(t.args[2]), dict(t.args[3]) if len(t.args) > 3 else {}
        if name == 'clip':
            lo = args[1] if len(args) > 1 else kw.get('a_min', kw.get('min'))
            hi = args[2] if len(args) > 2 else kw.get('a_max', kw.get('max'))
            r = self.array(args[0])
            if r is None:
                return None
            if lo is not None:
                b = [x for x in (self.bound(y, wide, True) for y in self.alts(lo)) if x is not None]
                if not b:
                    return None
                r = (max(r[0], min(b)), max(r[1], min(b)))
            if hi is not None:
                b = [x for x in (self.bound(y, wide, False) for y in self.alts(hi)) if x is not None]
                if not b:
                    return None
                r = (min(r[0], max(b)), min(r[1], max(b)))
            return r
        if name in ('minimum', 'fmin', 'maximum', 'fmax') and len(args) > 1:
            low = name in ('maximum', 'fmax')
            a, b = args[:2]
            if not data(a) and data(b):
                a, b = b, a
            r = self.array(a)
            k = self.bound(b, wide, low) if isinstance(b, (int, float, Sym, Choice)) else None
            if r is None or k is None:
                return r
            return (max(r[0], k), max(r[1], k)) if low else (min(r[0], k), min(r[1], k))
        if t.op == 'bin' and t.args[0] in ('+', '-'):
            a, b = t.args[1:3]
            if not data(a) and data(b) and t.args[0] == '+':
                a, b = b, a
            if data(a) and not data(b):
                r = self.array(a)
                ks = [k for k in (self.scalar(y) for y in self.sides(b)) if k]
                if r and ks:
                    k = (min(x[0] for x in ks), max(x[1] for x in ks))
                    if t.args[0] == '-':
                        k = (-k[1], -k[0])
                    r = (float(r[0]) + k[0], float(r[1]) + k[1])
                    return r if wide else (f32(r[0]), f32(r[1]))
        if name in ROUND and args:
            r = self.array(args[0])
            return r and tuple(x if abs(x) == INF else math.floor(x) if j == 0 else math.ceil(x) for j, x in enumerate(r))
        if name in ('copy', 'reshape', 'asarray', 'ravel', 'flatten', 'array', 'asanyarray', 'ascontiguousarray', 'nan_to_num') and args and not (
                name in ('asarray', 'array') and (len(args) > 1 or 'dtype' in kw)):
            return self.array(args[0])
        if name == 'astype' or name in ('asarray', 'array') and args:
            d = self.dtype(args[1] if len(args) > 1 else kw.get('dtype'))
            if d in WIDE + ('float32',):
                return self.array(args[0])
        return (-INF, INF)

    def conversions(self, t):
        """conversions to an integer type in a term: (dtype, operand)"""
        out = []
        for x in terms(t):
            if not isinstance(x, Sym):
                continue
            if x.op == 'meth' and x.args[1] in ('astype',):
                d = self.dtype(x.args[2][0] if x.args[2] else dict(x.args[3]).get('dtype'))
                if d in IINFO:
                    out.append((d, x.args[0]))
            elif x.op == 'call' and x.args[1]:
                n = x.args[0].split('.')[-1]
                kw = dict(x.args[2]) if len(x.args) > 2 else {}
                d = None
                if n in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'fromiter'):
                    d = self.dtype(x.args[1][1] if len(x.args[1]) > 1 else kw.get('dtype'))
                elif n in IINFO:
                    d = n
                elif 'dtype' in kw and n not in ('dtype', 'iinfo'):
                    d = self.dtype(kw['dtype'])
                if d in IINFO:
                    out.append((d, x.args[1][0]))
        return out


# ------------------------------------------------------------------ C
def hexfloat(v):
    if re.match(r'^-?\d+(\.\d+)?(e[+-]?\d+)?$', v):
        return float(v)
    if re.match(r'^0x[0-9A-Fa-f]{16}$', v):
        return struct.unpack('>d', bytes.fromhex(v[2:]))[0]
    return None


class FRange:
    """intervals of floating-point values of one function, from the comparisons that dominate their use"""

    def __init__(self, f):
        self.f = f
        self.dom = {b: self.conds(b) for b in f.order}

    def conds(self, b):
        """(condition, value) known at the start of a block"""
        f, out = self.f, []
        for p in f.order:
            t = f.blocks[p].term
            if t.op == 'br' and len(t.targets) == 2 and t.targets[0] != t.targets[1]:
                for k, s in enumerate(t.targets):
                    if f.dominates(s, b) and len(f.blocks[s].preds) == 1:
                        out.append((t.ops[0], k == 0))
        return out

    def edge(self, p, b):
        t = self.f.blocks[p].term
        out = list(self.dom[p])
        if t.op == 'br' and len(t.targets) == 2 and t.targets[0] != t.targets[1]:
            out.append((t.ops[0], t.targets[0] == b))
        return out

    def atoms(self, c, val, depth=0):
        """comparisons that hold when condition c has this value"""
        d = self.f.defs.get(c)
        if d is None or depth > 8:
            return []
        if d.op == 'fcmp':
            return [(d, val)]
        if d.op == 'xor' and d.ops[1] in ('true', '1', '-1'):
            return self.atoms(d.ops[0], not val, depth + 1)
        if d.op in ('freeze', 'zext', 'trunc'):
            return self.atoms(d.ops[0], val, depth + 1)
        if d.op == 'and' and val or d.op == 'or' and not val:
            return self.atoms(d.ops[0], val, depth + 1) + self.atoms(d.ops[1], val, depth + 1)
        if d.op == 'select' and d.optys[1] == 'i1':
            if val and d.ops[2] in ('false', '0'):
                return self.atoms(d.ops[0], True, depth + 1) + self.atoms(d.ops[1], True, depth + 1)
            if not val and d.ops[1] in ('true', '1'):
                return self.atoms(d.ops[0], False, depth + 1) + self.atoms(d.ops[2], False, depth + 1)
        return []

    def root(self, v):
        for _ in range(10):
            d = self.f.defs.get(v)
            if d is not None and d.op in ('fpext', 'freeze'):
                v = d.ops[0]
            else:
                break
        return v

    def refine(self, r, v, conds):
        lo, hi = r
        for c, val in conds:
            for d, truth in self.atoms(c, val):
                for a, b, sw in ((0, 1, False), (1, 0, True)):
                    if self.root(d.ops[a]) != self.root(v):
                        continue
                    k = hexfloat(d.ops[b])
                    if k is None:
                        continue
                    p = d.pred[1:]
                    if sw:
                        p = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p, p)
                    if not truth:
                        p = {'lt': 'ge', 'gt': 'le', 'le': 'gt', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}.get(p, p)
                    if p in ('lt', 'le'):
                        hi = min(hi, k)
                    elif p in ('gt', 'ge'):
                        lo = max(lo, k)
                    elif p == 'eq':
                        lo, hi = max(lo, k), min(hi, k)
        return lo, hi

    def of(self, v, conds, depth=0, seen=()):
        """interval of v under the conditions; (inf, -inf) when it cannot happen"""
        k = hexfloat(v)
        if k is not None:
            return (k, k)
        d = self.f.defs.get(v)
        r = (-INF, INF)
        if d is not None and depth < 25 and v not in seen:
            sn = seen + (v,)
            if d.op == 'phi':
                rs = [self.of(x, self.edge(p, d.block), depth + 1, sn) for x, p in d.incoming]
                rs = [x for x in rs if x[0] <= x[1]]
                r = (min(x[0] for x in rs), max(x[1] for x in rs)) if rs else (INF, -INF)
            elif d.op == 'select':
                a = self.of(d.ops[1], conds + [(d.ops[0], True)], depth + 1, sn)
                b = self.of(d.ops[2], conds + [(d.ops[0], False)], depth + 1, sn)
                rs = [x for x in (a, b) if x[0] <= x[1]]
                r = (min(x[0] for x in rs), max(x[1] for x in rs)) if rs else (INF, -INF)
            elif d.op in ('fpext', 'freeze', 'fptrunc'):
                r = self.of(d.ops[0], conds, depth + 1, sn)
                if d.op == 'fptrunc':
                    r = (f32(r[0]), f32(r[1]))
            elif d.op in ('sitofp', 'uitofp') and errbits(d.optys[0]):
                n = errbits(d.optys[0])
                r = (-2.0 ** (n - 1), 2.0 ** (n - 1) - 1) if d.op == 'sitofp' else (0.0, 2.0 ** n - 1)
            elif d.op in ('fadd', 'fsub'):
                a, b = (self.of(o, conds, depth + 1, sn) for o in d.ops)
                if a[0] <= a[1] and b[0] <= b[1]:
                    r = (a[0] + b[0], a[1] + b[1]) if d.op == 'fadd' else (a[0] - b[1], a[1] - b[0])
                    if r[0] != r[0] or r[1] != r[1]:
                        r = (-INF, INF)
                    elif d.ty == 'float':
                        r = (f32(r[0]), f32(r[1]))
            elif d.op == 'fneg':
                a = self.of(d.ops[0], conds, depth + 1, sn)
                r = (-a[1], -a[0])
            elif d.op == 'call' and d.callee:
                n = d.callee.lstrip('@')
                m = re.match(r'^(?:llvm\.)?(minnum|maxnum|minimum|maximum|fmin|fmax|round|roundeven|rint|nearbyint|floor|ceil|trunc)f?(?:\.f\d+)?$', n)
                if m:
                    a = self.of(d.ops[0], conds, depth + 1, sn)
                    if m.group(1) in ('minnum', 'minimum', 'fmin'):
                        b = self.of(d.ops[1], conds, depth + 1, sn)
                        r = (min(a[0], b[0]), min(a[1], b[1]))
                    elif m.group(1) in ('maxnum', 'maximum', 'fmax'):
                        b = self.of(d.ops[1], conds, depth + 1, sn)
                        r = (max(a[0], b[0]), max(a[1], b[1]))
                    else:
                        r = (a[0] if a[0] == -INF else math.floor(a[0]), a[1] if a[1] == INF else math.ceil(a[1])) if a[0] <= a[1] else a
        return self.refine(r, v, conds)


def errbits(t):
    m = re.match(r'^i(\d+)$', t or '')
    return int(m.group(1)) if m else None


def users(f):
    out = {}
    for i in f.instrs():
        for o in i.ops:
            out.setdefault(o, []).append(i)
        if i.op == 'phi':
            for v, _ in i.incoming:
                out.setdefault(v, []).append(i)
    return out


TOINT = re.compile(r'^(?:llvm\.)?(lrint|lround|llrint|llround)f?(?:\..*)?$')


def check_c(R):
    mod = clib.module('default', passes='cgscc(inline),function(sroa,early-cse,simplifycfg)')
    fns = [f for b, f in clib.own(mod) if b == 'eml_quantizer.h']
    if not fns:
        raise Lost('eml_quantizer.h has no functions')
    for f in fns:
        fr = FRange(f)
        us = users(f)
        R.ob('quantizer function', f.name, subject=f.name)
        for i in f.instrs():
            sat = i.op == 'call' and re.match(r'^llvm\.fpto[su]i\.sat', i.callee or '')
            if not (i.op in ('fptosi', 'fptoui') or i.op == 'call' and TOINT.match((i.callee or '').lstrip('@')) or sat):
                continue
            signed = i.op != 'fptoui' and not (sat and 'toui' in i.callee)
            goals = set()

            def follow(v, bits, depth=0):
                us_ = us.get(v, ())
                done = False
                for u in us_:
                    if u.op == 'trunc' and depth < 6:
                        follow(u.res, errbits(u.ty), depth + 1)
                        done = True
                    elif u.op in ('phi', 'freeze') and depth < 6:
                        follow(u.res, bits, depth + 1)
                        done = True
                    else:
                        goals.add(bits)
                if not us_:
                    goals.add(bits)
            follow(i.res, errbits(i.ty) or 64)
            where = clib.where(mod, i, f)
            for bits in goals:
                lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)
                r = fr.of(i.ops[0], fr.dom[i.block])
                R.ob('conversion to an integer in C', '%s: %s bits, value in %s' % (where, bits, r), subject=f.name)
                t = tuple(x if abs(x) == INF else math.trunc(x) for x in r)
                if not (lo <= t[0] and t[1] <= hi):
                    R.violate('c:%s' % f.name, '%s converts a value that can be anywhere in [%g, %g] to an integer of %d bits' % (f.name, r[0], r[1], bits), where)
                elif not unbounded_low_ok(t, lo, hi):
                    R.violate('c:%s:end' % f.name, '%s limits values to [%g, %g], which is not the range of an integer of %d bits' % (f.name, r[0], r[1], bits), where)



def unbounded_low_ok(t, lo, hi):
    """the limits are the ends of the range (the lowest value of a signed type may be left out)"""
    return t[1] == hi and (t[0] == lo or lo < 0 and t[0] == lo + 1)


def run():
    R = Report('P08', 'Quantizers saturate.  Python: for every integer type and every kind of out_max and max_value, each conversion to an integer in transform is applied to an operand whose interval, '
               'computed from the clip/minimum/maximum operations of its term with the rounding of the bounds to floating point, lies in the range of that type.  C: every conversion from floating point to an integer in '
               'eml_quantizer.h has an operand whose interval, from the comparisons that dominate it, lies in the range of the type it ends in, and reaches its ends.',
               ['inputs are not NaN', 'numpy.clip, minimum and maximum convert the bounds to the type of the array'])
    s = Session().load('', 'preprocessing.quantizer')
    ip = s.ip
    Q = s.attr('preprocessing.quantizer', 'Quantizer')
    compared = []
    ip.oncompare = lambda ip_, n, op, l, r: compared.append((op, ip.freeze(l), ip.freeze(r)))
    snap = s.snapshot()
    for dt in DTYPES:
        for om in (None, 100, 2 ** 40, Sym('in', 'out_max')):
            for mv in (None, Sym('in', 'max_value')):
                s.restore(snap)
                compared.clear()
                where = 'emlearn.preprocessing.quantizer.Quantizer.transform'
                label = 'dtype=%s, out_max=%s, max_value=%s' % (dt, om, mv)
                q, err = s.call(Q, dtype=dt, out_max=om, max_value=mv)
                if err is not None:
                    continue
                n0 = len(ip.events)
                s.method(q, 'fit', X(s))
                v, err = s.method(q, 'transform', X(s))
                if err is not None:
                    continue
                v = ip.freeze(v)
                guarded = []
                for op, l, r in compared:
                    for a, b in ((l, r), (r, l)):
                        if isinstance(a, Sym) and a.op == 'call' and a.args[0] in ('float', 'numpy.float64') and same(a.args[1][0], b):
                            guarded.append(b)
                            guarded += Ranges(ip, ()).alts(b)
                A = Ranges(ip, guarded)
                cs = A.conversions(v)
                # results of the same shape, one per alternative
                R.ob('quantizer configuration', label, subject=where)
                if not any(d == dt for d, x in cs):
                    raise Lost('no conversion to %s in the result of transform (%s)' % (dt, repr(v)[:200]))
                seen, ends = set(), []
                for d, x in cs:
                    if (d, repr(x)) in seen:
                        continue
                    seen.add((d, repr(x)))
                    r = A.array(x)
                    if r is None:
                        continue
                    R.ob('conversion to an integer', '%s: %s' % (label, r), subject=where)
                    lo, hi = IINFO[d]
                    if not (math.trunc(r[0]) >= lo if abs(r[0]) != INF else False) or not (math.trunc(r[1]) <= hi if abs(r[1]) != INF else False):
                        R.violate('python:%s' % d, 'transform (%s) converts values in [%s, %s] to %s, which holds [%d, %d]' % (label, r[0], r[1], d, lo, hi), where)
                    if d == dt:
                        ends.append(r)
                if om is None and ends:
                    r = (min(x[0] for x in ends), max(x[1] for x in ends))
                    lo, hi = IINFO[dt]
                    if abs(r[0]) != INF and abs(r[1]) != INF and not unbounded_low_ok((math.trunc(r[0]), math.trunc(r[1])), lo, hi) and not (hi > 2 ** 53 and r[1] >= math.nextafter(float(hi), 0.0)):
                        R.violate('python:%s:end' % dt, 'transform (%s) limits values to [%s, %s], which are not the ends of %s' % (label, r[0], r[1], dt), where)
    check_c(R)
    R.floor('conversion to an integer', 40)
    R.floor('conversion to an integer in C', 1)
    return R.finish()
