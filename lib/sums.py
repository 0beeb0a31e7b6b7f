"""Terms as polynomials, and positions that move by a constant step through a generic loop."""
from pyval import *

CASTS = ('int', 'numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'list', 'tuple', 'numpy.int32', 'numpy.int64', 'numpy.intp', 'float', 'numpy.float64', 'numpy.float32', 'numpy.asanyarray')


def bare(t):
    """without conversions that keep the value"""
    while isinstance(t, Sym):
        if t.op == 'call' and t.args[0] in CASTS and t.args[1]:
            t = t.args[1][0]
        elif t.op == 'meth' and t.args[1] in ('tolist', 'astype', 'copy', 'item'):
            t = t.args[0]
        elif t.op == 'view' and len(t.args) == 1:
            t = t.args[0]
        else:
            break
    return t


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
    return {k: v for k, v in r.items() if v}


def const(c):
    return {(): c} if c else {}


class Terms:
    def __init__(self, canon):
        self.canon = canon          # canonical form of an atom
        self.counts = {}            # label of a repetition -> how often
        self.loops = {}             # id -> (count, {name: (before, at the head, after one iteration)})

    def onloop(self, lid, seg, vars, brk):
        if seg[0] == 'rep' and len(seg) > 3:
            self.counts[lid] = self.counts[seg[3]] = seg[2]
        self.loops[lid] = (None if brk else seg[2] if seg[0] == 'rep' else None, {k[1]: v for k, v in vars.items()})

    def poly(self, t):
        t = bare(t)
        if isinstance(t, bool) or isinstance(t, (int, float)):
            return const(t)
        if isinstance(t, Sym):
            if t.op == 'bin' and t.args[0] in ('+', '-', '*'):
                a, b = self.poly(t.args[1]), self.poly(t.args[2])
                return mul(a, b) if t.args[0] == '*' else add(a, b, 1 if t.args[0] == '+' else -1)
            if t.op == 'un' and t.args[0] == '-':
                return add({}, self.poly(t.args[1]), -1)
            c = self.canon(t)
            if c is not t:
                return c if isinstance(c, dict) else self.poly(c)
        return {(t,): 1}

    def same(self, a, b):
        return a is not None and b is not None and not add(a, b, -1)

    def steps(self, p, lid):
        """(first value, step) of a polynomial inside a loop; None when it does not move linearly"""
        first, step = {}, {}
        for m, c in p.items():
            f, s, moved = {(): c}, {}, 0
            for a in m:
                r = self.atom(a, lid)
                if r is None:
                    return None
                af, as_ = r
                if as_:
                    moved += 1
                    s = mul(f, as_)
                    f = mul(f, af)
                else:
                    s = mul(s, af)
                    f = mul(f, af)
            if moved > 1:
                return None
            first, step = add(first, f), add(step, s)
        return first, step

    def atom(self, a, lid):
        if isinstance(a, Sym):
            if a.op == 'elem' and len(a.args) > 1 and a.args[1] == lid:
                r = a.args[0]
                if isinstance(r, Sym) and r.op == 'range':
                    v = r.args
                    if len(v) == 3:
                        st = self.poly(v[2])
                        return self.poly(v[0]), st
                return None
            if a.op == 'loopvar' and a.args[0] == lid:
                return self.var(a)
            for x in subterms(a):
                if isinstance(x, Sym) and x is not a and (x.op == 'elem' and len(x.args) > 1 and x.args[1] == lid or x.op == 'loopvar' and x.args[0] == lid):
                    return None
        return {(a,): 1}, {}

    def var(self, a):
        """(before the loop, change per iteration) of a variable of a loop"""
        count, vs = self.loops.get(a.args[0], (None, {}))
        if a.args[1] not in vs:
            return None
        u, h, v = vs[a.args[1]]
        if h is not a or v is None:
            return None
        d = add(self.after(v, a.args[0]), {(a,): 1}, -1)
        return self.poly(u), d

    def after(self, t, lid):
        """value after one iteration: variables of inner loops are replaced by their value after that loop"""
        p = self.poly(t)
        for k in range(6):
            q = {}
            done = True
            for m, c in p.items():
                x = {(): c}
                for a in m:
                    if isinstance(a, Sym) and a.op == 'loopvar' and a.args[0] != lid and a.args[0] in self.loops:
                        r = self.var(a)
                        n = self.loops[a.args[0]][0]
                        if r is not None and n is not None:
                            done = False
                            x = mul(x, add(r[0], mul(self.poly(n), r[1])))
                            continue
                    x = mul(x, {(a,): 1})
                q = add(q, x)
            p = q
            if done:
                break
        return p
