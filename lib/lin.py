"""Linear forms over integer atoms, and an entailment test by Fourier-Motzkin elimination with integer tightening (the polyhedra domain's inclusion test).

A form is a mapping monomial -> coefficient; a monomial is a sorted tuple of atoms (the empty tuple is the constant).  Products of atoms are
monomials of their own; facts are multiplied with non-negative atoms where that produces monomials of the question.
"""
from math import gcd

ONE = ()


class L:
    __slots__ = ('t', '_h', '_n')

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v}
        self._h = self._n = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, L) and self.t == o.t

    def __add__(self, o):
        o = lift(o)
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return L(t)

    __radd__ = __add__

    def __neg__(self):
        return L({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        t = {}
        for k, v in self.t.items():
            for k2, v2 in o.t.items():
                m = tuple(sorted(k + k2, key=repr))
                t[m] = t.get(m, 0) + v * v2
        return L(t)

    __rmul__ = __mul__

    @property
    def const(self):
        """the value when constant, else None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and ONE in self.t:
            return self.t[ONE]
        return None

    def atoms(self):
        return {a for m in self.t for a in m}

    def subst(self, a, e):
        out = L()
        for m, v in self.t.items():
            n = m.count(a)
            if not n:
                out = out + L({m: v})
            else:
                x = L({tuple(y for y in m if y != a): v})
                for _ in range(n):
                    x = x * e
                out = out + x
        return out

    def __repr__(self):
        return ' '.join('%+d%s' % (v, ('*' + '*'.join(show(x) for x in m)) if m else '') for m, v in sorted(self.t.items(), key=lambda x: repr(x[0]))) or '0'


def show(a):
    return a if isinstance(a, str) else '.'.join(str(x) for x in a) if isinstance(a, tuple) else str(a)


def lift(x):
    return x if isinstance(x, L) else L({ONE: x})


def atom(a):
    return L({(a,): 1})


def norm(t):
    """tightened constraint sum >= 0 as (frozenset of coefficients without the constant, constant)"""
    g = 0
    for k, v in t.items():
        if k != ONE:
            g = gcd(g, v)
    c = t.get(ONE, 0)
    if g == 0:
        return (frozenset(), c)
    return (frozenset((k, v // g) for k, v in t.items() if k != ONE), c // g)


def tight(x):
    """the strongest multiple of x >= 0 over integers"""
    k, c = norm(x.t)
    t = dict(k)
    if c:
        t[ONE] = c
    return L(t)


LIMIT = 1500


def infeasible(cons, limit=LIMIT):
    """the constraints (each form >= 0) have no integer solution (sound, incomplete)"""
    cs = {}
    for c in cons:
        if c._n is None:
            c._n = norm(c.t)
        co, k = c._n
        if not co:
            if k < 0:
                return True
            continue
        if co not in cs or cs[co] > k:
            cs[co] = k
    key = frozenset(cs.items())
    r = _done.get(key)
    if r is None:
        if len(_done) > 200000:
            _done.clear()
        r = _done[key] = eliminate(cs, limit)
    return r


_done = {}


def eliminate(cs, limit):
    while True:
        use = {}
        for co in cs:
            for m, v in co:
                p = use.setdefault(m, [0, 0])
                p[0 if v > 0 else 1] += 1
        if not use:
            return False
        # monomials bounded on one side only: their constraints say nothing
        one = [m for m, (a, b) in use.items() if not a or not b]
        if one:
            one = set(one)
            cs = {co: k for co, k in cs.items() if not any(m in one for m, v in co)}
            continue
        m = min(use, key=lambda x: use[x][0] * use[x][1])
        pos, neg, new = [], [], {}
        for co, k in cs.items():
            v = dict(co).get(m)
            if v is None:
                new[co] = k
            elif v > 0:
                pos.append((dict(co), k, v))
            else:
                neg.append((dict(co), k, -v))
        if len(pos) * len(neg) + len(new) > limit:
            return False
        for a, ka, va in pos:
            for b, kb, vb in neg:
                g = gcd(va, vb)
                fa, fb = vb // g, va // g
                t = {}
                for x, v in a.items():
                    t[x] = t.get(x, 0) + fa * v
                for x, v in b.items():
                    t[x] = t.get(x, 0) + fb * v
                t = {x: v for x, v in t.items() if v}
                t[ONE] = fa * ka + fb * kb
                co, k = norm(t)
                if not co:
                    if k < 0:
                        return True
                    continue
                if co not in new or new[co] > k:
                    new[co] = k
        cs = new


def entails(facts, goal, nonneg=()):
    """facts (forms >= 0) imply goal >= 0"""
    if goal.const is not None:
        return goal.const >= 0 or infeasible(relevant(facts, set(m for f in facts for m in f.t)))
    prod = {m for f in facts for m in f.t if len(m) > 1} | {m for m in goal.t if len(m) > 1}
    if not prod:
        return infeasible([-goal - 1] + relevant(facts, set(goal.t)))
    co, k = norm(goal.t)
    if any(norm(f.t)[1] <= k for f in facts if norm(f.t)[0] == co):
        return True
    facts, goal = solved(list(facts), goal)
    if any(f.const is not None and f.const < 0 for f in facts):
        return True
    if goal.const is not None:
        return goal.const >= 0
    prod = {m for f in facts for m in f.t if len(m) > 1} | {m for m in goal.t if len(m) > 1}
    more = facts + products(facts, prod)
    if infeasible([-goal - 1] + relevant(more, set(goal.t))):
        return True
    if not any(len(m) > 1 for m in goal.t):
        return False
    return peel(strongest(f for f in facts if all(len(m) <= 1 for m in f.t)), goal)


def solved(facts, goal):
    """equalities between atoms of products are used to replace one by the other"""
    for _ in range(12):
        have = set(facts)
        pick = None
        inprod = {a for f in facts + [goal] for m in f.t if len(m) > 1 for a in m}
        for f in facts:
            if len(f.t) <= 3 and all(len(m) <= 1 for m in f.t) and -f in have:
                for m, v in sorted(f.t.items(), key=repr):
                    if m != ONE and v in (1, -1) and m[0] in inprod:
                        pick = (m[0], atom(m[0]) - f * v)
                        break
            if pick:
                break
        if pick is None:
            # an atom of the question that equals a product
            for f in facts:
                if len(f.t) <= 3 and any(len(m) > 1 for m in f.t) and -f in have:
                    for m, v in sorted(f.t.items(), key=repr):
                        if len(m) == 1 and v in (1, -1) and m in goal.t and not any(m[0] in k for k in f.t if len(k) > 1):
                            pick = (m[0], atom(m[0]) - f * v)
                            break
                if pick:
                    break
        if pick is None:
            return facts, goal
        a, e = pick
        facts = [f.subst(a, e) if a in f.atoms() else f for f in facts]
        facts = [f for f in dict.fromkeys(facts) if f.const is None or f.const < 0]
        goal = goal.subst(a, e)
    return facts, goal


def peel(lins, goal, depth=5):
    """goal >= 0 by taking products of facts with non-negative atoms away from it, from the largest negative product down"""
    ms = [m for m in goal.t if len(m) > 1]
    if not ms:
        return goal.const >= 0 if goal.const is not None else infeasible([-goal - 1] + relevant(lins, set(goal.t)))
    for a in sorted(set(ms[0]).intersection(*goal.t), key=repr):
        # a common factor that is not negative
        if entails_lin(lins, a):
            t = {}
            for m, v in goal.t.items():
                q = list(m)
                q.remove(a)
                t[tuple(q)] = v
            if peel(lins, L(t), depth):
                return True
    if depth == 0:
        return False
    neg = [m for m in ms if goal.t[m] < 0]
    if neg:
        m = max(neg, key=lambda x: (len(x), repr(x)))
        v = -goal.t[m]
        for k in sorted(set(m), key=repr):
            q = list(m)
            q.remove(k)
            if not all(entails_lin(lins, x) for x in set(q)):
                continue
            for f in lins:
                if f.t.get((k,), 0) == -1 and 1 < len(f.t) <= 4 and not (len(f.t) == 2 and abs(f.t.get(ONE, 0)) > 1000):
                    g = f * v
                    for x in q:
                        g = g * atom(x)
                    if peel(lins, goal - g, depth - 1):
                        return True
        return False
    for m in ms:
        if not all(entails_lin(lins, x) for x in set(m)):
            return False
    # a product of non-negative numbers, the factors of which may have a larger lower bound
    return peel(lins, L({m: v for m, v in goal.t.items() if len(m) <= 1}), depth - 1)


def strongest(facts):
    best = {}
    for f in facts:
        co, k = norm(f.t)
        if co and (co not in best or best[co] > k):
            best[co] = k
    return [L({**dict(co), ONE: k}) for co, k in best.items()]


def relevant(facts, need):
    """the facts connected with these monomials"""
    work = [m for m in need if m != ONE]
    by = {}
    for f in facts:
        for m in f.t:
            if m != ONE:
                by.setdefault(m, []).append(f)
    seen, took, out = set(work), set(), []
    while work:
        for f in by.get(work.pop(), ()):
            if id(f) not in took:
                took.add(id(f))
                out.append(f)
                for m in f.t:
                    if m != ONE and m not in seen:
                        seen.add(m)
                        work.append(m)
    return out


def products(facts, prod):
    """facts multiplied with atoms that facts show to be non-negative, where the result only has monomials of the question"""
    factors = {a for m in prod for a in m}
    # atoms x with a fact x - c >= 0, c >= 0
    nn = {}
    for f in facts:
        ks = [m for m in f.t if m != ONE]
        if len(ks) == 1 and len(ks[0]) == 1 and f.t[ks[0]] > 0 and f.t.get(ONE, 0) <= 0:
            nn[ks[0][0]] = -f.t.get(ONE, 0)
    lins = [f for f in facts if all(len(m) <= 1 for m in f.t)]
    out = []
    for a in factors:
        for f in lins:
            if not any(tuple(sorted(m + (a,), key=repr)) in prod for m in f.t if m != ONE):
                continue
            if not all(m == ONE or tuple(sorted(m + (a,), key=repr)) in prod for m in f.t):
                continue
            if a in nn or entails_lin(lins, a):
                nn.setdefault(a, 0)
                out.append(f * atom(a))
    return out


_cache = {}


def entails_lin(lins, a):
    key = (frozenset(lins), a)
    if key not in _cache:
        if len(_cache) > 20000:
            _cache.clear()
        _cache[key] = infeasible([-atom(a) - 1] + relevant(lins, {(a,)}))
    return _cache[key]
