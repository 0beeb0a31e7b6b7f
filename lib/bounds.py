"""Linear facts about the integers and pointer offsets of one fully inlined function.

Facts at a block: conditions of dominating branches, inductive inequalities about the variables of enclosing loops (candidates are taken from
the initial values and the comparisons of the function, and those that are not inductive are dropped until the rest is), ranges of types and
what the contract says about parameters, fields and elements of arrays.  `prove` decides a linear inequality from the facts, splitting cases on
joins and selections where needed.
"""
import re
import lin
from math import gcd
from lin import L, atom, lift, entails, tight
import cir

BIG = 2 ** 31 - 1


def intval(v):
    if re.match(r'^-?\d+$', v):
        return int(v)
    return {'true': 1, 'false': 0, 'zeroinitializer': 0}.get(v)


def width(ty):
    m = re.match(r'^i(\d+)$', ty or '')
    return int(m.group(1)) if m else None


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}


class Facts:
    """conjunction: forms >= 0, disequalities, disjunctions of conjunctions, pointers known not to be null"""
    __slots__ = ('ge', 'ne', 'alt', 'nonnull', 'null')

    def __init__(self, ge=(), ne=(), alt=(), nonnull=(), null=()):
        self.ge, self.ne, self.alt, self.nonnull, self.null = list(ge), list(ne), list(alt), set(nonnull), set(null)

    def __add__(self, o):
        return Facts(self.ge + o.ge, self.ne + o.ne, self.alt + o.alt, self.nonnull | o.nonnull, self.null | o.null)


class Ptr:
    """root object and byte offset"""
    __slots__ = ('root', 'off')

    def __init__(self, root, off):
        self.root, self.off = root, off

    def __repr__(self):
        return '%s + %r' % (self.root, self.off)


class Engine:
    def __init__(self, mod, f, contract=None):
        self.m, self.f, self.c = mod, f, contract
        self.inv = {}          # header -> forms >= 0 about its phis
        self.always = {}       # atom -> forms >= 0
        self.cases = {}        # atom -> function giving [(Facts, L)] alternatives
        self.memo = {}
        self.pmemo = {}
        self.fmemo = {}
        self.rely = {}
        self.unsigned = {}
        self.active, self.cuts, self.moving = set(), set(), set()
        self.contents = {}     # atom of a loaded element -> Ptr
        self.stores = [i for i in f.instrs() if i.op == 'store' or i.op == 'call' and re.match(r'llvm\.mem(cpy|move|set)', i.callee or '')]
        self._reach = {}
        self.params = {p[0]: p for p in f.params}
        if contract:
            contract.bind(self)
        self.solve()

    # ------------------------------------------------------------ integers
    def lin(self, v, ty=None):
        n = intval(v)
        if n is not None:
            return lift(n)
        if v in ('undef', 'poison'):
            return atom(('undef', self.f.name))
        return self.once(self.memo, v, lambda: self.rely_atom(v), lambda: self._lin(v))

    def once(self, table, key, partial, compute):
        """memoised; a value that needs itself gets `partial` meanwhile, and what was found with that is not kept"""
        if key in table:
            return table[key]
        k = (id(table), key)
        if k in self.active:
            self.cuts.add(k)
            return partial()
        self.active.add(k)
        try:
            r = compute()
        finally:
            self.active.discard(k)
            self.cuts.discard(k)
        if not self.cuts:
            table[key] = r
        return r

    def rely_atom(self, v):
        return atom(('v', v))

    def ranged(self, a, lo=None, hi=None):
        fs = self.always.setdefault(a, [])
        if lo is not None:
            fs.append(atom(a) - lo)
        if hi is not None:
            fs.append(lift(hi) - atom(a))
        return atom(a)

    def _lin(self, v):
        d = self.f.defs.get(v)
        a = ('v', v)
        if d is None:
            e = self.c.param(self, v) if self.c else None
            if e is not None:
                return e
            p = self.params.get(v)
            w = width(p[1]) if p else None
            if w and w <= 32 and a not in self.always:
                self.ranged(a, -2 ** (w - 1), 2 ** (w - 1) - 1)
            return atom(a)
        op = d.op
        w = width(d.ty)
        if op == 'sub':
            x, y = (self.f.defs.get(o) for o in d.ops)
            if x is not None and y is not None and x.op == y.op == 'ptrtoint':
                z = self.ptrdiff(x.ops[0], y.ops[0])
                if z is not None:
                    return z[0] - z[1]
        if op in ('add', 'sub', 'mul'):
            x, y = self.lin(d.ops[0]), self.lin(d.ops[1])
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            if 'nsw' in d.flags or w == 64 or self.fits(r, w, d.block):
                return r
            return self.opaque(a, w)
        if op == 'shl':
            k = intval(d.ops[1])
            if k is not None:
                r = self.lin(d.ops[0]) * (1 << k)
                if 'nsw' in d.flags or w == 64 or self.fits(r, w, d.block):
                    return r
            return self.opaque(a, w)
        if op == 'sext' or op == 'freeze':
            return self.lin(d.ops[0])
        if op == 'zext':
            x = self.lin(d.ops[0])
            sw = width(d.optys[0]) if d.optys else None
            if sw == 1:
                self.cases[a] = lambda: [(self.cond(d.ops[0], True), lift(1)), (self.cond(d.ops[0], False), lift(0))]
                return self.ranged(a, 0, 1)
            ks = list(x.t)
            if len(ks) == 1 and len(ks[0]) == 1 and x.t[ks[0]] == 1 and ks[0][0] in self.unsigned:
                return self.unsigned[ks[0][0]]
            if 'nneg' in d.flags or self.prove(x, d.block):
                return x
            z = ('z', ks[0][0]) if len(ks) == 1 and len(ks[0]) == 1 and x.t[ks[0]] == 1 else a
            return self.ranged(z, 0, 2 ** sw - 1 if sw else None)
        if op == 'trunc':
            x = self.lin(d.ops[0])
            if self.fits(x, w, d.block):
                return x
            return self.opaque(a, w)
        if op in ('sdiv', 'udiv', 'ashr', 'lshr'):
            x = self.lin(d.ops[0])
            k = intval(d.ops[1])
            if k is not None and op in ('ashr', 'lshr'):
                k = 1 << k
            if k is not None and k > 0 and x.const is not None and x.const >= 0:
                return lift(x.const // k)
            if k and k > 0:
                if op == 'ashr' or self.prove(x, d.block):
                    self.always.setdefault(a, [])
                    self.always[a] += [x - atom(a) * k, atom(a) * k + (k - 1) - x]
                    return atom(a)
                if op == 'sdiv':
                    # towards zero
                    self.always.setdefault(a, [])
                    self.always[a] += [atom(a) * k + (k - 1) - x, x + (k - 1) - atom(a) * k]
                    self.rely[a] = [Facts(alt=[[Facts([x, x - atom(a) * k]), Facts([-x - 1, atom(a) * k - x])]])]
                    return atom(a)
                self.rely[a] = [Facts(alt=[[Facts([x, x - atom(a) * k, atom(a) * k + (k - 1) - x]), Facts([-x - 1])]])]
                return self.ranged(a, 0)
            if op in ('udiv', 'sdiv') and self.prove(x, d.block):
                y = self.lin(d.ops[1])
                if self.prove(y - 1, d.block):
                    # 0 <= q <= x, q*y <= x < (q+1)*y
                    self.always.setdefault(a, [])
                    self.always[a] += [atom(a), x - atom(a), x - atom(a) * y, (atom(a) + 1) * y - 1 - x]
                    return atom(a)
            return self.opaque(a, w)
        if op in ('srem', 'urem'):
            k = intval(d.ops[1])
            x = self.lin(d.ops[0])
            if k is None:
                y = self.lin(d.ops[1])
                if self.prove(y - 1, d.block) and (op == 'urem' or self.prove(x, d.block)):
                    self.always.setdefault(a, [])
                    self.always[a] += [atom(a), y - 1 - atom(a)]
                    return atom(a)
            elif k > 0:
                pos = op == 'urem' or self.prove(x, d.block)
                self.ranged(a, 0 if pos else 1 - k, k - 1)
                if pos and self.prove(x, d.block):
                    self.always[a].append(x - atom(a))
                return atom(a)
            return self.opaque(a, w)
        if op == 'and':
            for o, p in ((d.ops[0], d.ops[1]), (d.ops[1], d.ops[0])):
                k = intval(o)
                if k is not None and k >= 0:
                    self.ranged(a, 0, k)
                    x = self.lin(p)
                    if self.prove(x, d.block):
                        self.always[a].append(x - atom(a))
                    return atom(a)
            return self.opaque(a, w)
        if op == 'select':
            c, x, y = d.ops
            self.cases[a] = lambda: [(self.cond(c, True), self.lin(x)), (self.cond(c, False), self.lin(y))]
            return self.opaque(a, w)
        if op == 'phi':
            if d.block not in self.f.loops:
                ops = {self.lin(o) for o, b in d.incoming if o != v}
                if len(ops) == 1:
                    return ops.pop()
                self.cases[a] = lambda: [(self.edge(b, d.block), self.lin(o)) for o, b in d.incoming]
            return self.opaque(a, w)
        if op == 'load':
            return self.load(d)
        if op == 'call':
            c = d.callee or ''
            m = re.match(r'llvm\.([su])(min|max)\.', c)
            if m and (m.group(1) == 's' or all(self.prove(self.lin(o), d.block) for o in d.ops[:2])):
                x, y = self.lin(d.ops[0]), self.lin(d.ops[1])
                s = 1 if m.group(2) == 'max' else -1
                self.always.setdefault(a, [])
                self.always[a] += [(atom(a) - x) * s, (atom(a) - y) * s]
                self.cases[a] = lambda: [(Facts([(x - y) * s]), x), (Facts([(y - x) * s]), y)]
                return atom(a)
            if c.startswith('llvm.abs') or c in ('abs', 'labs'):
                x = self.lin(d.ops[0])
                self.always.setdefault(a, [])
                self.always[a] += [atom(a) - x, atom(a) + x]
                self.cases[a] = lambda: [(Facts([x]), x), (Facts([-x]), -x)]
                return atom(a)
            if c == 'strlen':
                return self.ranged(a, 0, BIG)
            return self.opaque(a, w)
        if op == 'extractvalue':
            return self.opaque(a, w)
        return self.opaque(a, w)

    def opaque(self, a, w):
        if w and w <= 32 and a not in self.always:
            self.ranged(a, -2 ** (w - 1) if w > 1 else 0, 2 ** (w - 1) - 1 if w > 1 else 1)
        return atom(a)

    def fits(self, x, w, block):
        if x.const is not None:
            return -2 ** (w - 1) <= x.const < 2 ** (w - 1)
        return bool(w) and self.prove(x + 2 ** (w - 1), block) and self.prove(lift(2 ** (w - 1) - 1) - x, block)

    # ------------------------------------------------------------ memory
    def load(self, d):
        a = ('v', d.res)
        w = width(d.ty)
        ps = self.ptrs(d.ops[0])
        if len(ps) == 1 and ps[0][1] is not None:
            p = ps[0][1]
            loc = self.location(p)
            if loc is not None:
                s = self.reaching(d, p)
                if s is not None and s.op == 'store' and s is not d:
                    return self.lin(s.ops[0])
                if s is None:
                    e = self.c.field(self, p.root, p.off.const, w) if self.c else None
                    if e is not None:
                        return e
                    return self.opaque(('m',) + loc, w)
                if s.op == 'load' and s is not d:
                    return self.lin(s.res)
            if self.c:
                el = loc is None and self.c.elemfield(self, p, w)
                if el and el[2][1][0] == 'int' and 8 * el[2][1][1] == w and not self.writers(p, w // 8):
                    x = self.c.fieldatom(self, el[1], el[0], el[2][0], el[2][1])
                    if not el[2][1][2] and w < 64:
                        return self.c.resign(self, ('s', next(iter(x.atoms()))), x, w)
                    if not self.c.hascontent(p, el):
                        return x
                self.contents[a] = p
                for g in self.c.content(self, p, a, w) or ():
                    if isinstance(g, Facts):
                        self.rely.setdefault(a, []).append(g)
                    else:
                        self.always.setdefault(a, []).append(g)
        if a not in self.always:
            return self.opaque(a, w)
        if w and w <= 32:
            self.ranged(a, -2 ** (w - 1), 2 ** (w - 1) - 1)
        return atom(a)

    def location(self, p):
        if p is None or p.off.const is None:
            return None
        return (p.root, p.off.const)

    def accesssize(self, i):
        ty = i.mem_ty or (i.ty if i.op == 'load' else i.optys[0])
        try:
            return self.m.sizeof(ty)
        except Exception:
            return 8

    def writers(self, p, size):
        """stores that may change these bytes"""
        key = ('w', p.root, p.off, size)

        def find():
            out = []
            for s in self.stores:
                dst = s.ops[1] if s.op == 'store' else s.ops[0]
                if self.elsewhere(dst, p.root):
                    continue
                for g, q in self.ptrs(dst):
                    if q is None:
                        continue
                    if q.root != p.root:
                        continue
                    n = self.accesssize(s) if s.op == 'store' else None
                    d = (q.off - p.off).const
                    if d is None or n is None or -n < d < size:
                        out.append(s)
                        break
            return out
        return self.once(self.pmemo, key, list, find)

    def elsewhere(self, v, root):
        """the pointer certainly belongs to another object (without looking at offsets)"""
        for _ in range(50):
            if v.startswith('@'):
                return root != ('global', v[1:])
            d = self.f.defs.get(v)
            if d is None:
                return root != ('param', v) and v.startswith('%')
            if d.op == 'alloca':
                return root != ('alloca', v)
            if d.op == 'load':
                return root[0] in ('param', 'alloca', 'global')
            if d.op in ('getelementptr', 'bitcast', 'freeze'):
                v = d.ops[0]
                continue
            return False
        return False

    def reach(self, a):
        """blocks reachable from the end of block a"""
        if a not in self._reach:
            seen, work = set(), list(self.f.blocks[a].succs)
            while work:
                b = work.pop()
                if b not in seen:
                    seen.add(b)
                    work += self.f.blocks[b].succs
            self._reach[a] = seen
        return self._reach[a]

    def reaching(self, d, p):
        """None: no store changes the location; else the store or earlier load that gives the value, or the load itself when unknown"""
        size = self.accesssize(d)
        ws = self.writers(p, size)
        if not ws:
            return None
        best = d
        cands = [s for s in ws if s.op == 'store' and self.samebytes(s, p, size)]
        cands += [i for i in self.f.instrs() if i.op == 'load' and i is not d and i.ty == d.ty and self.same(i.ops[0], p)]
        for s in cands:
            if not self.before(s, d):
                continue
            if any(x is not s and self.between(s, x, d) for x in ws):
                continue
            if s.op == 'load' and best is not d:
                continue
            if best is d or self.before(best, s):
                best = s
        # a load that is not changed since the entry of the function
        if best is d and not any(self.between(None, x, d) for x in ws):
            return None
        return best

    def same(self, v, p):
        q = self.ptrs(v)
        return len(q) == 1 and q[0][1] is not None and q[0][1].root == p.root and q[0][1].off == p.off

    def samebytes(self, s, p, size):
        return self.same(s.ops[1], p) and self.accesssize(s) == size

    def before(self, a, b):
        if a.block == b.block:
            return a.idx < b.idx
        return self.f.dominates(a.block, b.block)

    def between(self, a, x, b):
        """x may run after a (or the entry) and before b, without a running again in between"""
        if a is not None and not (x.block == a.block and x.idx > a.idx) and x.block not in self.reach(a.block):
            return False
        if x.block == b.block and x.idx < b.idx:
            if not (a is not None and a.block == x.block and x.idx < a.idx < b.idx):
                return True
        if a is not None and a.block == x.block and a.idx > x.idx:
            return False
        if a is not None and a.block == b.block and a.idx < b.idx:
            return False
        return self.path(x.block, b.block, a.block if a is not None else None)

    def path(self, a, b, avoid):
        """from the end of a to the start of b, not through `avoid`"""
        if avoid is None:
            return b in self.reach(a)
        seen, work = set(), [s for s in self.f.blocks[a].succs if s != avoid]
        while work:
            n = work.pop()
            if n == b:
                return True
            if n in seen:
                continue
            seen.add(n)
            work += [s for s in self.f.blocks[n].succs if s != avoid]
        return False

    # ------------------------------------------------------------ pointers
    def ptrs(self, v):
        """[(Facts, Ptr or None)]: what the pointer is in which case (None: null)"""
        if v in self.moving:
            return [(Facts(), Ptr(('moving', v), L()))]
        return self.once(self.pmemo, v, lambda: [(Facts(), Ptr(('value', v), L()))], lambda: self._ptrs(v))

    def _ptrs(self, v):
        one = lambda r, o=0: [(Facts(), Ptr(r, lift(o)))]
        if v == 'null' or v == 'undef' or v == 'poison' or v == 'zeroinitializer':
            return [(Facts(), None)]
        if v.startswith('@'):
            return one(('global', v[1:]))
        m = re.match(r'getelementptr (?:inbounds )?\((.*)\)$', v)
        if m:
            parts = cir.split_top(m.group(1))
            t, base, _ = cir.typed(parts[1])
            idx = [cir.typed(x) for x in parts[2:]]
            return [(g, p and Ptr(p.root, p.off + self.gepoff(parts[0], [x[0] for x in idx], [x[1] for x in idx]))) for g, p in self.ptrs(base)]
        d = self.f.defs.get(v)
        if d is None:
            return one(('param', v))
        if d.op == 'alloca':
            return one(('alloca', v))
        if d.op == 'getelementptr':
            o = self.gepoff(d.srcty, d.optys[1:], d.ops[1:])
            return [(g, p and Ptr(p.root, p.off + o)) for g, p in self.ptrs(d.ops[0])]
        if d.op in ('bitcast', 'freeze', 'addrspacecast'):
            return self.ptrs(d.ops[0])
        if d.op == 'select':
            c, x, y = d.ops
            return self.merge([(self.cond(c, True) + g, p) for g, p in self.ptrs(x)] + [(self.cond(c, False) + g, p) for g, p in self.ptrs(y)])
        if d.op == 'phi':
            if d.block in self.f.loops:
                return self.loopptr(v, d)
            return self.merge([(self.edge(b, d.block) + g, p) for o, b in d.incoming for g, p in self.ptrs(o)])
        if d.op == 'load':
            ps = self.ptrs(d.ops[0])
            if len(ps) == 1 and ps[0][1] is not None and ps[0][1].off.const is not None:
                p = ps[0][1]
                s = self.reaching(d, p)
                if s is None:
                    return one(('mem', p.root, p.off.const))
                if s is not d:
                    return self.ptrs(s.ops[0] if s.op == 'store' else s.res)
            elif len(ps) == 1 and ps[0][1] is not None:
                return one(('elem', ps[0][1].root, v))
            return one(('value', v))
        return one(('value', v))

    def merge(self, ps):
        if len(ps) > 1 and all(p is not None for g, p in ps) and len({(p.root, p.off) for g, p in ps}) == 1:
            return [(Facts(), ps[0][1])]
        return ps

    def loopptr(self, v, d):
        """a pointer that moves through one object: its offset is a variable of the loop"""
        other = [(Facts(), Ptr(('value', v), L()))]
        inits = [(o, b) for o, b in d.incoming if b not in self.f.latches[d.block]]
        backs = [(o, b) for o, b in d.incoming if b in self.f.latches[d.block]]
        if len(inits) != 1:
            return other
        ip = self.ptrs(inits[0][0])
        if len(ip) != 1 or ip[0][1] is None:
            return other
        steps = []
        saved, self.pmemo = self.pmemo, {}
        self.moving.add(v)
        try:
            for o, b in backs:
                bp = self.ptrs(o)
                if len(bp) != 1 or bp[0][1] is None or bp[0][1].root != ('moving', v):
                    return other
                steps.append((bp[0][1].off, b))
        finally:
            self.moving.discard(v)
            self.pmemo = saved
        ks = [s.const for s, b in steps]
        if all(k is not None for k in ks) and any(ks):
            # it moves in whole elements: the variable counts them
            g = 0
            for k in ks:
                g = gcd(g, abs(k))
            self.offphi[v] = (L(), [(lift(k // g), b) for k, (s, b) in zip(ks, steps)])
            return [(Facts(), Ptr(ip[0][1].root, ip[0][1].off + atom(('o', v)) * g))]
        self.offphi[v] = (ip[0][1].off, steps)
        return [(Facts(), Ptr(ip[0][1].root, atom(('o', v))))]

    def ptrdiff(self, x, y):
        """how far apart two pointers into one object are"""
        px, py = self.ptrs(x), self.ptrs(y)
        if len(px) == 1 and len(py) == 1 and px[0][1] is not None and py[0][1] is not None and px[0][1].root == py[0][1].root:
            return px[0][1].off, py[0][1].off
        return None

    def compared(self, i):
        """the difference that a comparison is about, or None"""
        if i.op != 'icmp':
            return None
        ty = i.optys[0] if i.optys else i.ty
        if ty == 'ptr':
            d = self.ptrdiff(i.ops[0], i.ops[1]) if 'null' not in i.ops else None
            return None if d is None else tight(d[0] - d[1])
        if width(ty):
            return self.unz(self.lin(i.ops[0]) - self.lin(i.ops[1]))
        return None

    def gepoff(self, srcty, tys, ops):
        out, t = L(), srcty
        for i, (ty, o) in enumerate(zip(tys, ops)):
            if i == 0:
                out = out + self.lin(o) * self.m.sizeof(t)
                continue
            s = t.strip()
            if s.startswith('%') and s in self.m.structs:
                s = self.m.structs[s]
            if s.startswith('['):
                m = re.match(r'^\[(\d+) x (.*)\]$', s)
                t = m.group(2)
                out = out + self.lin(o) * self.m.sizeof(t)
            else:
                k = int(o)
                fo, t = self.m.field_offset(t, k)
                out = out + fo
        return out

    # ------------------------------------------------------------ facts
    def cond(self, v, want):
        n = intval(v)
        if n is not None:
            return Facts() if bool(n) == want else Facts([lift(-1)])
        d = self.f.defs.get(v)
        if d is None:
            return Facts()
        if d.op == 'icmp':
            pred = d.pred if want else NEG[d.pred]
            x, y = d.ops
            if d.optys and 'ptr' in (d.optys[0], d.ty) or x == 'null' or y == 'null':
                z = x if y == 'null' else y if x == 'null' else None
                if z is None:
                    z = self.ptrdiff(x, y)
                    if z is None:
                        return Facts()
                    return self.compare('s' + pred[1:] if pred[0] == 'u' else pred, z[0], z[1], d.block)
                return Facts(nonnull={z}) if pred == 'ne' else Facts(null={z}) if pred == 'eq' else Facts()
            return self.compare(pred, self.lin(x), self.lin(y), d.block, (x, y))
        if d.op == 'xor' and intval(d.ops[1]) in (1, -1):
            return self.cond(d.ops[0], not want)
        if d.op == 'freeze':
            return self.cond(d.ops[0], want)
        a = b = None
        if d.op in ('and', 'or') and width(d.ty) == 1:
            isand, a, b = d.op == 'and', d.ops[0], d.ops[1]
        elif d.op == 'select' and intval(d.ops[2]) == 0:
            isand, a, b = True, d.ops[0], d.ops[1]
        elif d.op == 'select' and intval(d.ops[1]) == 1:
            isand, a, b = False, d.ops[0], d.ops[2]
        if a is not None:
            if isand == want:
                return self.cond(a, want) + self.cond(b, want)
            return Facts(alt=[[self.cond(a, want), self.cond(b, want)]])
        if d.op == 'phi':
            ops = [(o, b) for o, b in d.incoming]
            if d.block not in self.f.loops:
                alts = []
                for o, b in ops:
                    n = intval(o)
                    if n is not None and bool(n) != want:
                        continue
                    alts.append(self.edge(b, d.block) + (self.cond(o, want) if n is None else Facts()))
                if len(alts) == 1:
                    return alts[0]
                return Facts(alt=[alts]) if alts else Facts([lift(-1)])
        return Facts()

    def compare(self, pred, x, y, block=None, raw=()):
        d = x - y
        ks = [m for m in d.t if m]
        if len(ks) == 1 and len(ks[0]) == 1 and ks[0][0] in self.cases and abs(d.t[ks[0]]) == 1 and not self.busy:
            # a merged value compared with a constant: only some of the ways to it remain
            a = ks[0][0]
            self.busy = True
            try:
                left = []
                for g, e in self.casesof(a):
                    k = d.subst(a, e).const
                    if k is None or pred[0] == 'u' or {'eq': k == 0, 'ne': k != 0, 'slt': k < 0, 'sle': k <= 0, 'sgt': k > 0, 'sge': k >= 0}[pred]:
                        left.append(g + Facts([atom(a) - e, e - atom(a)]))
            finally:
                self.busy = False
            if len(left) == 1:
                return self.compare1(pred, x, y, d, block) + left[0]
            if left and len(left) < len(self.casesof(a)):
                return self.compare1(pred, x, y, d, block) + Facts(alt=[left])
            if not left:
                return Facts([lift(-1)])
        return self.compare1(pred, x, y, d, block)

    busy = False

    def compare1(self, pred, x, y, d, block):
        if pred == 'eq':
            return Facts([d, -d])
        if pred == 'ne':
            return Facts(ne=[d])
        if pred[0] == 'u':
            px = self.prove(x, block) if block else False
            py = self.prove(y, block) if block else False
            # compared with a number below 2^(n-1) from above, the other one is below it too
            if pred in ('ult', 'ule'):
                if not py:
                    return Facts()
                lo = [x]
            else:
                if not px:
                    return Facts()
                lo = [y]
            s = {'ult': y - x - 1, 'ule': y - x, 'ugt': x - y - 1, 'uge': x - y}[pred]
            return Facts(lo + [s])
        return Facts([{'slt': y - x - 1, 'sle': y - x, 'sgt': x - y - 1, 'sge': x - y}[pred]])

    def edge(self, b, to):
        """facts when control goes from b to `to`"""
        key = ('edge', b, to)
        return self.once(self.fmemo, key, lambda: self.at(b), lambda: self.at(b) + self.branch(b, to))

    def branch(self, b, to):
        t = self.f.blocks[b].term
        if t.op == 'br' and len(t.targets) == 2 and t.targets[0] != t.targets[1]:
            return self.cond(t.ops[0], t.targets[0] == to)
        if t.op == 'switch' and t.ops:
            vals = [(int(v), k) for v, k in self.switchcases(t)]
            x = self.lin(t.ops[0])
            mine = [v for v, k in vals if k == to]
            if t.targets and t.targets[0] == to and not mine:
                return Facts(ne=[x - v for v, k in vals if k != to])
            if len(mine) == 1 and t.targets[0] != to:
                return Facts([x - mine[0], lift(mine[0]) - x])
        return Facts()

    def switchcases(self, t):
        return re.findall(r'i\d+ (-?\d+), label %("[^"]*"|[\w.$-]+)', t.raw)

    def at(self, b):
        """facts at the start of block b"""
        return self.once(self.fmemo, b, Facts, lambda: self._at(b))

    def _at(self, b):
        f = self.f
        if b == f.rpo[0]:
            return Facts(self.c.facts(self) if self.c else ())
        if b not in f.idom:
            return Facts([lift(-1)])
        d = f.idom[b]
        out = self.at(d)
        preds = [p for p in f.blocks[b].preds if p in f.idom]
        fwd = [p for p in preds if not f.dominates(b, p)]
        if len(fwd) == 1:
            out = (self.at(fwd[0]) if fwd[0] != d else out) + self.branch(fwd[0], b)
        elif len(fwd) > 1 and len(fwd) <= 6:
            alts = []
            for p in fwd:
                e = self.below(d, p, b)
                alts.append(e)
            if all(e is not None for e in alts):
                out = out + Facts(alt=[alts])
        if b in f.loops:
            out = out + Facts(self.inv.get(b, ()))
        return out

    def below(self, d, p, b):
        """facts of the way from d to b through p (without those that hold at d)"""
        out = self.branch(p, b)
        n = 0
        while p != d and n < 40:
            preds = [q for q in self.f.blocks[p].preds if q in self.f.idom and not self.f.dominates(p, q)]
            if p in self.f.loops:
                out = out + Facts(self.inv.get(p, ()))
            if len(preds) == 1:
                out = out + self.branch(preds[0], p)
                p = preds[0]
            else:
                p = self.f.idom[p]
            n += 1
        return out

    # ------------------------------------------------------------ decision
    def prove(self, goal, at, depth=3):
        """goal >= 0 at a block or under facts"""
        goal = lift(goal)
        if goal.const is not None and goal.const >= 0:
            return True
        if isinstance(at, str):
            key = ('p', goal, at)
            return self.once(self.fmemo, key, lambda: False, lambda: self._prove(goal, self.at(at), depth))
        return self._prove(goal, at, depth)

    def close(self, ge, goal):
        """the facts together with what always holds of their atoms"""
        ge = list(ge)
        seen, extra = set(), []
        work = [a for x in ge + [goal] for a in x.atoms()]
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            for x in self.always.get(a, ()):
                ge.append(x)
                work += list(x.atoms())
            extra += self.rely.get(a, ())
            if a[0] == 'z':
                work.append(a[1])
        return ge, extra

    def _prove(self, goal, F, depth, split=False):
        ge, extra = self.close(F.ge, goal)
        for e in extra:
            F = F + e
        if extra:
            ge, _ = self.close(F.ge, goal)
        if any(x.const is not None and x.const < 0 for x in ge):
            return True
        if F.nonnull & F.null:
            return True
        if F.ne:
            ge = self.apart(ge, F.ne)
            if ge is None:
                return True
        if entails(ge, goal):
            return True
        if split and lin.infeasible(ge):
            return True
        if depth <= 0:
            return False
        for alts, sub in self.splits(goal, F, ge)[:5]:
            ok = True
            for g, e in alts:
                G = F + g
                G.alt = [x for x in G.alt if x is not alts]
                if sub is not None:
                    G = G + Facts([atom(sub) - e, e - atom(sub)])
                    q = goal.subst(sub, e)
                else:
                    q = goal
                if not self._prove(q, Facts(G.ge, G.ne, [x for x in G.alt if x is not sub], G.nonnull, G.null) if sub is None else G, depth - 1, True):
                    ok = False
                    break
            if ok:
                return True
        return False

    def apart(self, ge, ne):
        ge = list(ge)
        for _ in range(2):
            n = len(ge)
            for d in ne:
                if d.const is not None:
                    if d.const == 0:
                        return None
                    continue
                need = set(d.t)
                if d - 1 in ge or -d - 1 in ge:
                    continue
                if entails(ge, d):
                    ge.append(d - 1)
                elif entails(ge, -d):
                    ge.append(-d - 1)
            if len(ge) == n:
                break
        return ge

    def splits(self, goal, F, ge):
        """case distinctions that concern the goal: [([(Facts, value)], atom or None)]"""
        out, seen = [], set()
        need = {m for m in goal.t if m}
        near = set(goal.atoms())
        rel = lin.relevant(ge, set(goal.t))
        far = {a for x in rel for a in x.atoms()}
        for group in (near, far):
            for a in sorted(group, key=repr):
                if a in self.cases and a not in seen:
                    seen.add(a)
                    out.append((self.casesof(a), a))
            if group is near:
                for alts in F.alt:
                    at = {a for g in alts for x in g.ge + g.ne for a in x.atoms()}
                    if at & (near | far):
                        out.append(([(Facts(g.ge, g.ne, g.alt, g.nonnull, g.null), None) for g in alts], None))
        # disjunctions are used up
        res = []
        for alts, a in out:
            res.append((alts, a))
        return res

    def casesof(self, a):
        key = ('cases', a)
        return self.once(self.fmemo, key, list, lambda: self.cases[a]())

    def dead(self, F):
        return self._prove(lift(-1), F, 2, True)

    # ------------------------------------------------------------ loops
    def solve(self):
        f = self.f
        self.ivs = {}
        for h in f.loops:
            self.ivs[h] = [i.res for i in f.blocks[h].instrs if i.op == 'phi' and (width(i.ty) or i.ty == 'ptr')]
        self.reset()
        for h in f.loops:
            self.inv[h] = []
        for rnd in (0, 1):
            self.reset()
            new = {h: self.candidates(h, rnd) for h in f.loops}
            for h in f.loops:
                self.inv[h] = self.inv[h] + [c for c in dict.fromkeys(new[h]) if c not in self.inv[h]]
            self.houdini()

    def reset(self):
        self.memo, self.fmemo, self.always, self.rely, self.cases = {}, {}, {}, {}, {}
        self.pmemo = {}
        self.offphi = {}
        self.unsigned = {}
        if self.c:
            self.c.bind(self)

    def variables(self, h):
        """(atom, [(form, block)] initial, [(form, latch)] next) of the variables of a loop"""
        out = []
        f = self.f
        for v in self.ivs[h]:
            d = f.defs[v]
            if d.ty == 'ptr':
                self.ptrs(v)
                if v not in self.offphi:
                    continue
                init, steps = self.offphi[v]
                ini = [(init, b) for o, b in d.incoming if b not in f.latches[h]]
                nxt = [(s + atom(('o', v)), b) for s, b in steps]
                out.append((('o', v), ini, nxt))
            else:
                a = ('v', v)
                self.lin(v)
                out.append((a, [(self.lin(o), b) for o, b in d.incoming if b not in f.latches[h]], [(self.lin(o), b) for o, b in d.incoming if b in f.latches[h]]))
        return out

    def inside(self, h, e):
        """the form only has atoms that keep their value in the loop, apart from the variables of its header"""
        for a in e.atoms():
            while a[0] in ('z', 's') and len(a) == 2:
                a = a[1]
            if any(isinstance(x, L) and not self.inside(h, x) or isinstance(x, L) and self.varies(h, x) for x in a):
                return False
            if a[0] in ('v', 'o'):
                d = self.f.defs.get(a[1])
                if d is not None and d.block in self.f.loops[h] and not (d.op == 'phi' and d.block == h):
                    return False
        return True

    def varies(self, h, e):
        return any(a[0] in ('v', 'o') and self.f.defs.get(a[1]) is not None and self.f.defs[a[1]].block in self.f.loops[h] for a in e.atoms())

    def candidates(self, h, rnd):
        f = self.f
        vs = self.variables(h)
        mine = {a for a, i, n in vs}
        out = []
        one = {}
        for a, ini, nxt in vs:
            x = atom(a)
            es = {e for e, b in ini}
            if len(es) == 1:
                one[a] = e = es.pop()
                out += [x - e, e - x]
            out += [x, x + 1, x - 1]
            for e, b in nxt:
                for k in e.atoms():
                    for g in self.always.get(k, ()):
                        if g.t.get((k,)) in (1, -1):
                            out.append(g.subst(k, x))
                    for F in self.rely.get(k, ()):
                        for alts in F.alt:
                            for G in alts:
                                out += [g.subst(k, x) for g in G.ge]
        if rnd == 0:
            # two variables that move together
            for a, i1, n1 in vs:
                for b, i2, n2 in vs:
                    if a == b or a not in one or b not in one:
                        continue
                    x, y = atom(a), atom(b)
                    out += [(x - one[a]) - (y - one[b]), (y - one[b]) - (x - one[a])]
                    sa = {e - x for e, k in n1}
                    if len(sa) == 1:
                        for s in self.exits(h, list(sa)[0]):
                            sb = {e - y for e, k in n2}
                            t = list(sb)[0] if len(sb) == 1 else None
                            if t is not None and t.const in (1, -1) and self.inside(h, s) and not s.atoms() & mine:
                                d = (x - one[a]) * t.const - (y - one[b]) * s
                                out += [d, -d]
                    sb = {e - y for e, k in n2}
                    if len(sa) == 1 and len(sb) == 1:
                        s, t = sa.pop(), sb.pop()
                        if self.inside(h, s) and self.inside(h, t) and not (s.atoms() | t.atoms()) & mine and t.const in (1, -1) and s.const is None or \
                                s.const is not None and t.const in (1, -1) and s.const not in (0, t.const):
                            d = (x - one[a]) * t.const - (y - one[b]) * s
                            d = d if t.const > 0 else d
                            out += [d, -d]
        # comparisons
        for b in f.rpo:
            if b not in f.loops[h] and not f.dominates(b, h):
                continue
            for i in f.blocks[b].instrs:
                d = self.compared(i)
                if d is not None:
                    if not d.atoms() & mine:
                        # a bound of the variable of another loop may bound this one
                        for a in d.atoms():
                            if abs(d.t.get((a,), 0)) == 1 and a[0] in ('v', 'o') and a not in mine and self.isvar(a):
                                e = d.subst(a, L())
                                if self.inside(h, e):
                                    for m in mine:
                                        if self.samekind(m, a):
                                            s = d.t[(a,)]
                                            y = (e * -s)
                                            out += [y - atom(m), y - atom(m) - 1, y - atom(m) + 1]
                        continue
                    if self.inside(h, d):
                        out += [d, d - 1, d + 1, -d, -d - 1, -d + 1]
        # what the initial values satisfy
        for a, ini, nxt in vs:
            for e, b in ini:
                for k in e.atoms():
                    if e.t.get((k,)) == 1 and len(e.t) == 1:
                        for g in self.always.get(k, ()):
                            out.append(g.subst(k, atom(a)))
                        for g in self.at(b).ge:
                            if k in g.atoms() and len(g.t) <= 3:
                                out.append(g.subst(k, atom(a)))
        return [c for c in out if c.atoms() & mine and self.inside(h, c)]

    def exits(self, h, s):
        """a step that is a variable of an inner loop, with what that variable may be at the end of the loop"""
        ys = [a for a in s.atoms() if self.isvar(a) and self.f.defs[a[1]].block != h and self.f.defs[a[1]].block in self.f.loops[h]]
        if len(ys) != 1:
            return
        y = ys[0]
        k = self.f.defs[y[1]].block
        vs = {a: (i, n) for a, i, n in self.variables(k)}
        if y not in vs or len(vs[y][0]) != 1:
            return
        step = {(n - atom(y)).const for n, b in vs[y][1]}
        if step not in ({1}, {-1}):
            return
        for b in self.f.loops[k]:
            for i in self.f.blocks[b].instrs:
                d = self.compared(i)
                if d is None:
                    continue
                for v in set(vs) & d.atoms():
                    c = d.t.get((v,))
                    if c not in (1, -1) or len(vs[v][0]) != 1 or any((n - atom(v)).const not in (1, -1) for n, _ in vs[v][1]):
                        continue
                    end = d.subst(v, L()) * -c
                    sv = {(n - atom(v)).const for n, _ in vs[v][1]}
                    if len(sv) == 1 and self.inside(h, end) and not set(vs) & end.atoms():
                        yield s.subst(y, vs[y][0][0][0] + (end - vs[v][0][0][0]) * (list(sv)[0] * list(step)[0]))

    def isvar(self, a):
        d = self.f.defs.get(a[1])
        return d is not None and d.op == 'phi' and d.block in self.f.loops

    def samekind(self, a, b):
        return a[0] == b[0]

    def unz(self, d):
        for a in list(d.atoms()):
            if a[0] == 'z':
                d = d.subst(a, atom(a[1]))
        return d

    def houdini(self):
        f = self.f
        order = [b for b in f.rpo if b in f.loops]
        for n in range(40):
            self.reset()
            changed = False
            for h in order:
                vs = self.variables(h)
                keep = []
                for c in self.inv[h]:
                    if self.inductive(h, c, vs):
                        keep.append(c)
                if len(keep) != len(self.inv[h]):
                    self.inv[h] = keep
                    changed = True
                    self.fmemo = {}
            if not changed:
                return
        for h in order:
            self.inv[h] = []
        self.reset()

    def inductive(self, h, c, vs):
        f = self.f
        mine = {a: (i, n) for a, i, n in vs}
        for p in f.blocks[h].preds:
            if p not in f.idom:
                continue
            latch = p in f.latches[h]
            env = {}
            for a, (ini, nxt) in mine.items():
                for e, b in (nxt if latch else ini):
                    if b == p:
                        env[a] = e
            q = c
            tmp = {}
            for k, a in enumerate(c.atoms()):
                if a in mine:
                    if a not in env:
                        return False
                    tmp[('tmp', k)] = env[a]
                    q = q.subst(a, atom(('tmp', k)))
            for k, e in tmp.items():
                q = q.subst(k, e)
            if not self.prove(q, self.edge(p, h), 4):
                return False
        return True
