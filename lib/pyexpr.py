"""Expression evaluation of the abstract interpreter (methods of pyabs.Interp)."""
import ast
import builtins
import string

from pyval import *

CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.In: 'in', ast.NotIn: 'not in',
          ast.Is: 'is', ast.IsNot: 'is not'}
NUM = (int, float, bool)
ARITH = {
    '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b, '//': lambda a, b: a // b,
    '%': lambda a, b: a % b, '**': lambda a, b: a ** b if abs(b) < 200 else None, '<<': lambda a, b: a << b if b < 500 else None,
    '>>': lambda a, b: a >> b, '|': lambda a, b: a | b, '&': lambda a, b: a & b, '^': lambda a, b: a ^ b}


def ev(self, n, fr):
    self.steps += 1
    m = builtins.getattr(self, 'e_' + type(n).__name__, None)
    if hasattr(n, 'lineno'):
        self.cur = (fr.mod.relpath, n.lineno)
    if m is None:
        self.unknown_nodes.add((type(n).__name__,) + self.cur)
        return Sym('top', type(n).__name__, self.cur)
    return m(n, fr)


def evs(self, nodes, fr):
    out = []
    for n in nodes:
        if isinstance(n, ast.Starred):
            v = self.ev(n.value, fr)
            segs = self.iter_segs(v)
            if all(s[0] == 'item' for s in segs):
                out += [s[1] for s in segs]
            else:
                out.append(Sym('star', self.freeze(v)))
        else:
            out.append(self.ev(n, fr))
    return out


def e_Constant(self, n, fr):
    return n.value


def e_Name(self, n, fr):
    v = self.lookup(n.id, fr)
    if v is UNDEF:
        if n.id in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[n.id]
        import builtins
        if hasattr(builtins, n.id):
            return External(n.id)
        f = fr
        self.event('raise', exc='NameError', cond=None)
        raise PyRaise(Exc('NameError', (n.id,)))
    if isinstance(v, Choice) and any(x is UNDEF for x in v.vals):
        v = choice([x for x in v.vals if x is not UNDEF])
    return v


def e_NamedExpr(self, n, fr):
    v = self.ev(n.value, fr)
    self.assign(n.target, v, fr)
    return v


def e_Starred(self, n, fr):
    return self.ev(n.value, fr)


def e_Await(self, n, fr):
    return self.ev(n.value, fr)


def e_Yield(self, n, fr):
    self.do_yield(fr, [('item', self.ev(n.value, fr) if n.value else None)])
    return None


def e_Attribute(self, n, fr):
    return self.getattr(self.ev(n.value, fr), n.attr)


def e_Subscript(self, n, fr):
    o = self.ev(n.value, fr)
    k = self.ev(n.slice, fr)
    return self.getitem(o, k)


def e_Slice(self, n, fr):
    return Sym('slice', *[self.freeze(self.ev(x, fr)) if x is not None else None for x in (n.lower, n.upper, n.step)])


def e_Tuple(self, n, fr):
    return tuple(self.evs(n.elts, fr))


def e_List(self, n, fr):
    segs = []
    for x in n.elts:
        if isinstance(x, ast.Starred):
            segs += self.iter_segs(self.ev(x.value, fr))
        else:
            segs.append(('item', self.ev(x, fr)))
    o = self.new_list(segs)
    o.meta['epoch'] = self.epoch
    return o


def e_Set(self, n, fr):
    return self.mklist(self.evs(n.elts, fr), 'set')


def e_Dict(self, n, fr):
    items, rest = [], ()
    for k, v in zip(n.keys, n.values):
        val = self.ev(v, fr)
        if k is None:
            if isinstance(val, Obj) and val.kind == 'dict':
                for a, b in self.get(val.id, 'items', ()):
                    items = [(x, y) for x, y in items if not same(x, a)] + [(a, b)]
                rest += self.get(val.id, 'rest', ())
            else:
                rest += ((Sym('top', 'key'), self.freeze(val)),)
        else:
            kk = self.ev(k, fr)
            items = [(x, y) for x, y in items if not same(x, kk)] + [(kk, val)]
    o = self.new_dict(items, rest)
    o.meta['epoch'] = self.epoch
    return o


def e_Lambda(self, n, fr):
    return self.make_func(n, fr, '<lambda>')


def e_IfExp(self, n, fr):
    outs, st, sf = self.branch(n.test, fr)
    vals = []
    res = None
    for state, expr in ((st, n.body), (sf, n.orelse)):
        if state is None:
            continue
        self.S = state
        try:
            vals.append(self.ev(expr, fr))
        except PyRaise as e:
            err = e
            continue
        res = self.merge(res, self.S)
    self.S = res
    if res is None:
        self.S = st or sf
        raise err
    v = vals[0]
    for w in vals[1:]:
        v = join(v, w)
    return v


def e_BoolOp(self, n, fr):
    isand = isinstance(n.op, ast.And)
    vals = []
    conds = []
    for i, x in enumerate(n.values):
        v = self.ev(x, fr)
        t, c = self.truth(v)
        last = i == len(n.values) - 1
        if t is (not isand):          # short-circuits
            vals.append(v)
            if not conds:
                return v
            return v if not isand and all(isinstance(w, Sym) for w in vals[:-1]) and t is True and isinstance(v, bool) else choice(vals)
        if t is None:
            vals.append(v)
            conds.append(c)
        elif last:
            if not conds:
                return v
            if v is True and isand or v is False and not isand:
                continue
            vals.append(v)
    if not conds:
        return v
    if all(isinstance(v, Sym) and v.op in ('cmp', 'not', 'and', 'or', 'any', 'all', 'truth', 'isinstance', 'hasattr', 'call', 'meth') for v in vals):
        return Sym('and' if isand else 'or', *vals) if len(vals) > 1 else vals[0]
    if isand:
        return choice(vals)
    return choice(vals)


def e_Compare(self, n, fr):
    left = self.ev(n.left, fr)
    res = []
    for op, r in zip(n.ops, n.comparators):
        right = self.ev(r, fr)
        if self.oncompare is not None:
            self.oncompare(self, n, CMPOPS[type(op)], left, right)
        v = self.compare(CMPOPS[type(op)], left, right)
        if v is False:
            return False
        if v is not True:
            res.append(v)
        left = right
    if not res:
        return True
    return res[0] if len(res) == 1 else Sym('and', *res)


def is_num(self, v):
    return isinstance(v, NUM)


def compare(self, op, a, b):
    if isinstance(a, Choice) or isinstance(b, Choice):
        av = a.vals if isinstance(a, Choice) else (a,)
        bv = b.vals if isinstance(b, Choice) else (b,)
        if len(av) * len(bv) <= 40:
            rs = [self.compare(op, x, y) for x in av for y in bv]
            if all(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        return Sym('cmp', op, self.freeze(a), self.freeze(b))
    if op in ('is', 'is not'):
        r = None
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            x, y = (a, b) if (a is None or isinstance(a, bool)) else (b, a)
            if isinstance(y, (bool, type(None))):
                r = x is y
            elif isinstance(y, Sym):
                if x is None and self.ext.notnone(y):
                    r = False
            else:
                r = False
        elif isinstance(a, (Obj, Func, Cls, Mod, External, Other)) and isinstance(b, (Obj, Func, Cls, Mod, External, Other)):
            r = a == b
        elif a is b and isinstance(a, Sym):
            r = True
        if r is None:
            c = Sym('cmp', op, self.freeze(a), self.freeze(b))
            return c
        return r if op == 'is' else not r
    if op in ('in', 'not in'):
        r = self.ext.contains(b, a)
        if r is None:
            return Sym('cmp', op, self.freeze(a), self.freeze(b))
        return r if op == 'in' else not r
    if op in ('==', '!='):
        r = self.ext.equal(a, b)
        if r is not None:
            return r if op == '==' else not r
        fa, fb = self.freeze(a), self.freeze(b)
        if isinstance(fa, NUM) and not isinstance(fb, NUM):
            fa, fb = fb, fa
        return Sym('cmp', op, fa, fb)
    if isinstance(a, NUM) and isinstance(b, NUM) or isinstance(a, str) and isinstance(b, str):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind == 'set':
        return Sym('cmp', op, self.freeze(a), self.freeze(b))
    if isinstance(a, (str, Str, type(None), Other)) and isinstance(b, NUM) or isinstance(b, (str, Str, type(None))) and isinstance(a, NUM):
        self.event('raise', exc='TypeError', cond=None)
        raise PyRaise(Exc('TypeError'))
    fa, fb = self.freeze(a), self.freeze(b)
    if isinstance(fa, NUM) and not isinstance(fb, NUM):
        op, fa, fb = SWAP[op], fb, fa
    c = Sym('cmp', op, fa, fb)
    d = self.decide(c)
    return c if d is None else d


def e_UnaryOp(self, n, fr):
    v = self.ev(n.operand, fr)
    if isinstance(n.op, ast.Not):
        t, c = self.truth(v)
        return negate(c) if t is None else not t
    if isinstance(v, NUM):
        return {ast.USub: lambda: -v, ast.UAdd: lambda: +v, ast.Invert: lambda: ~v}[type(n.op)]()
    op = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(n.op)]
    if isinstance(v, Choice):
        return choice([(-x if op == '-' else x) if isinstance(x, NUM) else Sym('un', op, self.freeze(x)) for x in v.vals])
    if op == '-' and isinstance(v, Sym) and v.op == 'un' and v.args[0] == '-':
        return v.args[1]
    return Sym('un', op, self.freeze(v))


def e_BinOp(self, n, fr):
    from pyabs import OPS
    a = self.ev(n.left, fr)
    b = self.ev(n.right, fr)
    return self.binop(OPS[type(n.op)], a, b)


def binop(self, op, a, b):
    if isinstance(a, Choice) or isinstance(b, Choice):
        av = a.vals if isinstance(a, Choice) else (a,)
        bv = b.vals if isinstance(b, Choice) else (b,)
        if len(av) * len(bv) <= 16:
            out, err = [], None
            for x in av:
                for y in bv:
                    try:
                        out.append(self.binop(op, x, y))
                    except PyRaise as e:
                        err = e
            if not out:
                raise err
            return choice(out)
        return Sym('bin', op, self.freeze(a), self.freeze(b))
    if isinstance(a, NUM) and isinstance(b, NUM):
        try:
            r = ARITH[op](a, b)
            if r is not None:
                return r
        except (ZeroDivisionError, ValueError, TypeError, OverflowError) as e:
            self.event('raise', exc=type(e).__name__, cond=None)
            raise PyRaise(Exc(type(e).__name__))
    if op == '%' and isinstance(a, (str, Str)):
        return self.ext.percent(a, b)
    if op == '+':
        if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
            return cat(a, b)
        if isinstance(a, (str, Str)) or isinstance(b, (str, Str)):
            if isinstance(a, Sym):
                return cat(mkstr([self.fmt_field(a, '', '')]), b)
            if isinstance(b, Sym):
                return cat(a, mkstr([self.fmt_field(b, '', '')]))
            if isinstance(a, Other) or isinstance(b, Other):
                return cat(self.tostr(a), self.tostr(b))
            self.event('raise', exc='TypeError', cond=None)
            raise PyRaise(Exc('TypeError'))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, Obj) and a.kind == 'list' and isinstance(b, Obj) and b.kind in ('list',):
            return self.new_list(self.segs(a) + self.segs(b))
        if isinstance(a, Obj) and a.kind == 'list' or isinstance(b, Obj) and b.kind == 'list':
            other = b if isinstance(a, Obj) and a.kind == 'list' else a
            if isinstance(other, Sym) and other.op in ('top', 'list'):
                return self.new_list(self.iter_segs(a) + self.iter_segs(b))
    if op == '*':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (str, Str)):
                if isinstance(y, int):
                    return mkstr(list(parts_of(x)) * max(0, min(y, 2000)))
                return mkstr([RepS(x, '', self.freeze(y), 0)])
            if isinstance(x, Obj) and x.kind == 'list':
                if isinstance(y, int):
                    return self.new_list(self.segs(x) * max(0, min(y, 2000)))
                return self.new_list([('rep', self.segs(x), self.freeze(y), 0)])
            if isinstance(x, tuple) and isinstance(y, int):
                return x * max(0, min(y, 2000))
    if isinstance(a, Obj) and a.kind == 'set' and op in '|-&^':
        return self.ext.set_op(op, a, b)
    if isinstance(a, Obj) and a.kind == 'dict' and op == '|' and isinstance(b, Obj):
        items = list(self.get(a.id, 'items', ()))
        for k, v in self.get(b.id, 'items', ()):
            items = [(x, y) for x, y in items if not same(x, k)] + [(k, v)]
        return self.new_dict(items, self.get(a.id, 'rest', ()) + self.get(b.id, 'rest', ()))
    if isinstance(a, (str, Str)) and op in '-/&|^' or a is None:
        if not isinstance(a, External):
            self.event('raise', exc='TypeError', cond=None)
            raise PyRaise(Exc('TypeError'))
    fa, fb = self.freeze(a), self.freeze(b)
    # a few identities
    if isinstance(fb, NUM) and not isinstance(fb, bool):
        if op in '+-' and fb == 0 and isinstance(fb, int):
            return a
        if op in ('*', '/', '//') and fb == 1 and isinstance(fb, int) and op != '/':
            return a
    if isinstance(fa, NUM) and not isinstance(fa, bool):
        if op == '+' and fa == 0 and isinstance(fa, int):
            return b
        if op == '*' and fa == 1 and isinstance(fa, int):
            return b
    return Sym('bin', op, fa, fb)


def freeze(self, v, depth=6):
    """immutable image of a value, for use inside terms"""
    if isinstance(v, (Sym, str, Str, int, float, bool, bytes, type(None), External, Other, Func, Cls, Mod, Exc)):
        return v
    if isinstance(v, complex):
        return v
    if depth == 0:
        return Sym('top', 'deep')
    if isinstance(v, tuple):
        return tuple(self.freeze(x, depth - 1) for x in v)
    if isinstance(v, Choice):
        return Sym('choice', *[self.freeze(x, depth - 1) for x in v.vals])
    if isinstance(v, Obj):
        if v.kind in ('list', 'set'):
            return Sym(v.kind, *[self.freeze(s, depth) if s[0] == 'item' else freeze_seg(self, s, depth - 1) for s in self.segs(v)])
        if v.kind == 'dict':
            return Sym('dict', *[(self.freeze(a, depth - 1), self.freeze(b, depth - 1)) for a, b in self.get(v.id, 'items', ()) + self.get(v.id, 'rest', ())])
        if v.kind == 'arr':
            return Sym('arr', v.id, self.freeze(self.get(v.id, 'shape'), depth - 1), v.meta.get('init'),
                       tuple((self.freeze(a, depth - 1), self.freeze(b, depth - 1)) for a, b in self.get(v.id, 'stores', ())))
        if v.meta.get('term') is not None:
            return v.meta['term']
        return Sym('obj', v.id, str(builtins.getattr(v.meta.get('cls'), 'name', v.kind)))
    if isinstance(v, Bound):
        return Sym('bound', v.func.qual if isinstance(v.func, Func) else '?', self.freeze(v.self_, depth - 1))
    if isinstance(v, Meth):
        return Sym('methref', self.freeze(v.obj, depth - 1), v.name)
    return Sym('top', type(v).__name__)


def freeze_seg(self, s, depth):
    if s[0] == 'item':
        return ('item', self.freeze(s[1], depth))
    if s[0] == 'rep':
        return ('rep', tuple(freeze_seg(self, x, depth) for x in s[1]), s[2], s[3])
    if s[0] == 'alt':
        return ('alt', tuple(tuple(freeze_seg(self, x, depth) for x in a) for a in s[1]))
    return (s[0],) + tuple(str(x) if not isinstance(x, Sym) else x for x in s[1:])


def deref(self, f):
    """object behind a frozen reference, if any"""
    return f


def list_len(self, o):
    n, syms = 0, []

    def seglen(segs):
        n, syms = 0, []
        for s in segs:
            if s[0] == 'item':
                n += 1
            elif s[0] == 'rep':
                k, ks = seglen(s[1])
                if ks:
                    syms.append(Sym('bin', '*', s[2], Sym('sum', k, *ks)) if not isinstance(s[2], int) or True else None)
                elif k == 1:
                    syms.append(s[2])
                elif k:
                    syms.append(Sym('bin', '*', s[2], k))
            elif s[0] == 'alt':
                ls = [seglen(a) for a in s[1]]
                if all(not x[1] for x in ls) and len(set(x[0] for x in ls)) == 1:
                    n += ls[0][0]
                else:
                    syms.append(Sym('altlen', *[(x[0],) + tuple(x[1]) for x in ls]))
            else:
                syms.append(Sym('seglen', *[x if isinstance(x, Sym) else str(x) for x in s[1:]]))
        ints = [x for x in syms if isinstance(x, int)]
        return n + sum(ints), [x for x in syms if not isinstance(x, int)]
    n, syms = seglen(self.segs(o))
    if o.kind == 'set' and (syms or n > 1) and not allconst_items(self.segs(o)):
        return Sym('call', 'len', (self.freeze(o),), ())
    if not syms:
        return n
    v = syms[0]
    for s in syms[1:]:
        v = Sym('bin', '+', v, s)
    if n:
        v = Sym('bin', '+', v, n)
    return v


def allconst_items(segs):
    from pyabs import isconst
    return all(s[0] == 'item' and (isconst(s[1]) or isinstance(s[1], Other)) for s in segs)


def elems_of(self, v):
    """flat list of possible element values"""
    out = []
    for s in self.iter_segs(v):
        out += self.seg_elems(s)
    return out


def iter_segs(self, v, lid=None):
    """the elements of an iterable, as segments"""
    if lid is None:
        self.nloop += 1
        lid = self.nloop
    if isinstance(v, tuple):
        return [('item', x) for x in v]
    if isinstance(v, str):
        return [('item', c) for c in v] if len(v) < 500 else [('rep', (('item', Sym('elem', v, lid)),), len(v), lid)]
    if isinstance(v, (bytes,)):
        return [('item', c) for c in v]
    if isinstance(v, Obj):
        if v.kind == 'list':
            return list(self.segs(v))
        if v.kind == 'set':
            segs = self.segs(v)
            if len(segs) <= 1 and all(s[0] == 'item' for s in segs):
                return list(segs)
            es = []
            for s in segs:
                es += self.seg_elems(s)
            if all(isinstance(e, int) for e in es):
                return [('item', e) for e in sorted(es)]
            return [('rep', (('item', Sym('setelem', self.freeze(v), lid)),), Sym('call', 'len', (self.freeze(v),), ()), lid)]
        if v.kind == 'dict':
            segs = [('item', k) for k, x in self.get(v.id, 'items', ())]
            rest = self.get(v.id, 'rest', ())
            if rest:
                segs.append(('rep', (('item', choice([k for k, x in rest])),), Sym('count', v.id), lid))
            return segs
        if v.kind == 'arr':
            sh = self.get(v.id, 'shape')
            n = sh[0] if isinstance(sh, tuple) and sh else self.ext.dim(self.freeze(v), 0)
            return [('rep', (('item', Sym('view', self.freeze(v), (Sym('elem', Sym('range', 0, n, 1), lid),))),), n, lid)]
        if v.kind == 'inst':
            f = self.find_method(v, '__iter__')
            if f:
                return self.iter_segs(self.call(Bound(f, v), [], {}), lid)
        t = self.freeze(v)
        return [('rep', (('item', Sym('elem', t, lid)),), self.ext.dim(t, 0), lid)]
    if isinstance(v, Choice):
        alts = [tuple(self.iter_segs(x, lid)) for x in v.vals]
        return [('alt', tuple(alts))]
    if isinstance(v, Sym):
        if v.op == 'range':
            return [('rep', (('item', Sym('elem', v, lid)),), self.ext.range_len(v), lid)]
        if v.op in ('list', 'set') and all(isinstance(a, tuple) and a and a[0] in SEGTAGS for a in v.args):
            return list(v.args)
        if v.op == 'shape':
            return [('rep', (('item', Sym('elem', v, lid)),), Sym('rank', v.args[0]), lid)]
        if v.op == 'view':
            c = self.ext.view_content(v)
            if isinstance(c, tuple):
                return [('item', x) for x in c]
            arr, idx = v.args
            sh = arr.args[1]
            if isinstance(sh, tuple) and len(idx) < len(sh):
                n = sh[len(idx)]
                return [('rep', (('item', Sym('view', arr, idx + (Sym('elem', Sym('range', 0, n, 1), lid),))),), n, lid)]
        return [('rep', (('item', Sym('elem', v, lid)),), self.ext.dim(v, 0), lid)]
    if v is None or isinstance(v, (int, float)):
        self.event('raise', exc='TypeError', cond=None)
        raise PyRaise(Exc('TypeError', ('not iterable',)))
    t = Sym('elem', self.freeze(v), lid)
    return [('rep', (('item', t),), Sym('count', lid), lid)]


# ---------------------------------------------------------------- comprehensions
def comprehension(self, n, fr, emit):
    """segments produced by the generators of n"""
    from pyabs import Frame
    cf = Frame('comp', fr, fr.mod, n)
    cf.globals = set()

    def run(i):
        if i == len(n.generators):
            return [('item', emit(cf))]
        g = n.generators[i]
        it = self.ev(g.iter, cf if i else fr)
        self.nloop += 1
        lid = self.nloop
        return walk(self.iter_segs(it, lid), g, i)

    def one(v, g, i):
        self.assign(g.target, v, cf)
        pre = self.S
        if g.ifs:
            test = g.ifs[0] if len(g.ifs) == 1 else ast.copy_location(ast.BoolOp(ast.And(), list(g.ifs)), g.ifs[0])
            outs, st, sf = self.branch(test, cf)
            if st is None:
                self.S = sf
                return []
            self.S = st
            segs = run(i + 1)
            if sf is None:
                return segs
            self.S = self.merge(self.S, sf)
            return [('alt', ((), tuple(segs)))]
        return run(i + 1)

    def walk(segs, g, i):
        out = []
        for s in segs:
            if s[0] == 'item':
                out += one(s[1], g, i)
            elif s[0] == 'rep':
                body = []
                for x in s[1]:
                    body += walk([x], g, i)
                if body:
                    out.append(('rep', tuple(body), s[2], s[3]))
            elif s[0] == 'alt':
                out.append(('alt', tuple(tuple(walk(list(a), g, i)) for a in s[1])))
            elif s[0] == 'acc':
                out.append(('acc',) + tuple(s[1:]))
            else:
                lid = self.nloop
                x = one(Sym('elem', s[1] if isinstance(s[1], Sym) else Sym('top', '?'), lid), g, i)
                if x:
                    out.append(('rep', tuple(x), Sym('count', lid), lid))
        return out
    segs = run(0)
    for k in [k for k in self.S.h if k[0] == cf.id]:
        if not cf.captured:
            del self.S.h[k]
    return segs


def e_ListComp(self, n, fr):
    return self.new_list(self.comprehension(n, fr, lambda cf: self.ev(n.elt, cf)))


e_GeneratorExp = e_ListComp


def e_SetComp(self, n, fr):
    return self.new_list(self.comprehension(n, fr, lambda cf: self.ev(n.elt, cf)), 'set')


def e_DictComp(self, n, fr):
    segs = self.comprehension(n, fr, lambda cf: (self.ev(n.key, cf), self.ev(n.value, cf)))
    return self.ext.dict_from_segs(segs)


# ---------------------------------------------------------------- text
def e_JoinedStr(self, n, fr):
    parts = []
    for v in n.values:
        if isinstance(v, ast.Constant):
            parts.append(v.value)
        else:
            parts += parts_of(self.e_FormattedValue(v, fr))
    return mkstr(parts)


def e_FormattedValue(self, n, fr):
    v = self.ev(n.value, fr)
    conv = {-1: '', 115: 's', 114: 'r', 97: 'a'}[n.conversion]
    spec = self.ev(n.format_spec, fr) if n.format_spec else ''
    return mkstr([self.format_value(v, conv, spec)])


def format_value(self, v, conv, spec):
    return self.fmt_field(v, conv, spec)


def fmt_field(self, v, conv, spec):
    """the text part for a value formatted with a conversion and a format spec"""
    if isinstance(spec, Str):
        spec = repr(spec)
    if isinstance(v, (str, bool, int, float, type(None))) and not (isinstance(v, str) and conv == 'r' and False):
        try:
            x = {'': lambda a: a, 's': str, 'r': repr, 'a': ascii}[conv](v)
            return format(x, spec)
        except (ValueError, TypeError) as e:
            self.event('raise', exc=type(e).__name__, cond=None)
            raise PyRaise(Exc(type(e).__name__))
    if isinstance(v, Str) and conv != 'r':
        if spec in ('', 's'):
            return v
        return mkstr([OpS('format:' + spec, v)])
    if isinstance(v, Choice):
        alts = []
        for x in v.vals:
            if x is UNDEF:
                continue
            a = mkstr([self.fmt_field(x, conv, spec)])
            if a not in alts:
                alts.append(a)
        return mkstr([AltS(alts)]) if len(alts) > 1 else alts[0]
    if isinstance(v, Other):
        return mkstr([Hole(Sym('other', v.what), conv, spec, frozenset())])
    if isinstance(v, tuple) and not conv and spec == '':
        from pyabs import isconst
        if isconst(v):
            return str(v)
    if isinstance(v, Obj) and v.kind == 'inst' and v.meta.get('cls') is not None and isinstance(v.meta['cls'], Cls):
        for nm in (('__format__',) if spec else ()) + (('__repr__',) if conv == 'r' else ('__str__', '__repr__')):
            f = self.find_method(v, nm)
            if isinstance(f, Func):
                return self.fmt_field(self.call(Bound(f, v), [spec] if nm == '__format__' else [], {}), '', '')
    return mkstr([Hole(self.freeze(v), conv, spec, self.S.pc)])


def tostr(self, v):
    if isinstance(v, (str, Str)):
        return v
    return mkstr([self.fmt_field(v, '', '')])


def instantiate(self, *a):
    raise NotImplementedError


# ---------------------------------------------------------------- attributes and items
def find_method(self, o, name):
    cls = o.meta.get('cls') if isinstance(o, Obj) else o
    seen = []

    def look(c):
        if not isinstance(c, Cls) or c in seen:
            return None
        seen.append(c)
        v = self.get(c.frame.id, name)
        if v is not UNDEF:
            return v
        for b in c.bases:
            r = look(b)
            if r is not None:
                return r
        return None
    return look(cls)


def getattr(self, o, name):
    if isinstance(o, Choice):
        out, err = [], None
        for x in o.vals:
            if x is UNDEF:
                continue
            try:
                out.append(self.getattr(x, name))
            except PyRaise as e:
                err = e
        if not out:
            raise err
        return choice(out)
    if isinstance(o, Mod):
        v = self.get(o.frame.id, name)
        if v is UNDEF:
            m = self.import_module(o.name + '.' + name)
            if m is not None:
                return m
            self.event('raise', exc='AttributeError', cond=None)
            raise PyRaise(Exc('AttributeError', (o.name, name)))
        return v
    if isinstance(o, External):
        return self.ext.ext_attr(o, name)
    if isinstance(o, Cls):
        if name == '__name__':
            return o.name
        v = self.find_method(o, name)
        if v is None:
            return Sym('attr', Sym('class', o.qual), name)
        return v
    if isinstance(o, Obj) and o.kind in ('inst', 'file'):
        v = self.get(o.id, '.' + name)
        if v is not UNDEF:
            return v
        if name == '__class__':
            return o.meta.get('cls') or External('object')
        if name == '__dict__':
            items = [(k[1][1:], x) for k, x in self.S.h.items() if k[0] == o.id and isinstance(k[1], str) and k[1].startswith('.')]
            d = self.new_dict(items)
            d.meta['vars'] = o
            return d
        if o.meta.get('input'):
            return self.ext.input_attr(o, name)
        m = self.find_method(o, name)
        if m is not None:
            if isinstance(m, Func):
                if 'property' in m.decor or 'cached_property' in m.decor or 'functools.cached_property' in m.decor:
                    return self.call(Bound(m, o), [], {})
                if 'staticmethod' in m.decor:
                    return m
                if 'classmethod' in m.decor:
                    return Bound(m, o.meta.get('cls'))
                return Bound(m, o)
            return m
        if o.meta.get('term') is not None or o.meta.get('extbase'):
            return Meth(o, name)
        if o.kind == 'file':
            return Meth(o, name)
        cls = o.meta.get('cls')
        if isinstance(cls, Cls) and not any(not isinstance(b, Cls) for b in allbases(cls)):
            g = self.find_method(o, '__getattr__')
            if isinstance(g, Func):
                return self.call(Bound(g, o), [name], {})
            self.event('raise', exc='AttributeError', cond=None)
            raise PyRaise(Exc('AttributeError', (name,)))
        return Meth(o, name)
    if isinstance(o, Obj) and o.kind == 'arr':
        if name == 'shape':
            return self.get(o.id, 'shape')
        if name in ('ndim', 'dtype', 'size', 'T'):
            return Sym('attr', self.freeze(o), name)
        return Meth(o, name)
    if isinstance(o, (Func,)):
        if name in ('__name__', '__qualname__'):
            return o.name
        return Sym('attr', Sym('func', o.qual), name)
    if o is None:
        if name in ('__class__', '__doc__'):
            return Sym('attr', 'None', name)
        self.event('raise', exc='AttributeError', cond=None)
        raise PyRaise(Exc('AttributeError', ('None', name)))
    if isinstance(o, Sym):
        return self.ext.sym_attr(o, name)
    return Meth(o, name)


def allbases(c):
    out = []
    for b in c.bases:
        if isinstance(b, External) and b.name in ('object', 'abc.ABC', 'ABC'):
            continue
        out.append(b)
        if isinstance(b, Cls):
            out += allbases(b)
    return out


def getitem(self, o, k):
    if isinstance(o, Choice):
        out, err = [], None
        for x in o.vals:
            if x is UNDEF:
                continue
            try:
                out.append(self.getitem(x, k))
            except PyRaise as e:
                err = e
        if not out:
            raise err
        return choice(out)
    if isinstance(k, Choice):
        out, err = [], None
        for x in k.vals:
            try:
                out.append(self.getitem(o, x))
            except PyRaise as e:
                err = e
        if not out:
            raise err
        return choice(out)
    issl = isinstance(k, Sym) and k.op == 'slice'
    if isinstance(o, (tuple, str)):
        if isinstance(k, bool) or isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                self.event('raise', exc='IndexError', cond=None)
                raise PyRaise(Exc('IndexError'))
        if issl and all(a is None or isinstance(a, int) for a in k.args):
            return o[slice(*k.args)]
        if isinstance(o, tuple) and not issl:
            return choice(o) if o else Sym('top', 'empty')
        if isinstance(o, str):
            return mkstr([OpS('index', Sym('item', o, self.freeze(k)))])
    if isinstance(o, Str):
        return mkstr([OpS('slice:' + show(k) if issl else 'index', o)])
    if isinstance(o, Obj):
        if o.kind == 'list':
            segs = self.segs(o)
            allitems = all(s[0] == 'item' for s in segs)
            if isinstance(k, int):
                if allitems:
                    if not -len(segs) <= k < len(segs):
                        self.event('raise', exc='IndexError', cond=None)
                        raise PyRaise(Exc('IndexError'))
                    return segs[k][1]
                i = k if k >= 0 else k + len(segs)
                rng = range(0, k + 1) if k >= 0 else range(len(segs) + k, len(segs))
                if 0 <= i < len(segs) and all(segs[j][0] == 'item' for j in rng):
                    return segs[i][1]
                es = self.elems_of(o)
                if len(es) == 1 and isinstance(es[0], Sym):
                    return Sym('item', self.freeze(o), k)
                return choice(es) if es else Sym('top', 'empty')
            if issl and all(a is None or isinstance(a, int) for a in k.args):
                if allitems:
                    return self.new_list(segs[slice(*k.args)])
                if k.args == (None, None, None):
                    return self.new_list(segs)
                lo, hi, st = k.args
                if st is None and isinstance(lo, int) and lo >= 0 and hi is None and all(s[0] == 'item' for s in segs[:lo]) and len(segs) >= lo:
                    return self.new_list(segs[lo:])
            if issl:
                es = self.elems_of(o)
                self.nloop += 1
                return self.new_list([('rep', (('item', choice(es)),), Sym('count', self.nloop), self.nloop)] if es else [])
            es = self.elems_of(o)
            return choice(es) if es else Sym('item', self.freeze(o), self.freeze(k))
        if o.kind == 'dict':
            items = self.get(o.id, 'items', ())
            rest = self.get(o.id, 'rest', ())
            from pyabs import isconst
            if isconst(k):
                for a, b in items:
                    if same(a, k):
                        return choice([x for x in (b.vals if isinstance(b, Choice) else [b]) if x is not UNDEF])
                if not rest and all(isconst(a) for a, b in items):
                    self.event('raise', exc='KeyError', cond=None)
                    raise PyRaise(Exc('KeyError', (k,)))
            if isinstance(k, Other) and not rest:
                self.event('raise', exc='KeyError', cond=None)
                raise PyRaise(Exc('KeyError'))
            for a, b in items + rest:
                if same(a, k):
                    return b
            vals = [b for a, b in items] + [b for a, b in rest]
            if vals and not isconst(k) and all(isinstance(x, (Sym, int, float)) or isinstance(x, Choice) and all(isinstance(y, (Sym, int, float)) for y in x.vals) for x in vals):
                return Sym('lookup', self.freeze(k), self.freeze(choice(vals)))
            return choice(vals) if vals else Sym('item', self.freeze(o), self.freeze(k))
        if o.kind == 'arr':
            st = self.get(o.id, 'stores', ())
            return Sym('view', self.freeze(o), self.freeze(k) if isinstance(k, tuple) else (self.freeze(k),))
        if o.kind == 'inst':
            f = self.find_method(o, '__getitem__')
            if isinstance(f, Func):
                return self.call(Bound(f, o), [k], {})
    if isinstance(o, (External, Cls)):
        return o if isinstance(o, External) and o.name.startswith('typing') else Sym('item', Sym('ext', str(o)), self.freeze(k))
    if o is None:
        self.event('raise', exc='TypeError', cond=None)
        raise PyRaise(Exc('TypeError'))
    f = self.freeze(o)
    if isinstance(f, Sym) and f.op == 'shape' and isinstance(k, int):
        return self.ext.dim(f.args[0], k)
    if isinstance(f, Sym) and f.op in ('view',):
        c = self.ext.view_content(f)
        if isinstance(c, tuple) and isinstance(k, int):
            return c[k]
        return Sym('view', f.args[0], f.args[1] + (k if isinstance(k, tuple) else (self.freeze(k),)))
    return Sym('item', f, self.freeze(k))


# ---------------------------------------------------------------- calls
def e_Call(self, n, fr):
    # super() and locals() need the frame
    if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars') and not n.args and self.lookup(n.func.id, fr) is UNDEF:
        return self.new_dict([(k[1], v) for k, v in self.S.h.items() if k[0] == fr.id])
    if isinstance(n.func, ast.Name) and n.func.id == 'globals' and not n.args:
        return self.new_dict([(k[1], v) for k, v in self.S.h.items() if k[0] == fr.mod.frame.id])
    if isinstance(n.func, ast.Name) and n.func.id == 'super' and self.lookup('super', fr) is UNDEF:
        f = fr
        while f is not None and f.kind != 'func':
            f = f.parent
        selfv = self.get(f.id, f.node.args.args[0].arg) if f is not None and f.node.args.args else None
        cls = None
        g = f
        while g is not None and g.kind != 'class':
            g = g.parent
        if g is not None and isinstance(selfv, Obj):
            for c in [selfv.meta.get('cls')] + (allbases(selfv.meta['cls']) if isinstance(selfv.meta.get('cls'), Cls) else []):
                if isinstance(c, Cls) and c.frame is g:
                    cls = c
        return self.ext.Super(selfv, cls)
    func = self.ev(n.func, fr)
    args = self.evs(n.args, fr)
    kw = {}
    for k in n.keywords:
        v = self.ev(k.value, fr)
        if k.arg is None:
            if isinstance(v, Obj) and v.kind == 'dict':
                for a, b in self.get(v.id, 'items', ()):
                    if isinstance(a, str):
                        kw[a] = b
                if self.get(v.id, 'rest', ()):
                    kw['**'] = self.freeze(v)
            else:
                kw['**'] = self.freeze(v)
        else:
            kw[k.arg] = v
    self.cur = (fr.mod.relpath, n.lineno)
    r = self.call(func, args, kw, n)
    self.cur = (fr.mod.relpath, n.lineno)
    return r


def call(self, f, args, kw, node=None):
    if isinstance(f, Choice):
        S0 = self.S
        out, res, err = [], None, None
        for x in f.vals:
            if x is UNDEF:
                continue
            self.S = S0.copy()
            try:
                out.append(self.call(x, args, kw, node))
            except PyRaise as e:
                err = e
                continue
            res = self.merge(res, self.S)
        if res is None:
            self.S = S0
            raise err
        self.S = res
        return choice(out)
    if isinstance(f, Func):
        return self.call_func(f, args, kw)
    if isinstance(f, Native):
        return f.fn(*args, **kw)
    if isinstance(f, Bound):
        if isinstance(f.func, Func):
            return self.call_func(f.func, [f.self_] + list(args), kw)
        return self.call(f.func, [f.self_] + list(args), kw, node)
    if isinstance(f, Cls):
        return self.ext.construct(f, args, kw)
    if isinstance(f, Meth):
        return self.ext.call_meth(f.obj, f.name, args, kw)
    if isinstance(f, External):
        return self.ext.call_ext(f.name, args, kw)
    if isinstance(f, Obj) and f.kind == 'inst':
        m = self.find_method(f, '__call__')
        if isinstance(m, Func):
            return self.call_func(m, [f] + list(args), kw)
    if isinstance(f, Sym):
        if f.op == 'attr':
            return self.ext.call_meth(f.args[0], f.args[1], args, kw)
        return Sym('call', show(f), tuple(self.freeze(a) for a in args), tuple(sorted((k, self.freeze(v)) for k, v in kw.items())))
    if f is None or isinstance(f, (int, str, Str, tuple)):
        self.event('raise', exc='TypeError', cond=None)
        raise PyRaise(Exc('TypeError'))
    return self.ext.call_other(f, args, kw)


def bind_args(self, f, args, kw, frame):
    a = f.node.args
    kw = dict(kw)
    pos = [x.arg for x in a.posonlyargs + a.args]
    args = list(args)
    starred = [x for x in args if isinstance(x, Sym) and x.op == 'star']
    vals = {}
    for i, name in enumerate(pos):
        if starred and i >= next(j for j, x in enumerate(args + starred) if isinstance(x, Sym) and x.op == 'star'):
            j = next(j for j, x in enumerate(args) if isinstance(x, Sym) and x.op == 'star')
            vals[name] = Sym('item', args[j].args[0], i - j) if name not in kw else kw.pop(name)
        elif i < len(args):
            vals[name] = args[i]
            if name in kw:
                self.event('raise', exc='TypeError', cond=None)
                raise PyRaise(Exc('TypeError', ('multiple values', name)))
        elif name in kw:
            vals[name] = kw.pop(name)
        else:
            di = i - (len(pos) - len(f.defaults))
            if di >= 0:
                vals[name] = f.defaults[di]
            elif '**' in kw:
                vals[name] = Sym('item', kw['**'], name)
            else:
                self.event('raise', exc='TypeError', cond=None)
                raise PyRaise(Exc('TypeError', ('missing argument', name, f.qual)))
    if len(args) > len(pos) and not starred:
        if a.vararg:
            vals[a.vararg.arg] = tuple(args[len(pos):])
        else:
            self.event('raise', exc='TypeError', cond=None)
            raise PyRaise(Exc('TypeError', ('too many arguments', f.qual)))
    elif a.vararg:
        vals[a.vararg.arg] = ()
    for x in a.kwonlyargs:
        if x.arg in kw:
            vals[x.arg] = kw.pop(x.arg)
        elif x.arg in f.kwdefaults:
            vals[x.arg] = f.kwdefaults[x.arg]
        else:
            self.event('raise', exc='TypeError', cond=None)
            raise PyRaise(Exc('TypeError', ('missing argument', x.arg)))
    star = kw.pop('**', None)
    if a.kwarg:
        vals[a.kwarg.arg] = self.new_dict(list(kw.items()), ((Sym('top', 'key'), star),) if star is not None else ())
    elif kw:
        self.event('raise', exc='TypeError', cond=None)
        raise PyRaise(Exc('TypeError', ('unexpected keyword', tuple(kw), f.qual)))
    for k, v in vals.items():
        self.put(frame.id, k, v)


def call_func(self, f, args, kw):
    from pyabs import Frame
    depth = sum(1 for g, _ in self.stack if g.node is f.node)
    if depth >= 3 and any(not isinstance(a, (int, float, bool, str, type(None), Obj)) for a in args) or depth > 40:
        return Sym('cut', f.qual, tuple(self.freeze(a) for a in args))
    if len(self.stack) > 60:
        return Sym('top', 'stack')
    self.functions_seen.add(f.qual)
    fr = Frame('func', f.frame, f.mod, f.node)
    fr.func = f
    self.bind_args(f, args, kw, fr)
    self.stack.append((f, self.cur))
    saved = self.cur
    base = self.S
    is_gen = not isinstance(f.node, ast.Lambda) and has_yield(f.node)
    if is_gen:
        acc = self.new_list([])
        self.put(fr.id, '__yield__', acc)
    try:
        if isinstance(f.node, ast.Lambda):
            v = self.ev(f.node.body, fr)
            st = self.S
        else:
            outs = self.exec_block(f.node.body, fr)
            rets = [(o.value, o.state) for o in outs if o.kind == 'return']
            if self.S is not None:
                rets.append((None, self.S))
            raises = [o for o in outs if o.kind == 'raise']
            if not rets:
                r = raises[-1] if raises else None
                st = None
                for o in raises:
                    st = self.merge(st, o.state)
                self.S = st if st is not None else base
                raise PyRaise(r.value if r is not None else Exc('NoReturn'))
            v, st = rets[0]
            for w, s2 in rets[1:]:
                v = join(v, w)
                st = self.merge(st, s2)
            self.S = st
            if is_gen:
                v = acc
            if self.tagger is not None and isinstance(v, (Str, Choice)) and any(g.node is f.node for g, _ in self.stack[:-1]):
                alts = [x for x in (v.vals if isinstance(v, Choice) else (v,)) if isinstance(x, (Str, str))]
                tag = self.tagger(f, args)
                if tag and alts and (isinstance(v, Str) or len(alts) == len(v.vals)):
                    v = Str([TagS(alts, tag)])
    finally:
        self.stack.pop()
        self.cur = saved
        if not fr.captured and self.S is not None:
            h = self.S.h
            for k in [k for k in h if k[0] == fr.id]:
                del h[k]
    return v


def has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False
