"""Abstract interpreter for the Python package: computes, from the syntax trees of
the sources, what every function returns, which conditions guard it, which text it
generates and which effects it has.  No code of the package is executed.

Values: constants, opaque terms (Sym), texts with holes (Str), joins (Choice) and
heap objects whose contents live in the State.  A branch on an undecided condition
is analysed both ways and the two states are joined; the condition is a fact inside
each branch, and stays a fact afterwards when the other branch raised.  Loops over
sequences of unknown length are analysed once for a generic element after the
variables they change have been generalised.
"""
import ast
import os

from pyval import *
import cc

BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


VALUE = Sym('value')


def put(t, v, new, depth=5):
    """t with new in place of v"""
    if t is v:
        return new
    if depth and isinstance(t, Sym) and t.op not in ('elem', 'item', 'arr', 'list', 'rep'):
        args = tuple(put(a, v, new, depth - 1) for a in t.args)
        return t if all(a is b for a, b in zip(args, t.args)) else Sym(t.op, *args)
    if depth and isinstance(t, tuple):
        args = tuple(put(a, v, new, depth - 1) for a in t)
        return t if all(a is b for a, b in zip(args, t)) else args
    return t


class State:
    __slots__ = ('h', 'pc')

    def __init__(self, h, pc):
        self.h, self.pc = h, pc

    def copy(self):
        return State(dict(self.h), self.pc)


class Event:
    def __init__(self, kind, loc, pc, epoch, **kw):
        self.kind, self.loc, self.pc, self.epoch = kind, loc, pc, epoch
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Event(%s %s %s)' % (self.kind, self.loc, {k: v for k, v in self.__dict__.items() if k not in ('kind', 'loc', 'pc', 'epoch', 'frames')})


class Out:
    def __init__(self, kind, value, state):
        self.kind, self.value, self.state = kind, value, state


class TooComplex(Exception):
    pass


class Interp:
    def __init__(self, repo=None, package='emlearn'):
        self.repo = repo or cc.REPO
        self.package = package
        self.S = State({}, frozenset())
        self.modules = {}
        self.events = []
        self.muted = 0
        self.epoch = 'import'
        self.stack = []            # (Func, line)
        self.tagger = None         # (function, arguments) -> note on the text a recursive call returns
        self.oncompare = None      # called with every comparison
        self.atconv = {}           # astype term -> facts where it was evaluated
        self.onloop = None         # called with (loop id, what it iterates over, {variable: (before, at the head, after one iteration)})
        self.cur = ('?', 0)
        self.nloop = 0
        self.nuniq = 0
        self.trydepth = 0
        self.loopstack = []
        self.steps = 0
        self.maxsteps = 3000000
        self.functions_seen = set()
        self.unknown_nodes = set()
        self.branches = 0
        import pyext
        self.ext = pyext.Ext(self)

    # ------------------------------------------------------------ events
    def event(self, kind, **kw):
        if self.muted:
            return
        fn = self.stack[-1][0].qual if self.stack else '<module>'
        self.events.append(Event(kind, (self.cur[0], self.cur[1], fn), self.S.pc if self.S else frozenset(), self.epoch,
                                 frames=(self.cur,) + tuple(c for _, c in reversed(self.stack)), **kw))

    def where(self):
        fn = self.stack[-1][0].qual if self.stack else '<module>'
        return '%s:%d:%s' % (self.cur[0], self.cur[1], fn)

    def unique(self, what):
        self.nuniq += 1
        return Sym('unique', what, self.nuniq, self.epoch)

    # ------------------------------------------------------------ heap
    def get(self, oid, slot, default=UNDEF):
        return self.S.h.get((oid, slot), default)

    def put(self, oid, slot, v):
        self.S.h[(oid, slot)] = v

    def site(self, node):
        return (self.cur[0], getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))

    def new_list(self, segs, kind='list', **meta):
        o = Obj(kind, self.cur, **meta)
        self.put(o.id, 'segs', tuple(segs))
        return o

    def mklist(self, vals, kind='list'):
        return self.new_list([('item', v) for v in vals], kind)

    def new_dict(self, items=(), rest=None):
        o = Obj('dict', self.cur)
        self.put(o.id, 'items', tuple(items))
        self.put(o.id, 'rest', tuple(rest or ()))
        return o

    def segs(self, o):
        return self.get(o.id, 'segs', ())

    # ------------------------------------------------------------ modules
    def module_path(self, name):
        base = os.path.join(self.repo, *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py')
        if os.path.isfile(base + '.py'):
            # a package directory of the same name has priority; namespace packages have no file
            return base + '.py'
        if os.path.isdir(base):
            return base
        return None

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.module_path(name)
        if path is None:
            return None
        parent = None
        if '.' in name:
            parent = self.import_module(name.rsplit('.', 1)[0])
        if name in self.modules:
            return self.modules[name]
        frame = Frame('module', None, None)
        mod = Mod(name, path, frame)
        frame.mod = mod
        frame.captured = True
        self.modules[name] = mod
        mod.relpath = os.path.relpath(path, self.repo)
        self.put(frame.id, '__name__', name)
        self.put(frame.id, '__file__', Sym('in', '__file__:' + mod.relpath))
        if parent is not None:
            self.put(parent.frame.id, name.rsplit('.', 1)[1], mod)
        if path.endswith('.py'):
            tree = cc_parse(path)
            mod.tree = tree
            saved = (self.cur, self.stack, self.trydepth)
            self.cur, self.stack = (mod.relpath, 0), []
            save_epoch, self.epoch = self.epoch, 'import'
            outs = self.exec_block(tree.body, frame)
            self.epoch = save_epoch
            self.cur, self.stack, self.trydepth = saved
            if self.S is None:
                for o in outs:
                    if o.kind == 'raise':
                        self.S = o.state
                        raise PyRaise(o.value)
        else:
            mod.tree = None
        return mod

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        outs = []
        for s in stmts:
            if self.S is None:
                break
            outs += self.exec_stmt(s, fr)
        return outs

    def exec_stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise TooComplex()
        self.cur = (fr.mod.relpath, s.lineno)
        m = getattr(self, 's_' + type(s).__name__, None)
        try:
            if m is None:
                self.unknown_nodes.add((type(s).__name__,) + self.cur)
                return []
            return m(s, fr) or []
        except PyRaise as e:
            out = Out('raise', e.exc, self.S)
            self.S = None
            return [out]

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield,)):
            v = self.ev(s.value.value, fr) if s.value.value else None
            self.do_yield(fr, [('item', v)])
            return
        if isinstance(s.value, ast.YieldFrom):
            v = self.ev(s.value.value, fr)
            self.do_yield(fr, self.iter_segs(v))
            return
        v = self.ev(s.value, fr)
        self.event('discard', value=v, node=s.value)

    def do_yield(self, fr, segs):
        acc = self.get(fr.id, '__yield__')
        if isinstance(acc, Obj):
            self.put(acc.id, 'segs', self.segs(acc) + tuple(segs))

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        fr.globals |= set(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def s_Import(self, s, fr):
        for a in s.names:
            top = a.name.split('.')[0]
            if top == self.package:
                m = self.import_module(a.name)
                v = self.modules.get(a.name if a.asname else top)
                if m is None:
                    v = External(a.name)
            else:
                v = External(a.name if a.asname else top)
                self.event('extimport', name=a.name)
            self.assign_name(a.asname or top, v, fr)

    def s_ImportFrom(self, s, fr):
        name = s.module or ''
        if s.level:
            base = fr.mod.name.split('.')
            if not fr.mod.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([s.module] if s.module else []))
        internal = name.split('.')[0] == self.package
        mod = self.import_module(name) if internal else None
        if not internal:
            self.event('extimport', name=name)
        for a in s.names:
            if mod is None:
                v = External(name + '.' + a.name)
            else:
                if a.name == '*':
                    for (oid, k), v in list(self.S.h.items()):
                        if oid == mod.frame.id and not k.startswith('_'):
                            self.assign_name(k, v, fr)
                    continue
                v = self.get(mod.frame.id, a.name)
                if v is UNDEF:
                    sub = self.import_module(name + '.' + a.name)
                    v = sub if sub is not None else External(name + '.' + a.name)
            self.assign_name(a.asname or a.name, v, fr)

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f.decor.append(self.dotted(d))
        self.assign_name(s.name, self.decorate(s, f, fr), fr)

    def decorate(self, s, f, fr):
        v = f
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
                continue
            dv = self.ev(d, fr)
            if isinstance(dv, (Func, Bound, Native)):
                v = self.call(dv, [v], {})
            elif isinstance(dv, External):
                self.event('extcall', name=dv.name, args=[v], kw={})
        return v

    s_AsyncFunctionDef = s_FunctionDef

    def dotted(self, n):
        if isinstance(n, ast.Call):
            n = n.func
        try:
            return ast.unparse(n)
        except Exception:
            return '?'

    def make_func(self, node, fr, name):
        a = node.args
        defaults = tuple(self.ev(d, fr) for d in a.defaults)
        kwd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f2 = fr
        while f2 is not None:
            f2.captured = True
            f2 = f2.parent
        prefix = fr.mod.name
        if fr.kind == 'class':
            prefix += '.' + fr.name
        elif fr.kind == 'func':
            prefix = fr.func.qual
        return Func(node, fr.mod, fr, name, prefix + '.' + name, defaults, kwd)

    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        cf = Frame('class', fr, fr.mod, s)
        cf.name = s.name
        cf.captured = True
        cls = Cls(s.name, fr.mod, bases, cf, s)
        cls.decor = [self.dotted(d) for d in s.decorator_list]
        cls.qual = fr.mod.name + '.' + s.name
        self.exec_block(s.body, cf)
        self.assign_name(s.name, self.decorate(s, cls, fr), fr)

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value else None
        o = Out('return', v, self.S)
        self.S = None
        return [o]

    def s_Break(self, s, fr):
        if getattr(self.ext, 'disjunctions', False):
            self.event('break')
        o = Out('break', None, self.S)
        self.S = None
        return [o]

    def s_Continue(self, s, fr):
        o = Out('continue', None, self.S)
        self.S = None
        return [o]

    def s_Raise(self, s, fr):
        name, args = 'Exception', ()
        if s.exc is not None:
            e = self.ev(s.exc, fr)
            if isinstance(e, Exc):
                name, args = e.name, e.args
            elif isinstance(e, External):
                name = e.name
            elif isinstance(e, Cls):
                name = e.name
            elif isinstance(e, Obj) and e.meta.get('cls'):
                name = getattr(e.meta['cls'], 'name', 'Exception')
        self.event('raise', exc=name, cond=None)
        raise PyRaise(Exc(name, args))

    def s_Assert(self, s, fr):
        outs, st, sf = self.branch(s.test, fr)
        if sf is not None:
            self.S = sf
            self.cur = (fr.mod.relpath, s.lineno)
            self.event('raise', exc='AssertionError', cond=None)
            o = Out('raise', Exc('AssertionError'), sf)
            outs.append(o)
        self.S = st
        return outs

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)
        elif fr.kind == 'class' and isinstance(s.target, ast.Name):
            pass

    def s_AugAssign(self, s, fr):
        t = s.target
        load = ast.copy_location({ast.Name: lambda: ast.Name(t.id, ast.Load()),
                                  ast.Attribute: lambda: ast.Attribute(t.value, t.attr, ast.Load()),
                                  ast.Subscript: lambda: ast.Subscript(t.value, t.slice, ast.Load())}[type(t)](), t)
        old = self.ev(load, fr)
        rhs = self.ev(s.value, fr)
        op = OPS.get(type(s.op), '?')
        if isinstance(old, Obj) and old.kind == 'list' and op == '+':
            self.mutated(old, 'extend')
            self.put(old.id, 'segs', self.segs(old) + tuple(self.iter_segs(rhs)))
            if not isinstance(t, ast.Name):
                self.assign(t, old, fr)
            return
        if isinstance(old, Obj) and old.kind == 'set' and op in '|-&':
            v = self.ext.set_op(op, old, rhs)
            self.put(old.id, 'segs', self.segs(v) if isinstance(v, Obj) else (('top', v),))
            return
        if isinstance(old, (Sym, Choice)) or (isinstance(old, Obj) and old.kind == 'arr'):
            for o in (old.vals if isinstance(old, Choice) else [old]):
                if isinstance(o, Sym) or isinstance(o, Obj):
                    self.event('mutate', target=o, how='%s=' % op, via=type(t).__name__)
        v = self.binop(op, old, rhs)
        self.assign(t, v, fr)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.S.h.pop((fr.id, t.id), None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev(t.slice, fr)
                if isinstance(o, Obj) and o.kind == 'dict':
                    self.put(o.id, 'items', tuple((a, b) for a, b in self.get(o.id, 'items', ()) if not same(a, k)))
                elif isinstance(o, Obj) and o.kind == 'list':
                    self.put(o.id, 'segs', (('top', Sym('afterdel', o.id)),))
                else:
                    self.event('mutate', target=o, how='del', via='Subscript')
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, Obj):
                    self.S.h.pop((o.id, '.' + t.attr), None)
                else:
                    self.event('mutate', target=o, how='del', via='Attribute')

    def s_If(self, s, fr):
        outs, st, sf = self.branch(s.test, fr)
        self.S = st
        if st is not None:
            outs += self.exec_block(s.body, fr)
        st = self.S
        self.S = sf
        if sf is not None:
            outs += self.exec_block(s.orelse, fr)
        self.S = self.merge(st, self.S)
        return outs

    def branch(self, test, fr):
        """-> (raise outcomes, state where test holds or None, state where it does not or None)"""
        # refine a variable holding one of several values
        var, ch = self.find_choice(test, fr)
        if var is not None:
            yes, no = [], []
            S0 = self.S
            outs = []
            sts, sfs = None, None
            fyes, fno = [], []
            for v in ch.vals:
                self.S = S0.copy()
                self.store_path(var, v, fr)
                try:
                    o, a, b = self.branch(test, fr)
                except PyRaise as e:
                    outs.append(Out('raise', e.exc, self.S))
                    continue
                outs += o
                sts = self.merge(sts, a)
                sfs = self.merge(sfs, b)
                for x, fx in ((a, fyes), (b, fno)):
                    if x is not None:
                        fx.append((v, x.pc - S0.pc))
            for st, fx in ((sts, fyes), (sfs, fno)):
                if st is not None and len(fx) > 1:
                    st.pc = st.pc | self.common(fx)
            return outs, sts, sfs
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            outs, acc = [], None
            cur = self.S
            pc0, alts = cur.pc, []
            for i, x in enumerate(test.values):
                self.S = cur
                o, a, b = self.branch(x, fr)
                outs += o
                out = b if isand else a
                if out is not None:
                    alts.append([c for c in out.pc - pc0 if isinstance(c, Sym)])
                if isand:
                    acc = self.merge(acc, b)
                    cur = a
                else:
                    acc = self.merge(acc, a)
                    cur = b
                if cur is None:
                    break
            # keep the disjunction as a fact
            if isand:
                st, sf = cur, acc
            else:
                st, sf = acc, cur
            if getattr(self.ext, 'disjunctions', False):
                # what is known of the merged branch is one of several facts
                gone = {negate(c) for a in alts if len(a) == 1 for c in a}
                alts = [a if len(a) == 1 and i == 0 else [c for c in a if c not in gone] for i, a in enumerate(alts)]
                alts = [a[0] if len(a) == 1 else Sym('and', *a) for a in alts if a] if all(alts) else []
                if isand and sf is not None and len(alts) > 1:
                    sf.pc = sf.pc | {Sym('or', *alts)}
                if not isand and st is not None and len(alts) > 1:
                    st.pc = st.pc | {Sym('or', *alts)}
            return outs, st, sf
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            o, a, b = self.branch(test.operand, fr)
            return o, b, a
        v = self.ev(test, fr)
        t, c = self.truth(v)
        if t is True:
            return [], self.S, None
        if t is False:
            return [], None, self.S
        self.branches += 1
        st, sf = self.S, self.S.copy()
        st.pc = st.pc | facts_of(c)
        sf.pc = sf.pc | facts_of(negate(c))
        return [], st, sf

    def common(self, alts):
        """comparisons with constants that hold for the value whichever alternative it is"""
        num = lambda v: isinstance(v, (int, float)) and not isinstance(v, bool)
        cand = None
        for v, fs in alts:
            if num(v):
                continue
            here = set()
            for f in fs:
                g = put(f, v, VALUE)
                if g is not f:
                    here.add(g)
            cand = here if cand is None else cand & here
        out = set()
        nums = [v for v, fs in alts if num(v)]
        val = Sym('choice', *[self.freeze(v) for v, fs in alts]) if cand else None
        for f in cand or ():
            direct = f.op == 'cmp' and f.args[1] is VALUE and isinstance(f.args[2], (int, float)) and f.args[0] in ('<', '<=', '>', '>=')
            if not nums or direct and all({'<': v < f.args[2], '<=': v <= f.args[2], '>': v > f.args[2], '>=': v >= f.args[2]}[f.args[0]] for v in nums):
                out.add(put(f, VALUE, val))
        return out

    def find_choice(self, test, fr):
        for n in ast.walk(test):
            if isinstance(n, ast.Name):
                v = self.lookup(n.id, fr)
                if isinstance(v, Choice):
                    return ('name', n.id), v
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                b = self.lookup(n.value.id, fr)
                if isinstance(b, Obj) and b.kind == 'inst':
                    v = self.get(b.id, '.' + n.attr)
                    if isinstance(v, Choice):
                        return ('attr', b, n.attr), v
        return None, None

    def store_path(self, var, v, fr):
        if var[0] == 'name':
            f = self.find_frame(var[1], fr)
            self.put(f.id, var[1], v)
        else:
            self.put(var[1].id, '.' + var[2], v)

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        h, g = a.h, b.h
        out = dict(h)
        for k, v in g.items():
            if k not in h:
                # created in one branch only: variables may be undefined, objects are just new
                out[k] = join(v, UNDEF) if k[0] < 0 else v
            else:
                u = h[k]
                if u is not v:
                    out[k] = self.joincell(k, u, v)
        for k, v in h.items():
            if k not in g and k[0] < 0:
                out[k] = join(v, UNDEF)
        pc = a.pc & b.pc
        if len(pc) < len(a.pc) and len(pc) < len(b.pc):
            pc = pc | self.either(a, b)
        return State(out, pc)

    def either(self, a, b):
        """comparisons of a variable with constants that hold in both states, about different values"""
        num = lambda fs: [f for f in fs if f.op in ('cmp', 'call', 'not', 'meth')]
        ea, eb = num(a.pc - b.pc), num(b.pc - a.pc)
        if not ea or not eb:
            return frozenset()
        out = set()
        for k, v in b.h.items():
            if k[0] < 0 and k in a.h and a.h[k] is not v:
                u = a.h[k]
                if isinstance(u, (Sym, Choice)) and isinstance(v, (Sym, Choice)):
                    out |= self.common([(self.freeze(u) if isinstance(u, Choice) else u, ea), (self.freeze(v) if isinstance(v, Choice) else v, eb)])
        return frozenset(out)

    def joincell(self, k, u, v):
        slot = k[1]
        if slot == 'segs':
            return joinsegs(u, v)
        if slot == 'items':
            return joinitems(u, v)
        if slot == 'rest' or slot == 'stores':
            return u + tuple(x for x in v if not any(same(x, y) for y in u))
        return join(u, v)

    def truth(self, v):
        """-> (True/False/None, condition)"""
        if v is None or v is UNDEF:
            return False, None
        if isinstance(v, (bool, int, float, str, bytes, tuple, complex)):
            return bool(v), None
        if isinstance(v, Str):
            return (True, None) if any(isinstance(p, str) and p for p in v.parts) else (None, Sym('truth', v))
        if isinstance(v, Obj):
            if v.kind in ('list', 'set'):
                n = self.list_len(v)
                if isinstance(n, int):
                    return n > 0, None
                return None, Sym('cmp', '>', n, 0)
            if v.kind == 'dict':
                if self.get(v.id, 'items', ()):
                    return True, None
                if not self.get(v.id, 'rest', ()):
                    return False, None
                return None, Sym('truth', Sym('obj', v.id))
            if v.kind == 'arr':
                return None, Sym('truth', Sym('obj', v.id))
            return True, None
        if isinstance(v, Choice):
            ts = [self.truth(x) for x in v.vals]
            if all(t[0] is True for t in ts):
                return True, None
            if all(t[0] is False for t in ts):
                return False, None
            return None, Sym('truth', self.freeze(v))
        if isinstance(v, Other):
            return True, None
        if isinstance(v, Sym):
            if v.op in ('cmp', 'not', 'and', 'or', 'any', 'all', 'call', 'meth', 'isinstance', 'truth', 'hasattr', 'in'):
                c = v
            else:
                c = Sym('truth', v)
            d = self.decide(c)
            return d, c
        return True, None

    def decide(self, c):
        pc = self.S.pc
        if c in pc:
            return True
        n = negate(c)
        if n in pc:
            return False
        if isinstance(c, Sym) and c.op == 'and':
            ds = [self.decide(x) for x in c.args]
            if all(d is True for d in ds):
                return True
            if any(d is False for d in ds):
                return False
        if isinstance(c, Sym) and c.op == 'or':
            ds = [self.decide(x) for x in c.args]
            if any(d is True for d in ds):
                return True
            if all(d is False for d in ds):
                return False
        if isinstance(c, Sym) and c.op == 'not':
            d = self.decide(c.args[0]) if isinstance(c.args[0], Sym) else None
            return None if d is None else not d
        return self.ext.decide(c)

    # ---- loops
    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        self.nloop += 1
        lid = self.nloop
        segs = self.iter_segs(it, lid)
        return self.loop(segs, lambda v: self.assign(s.target, v, fr), s.body, s.orelse, fr, lid, s)

    def s_While(self, s, fr):
        outs = []
        # unrolled while the condition is decided, generalised otherwise
        for n in range(200):
            t, c = self.truth(self.ev(s.test, fr))
            if t is False:
                return outs + self.exec_block(s.orelse, fr)
            if t is None:
                break
            o = self.exec_block(s.body, fr)
            brk = [x for x in o if x.kind == 'break']
            cont = [x for x in o if x.kind == 'continue']
            outs += [x for x in o if x.kind in ('return', 'raise')]
            for x in cont:
                self.S = self.merge(self.S, x.state)
            if brk:
                for x in brk:
                    self.S = self.merge(self.S, x.state)
                if t is True and self.S is not None and len(o) == len(brk) == 1:
                    return outs
                break
            if self.S is None:
                return outs
        self.nloop += 1
        lid = self.nloop
        return outs + self.loop([('rep', (('item', UNDEF),), Sym('count', lid), lid)], lambda v: None, s.body, s.orelse, fr, lid, s, test=s.test)

    def loop(self, segs, bind, body, orelse, fr, lid, node, test=None):
        outs, broken = [], None
        for seg in segs:
            if self.S is None:
                break
            if seg[0] == 'item':
                try:
                    bind(seg[1])
                except PyRaise as e:
                    outs.append(Out('raise', e.exc, self.S))
                    self.S = None
                    break
                o = self.exec_block(body, fr)
                for x in o:
                    if x.kind == 'break':
                        broken = self.merge(broken, x.state)
                    elif x.kind == 'continue':
                        self.S = self.merge(self.S, x.state)
                    else:
                        outs.append(x)
            elif seg[0] == 'alt':
                S0 = self.S
                res = None
                for alt in seg[1]:
                    self.S = S0.copy()
                    o = self.loop(list(alt), bind, body, [], fr, lid, node)
                    outs += o
                    res = self.merge(res, self.S)
                self.S = res
            else:
                o, b = self.rep_loop(seg, bind, body, fr, lid, node, test)
                outs += o
                broken = self.merge(broken, b)
        if self.S is not None and orelse:
            outs += self.exec_block(orelse, fr)
        self.S = self.merge(self.S, broken)
        return outs

    def seg_elems(self, seg):
        """values of the elements of one generic iteration"""
        if seg[0] == 'item':
            return [seg[1]]
        if seg[0] == 'rep':
            out = []
            for x in seg[1]:
                out += self.seg_elems(x)
            return out
        if seg[0] == 'alt':
            vals = []
            for a in seg[1]:
                for x in a:
                    vals += self.seg_elems(x)
            return [choice(vals)] if vals else []
        if seg[0] == 'acc':
            return []
        return [Sym('elem', seg[1] if isinstance(seg[1], Sym) else Sym('top', '?'), 0)]

    def one_pass(self, elems, bind, body, fr, test):
        outs, brk = [], None
        for v in elems:
            if self.S is None:
                break
            if test is not None:
                t, c = self.truth(self.ev(test, fr))
                if t is None and c is not None:
                    self.S.pc = self.S.pc | facts_of(c)
            bind(v)
            o = self.exec_block(body, fr)
            for x in o:
                if x.kind == 'break':
                    brk = self.merge(brk, x.state)
                elif x.kind == 'continue':
                    self.S = self.merge(self.S, x.state)
                else:
                    outs.append(x)
        return outs, brk

    def rep_loop(self, seg, bind, body, fr, lid, node, test):
        count = seg[2] if seg[0] == 'rep' else Sym('count', lid)
        elems = self.seg_elems(seg)
        if not elems:
            return [], None
        S0 = self.S
        n0 = Obj._n
        pc0 = S0.pc
        # first pass: which cells does an iteration change?
        head = S0.copy()
        prefix = {}
        for attempt in range(5):
            self.muted += 1
            self.S = head.copy()
            try:
                o, b = self.one_pass(elems, bind, body, fr, test)
                S1 = self.merge(self.S, b)
                for x in o:
                    pass
            except PyRaise:
                S1 = self.S
            finally:
                self.muted -= 1
            if S1 is None:
                break
            changed = False
            for k, v in S1.h.items():
                u = head.h.get(k, UNDEF)
                if k not in head.h and k[0] > 0:
                    continue
                if u is v or same(u, v):
                    continue
                if k in prefix:
                    p = prefix[k]
                    if p[0] == 'grow':
                        if grown(head.h[k], v) is not None:
                            continue
                        head.h[k] = (('top', Sym('loopvar', lid, str(k))),) if k[1] == 'segs' else Sym('loopvar', lid, str(k[1]))
                        prefix[k] = ('havoc',)
                        changed = True
                        continue
                    if p[0] == 'items':
                        nv = itemwise(u, v, lid, k, widen)
                        if nv is None:
                            head.h[k] = (('top', Sym('loopvar', lid, str(k))),)
                            prefix[k] = ('havoc',)
                            changed = True
                        elif not same(nv, u):
                            head.h[k] = nv
                            changed = True
                        continue
                    if p[0] == 'join':
                        nv = self.joincell(k, u, v)
                        if same(nv, u) or (isinstance(u, Choice) and isinstance(nv, Choice) and len(nv.vals) == len(u.vals)):
                            continue
                        head.h[k] = (('top', Sym('loopvar', lid, str(k))),) if k[1] == 'segs' else Sym('loopvar', lid, str(k[1]))
                        prefix[k] = ('havoc',)
                        changed = True
                        continue
                    continue
                if k[1] in ('items', 'rest', 'stores'):
                    continue
                if u is UNDEF or k not in head.h:
                    continue            # assigned in the body before use
                changed = True
                g = grown(u, v)
                if g is not None:
                    prefix[k] = ('grow', u)
                    head.h[k] = u + (('acc', lid, k),) if isinstance(u, tuple) else mkstr(list(parts_of(u)) + [OpS('acc%d' % lid, str(k))])
                elif k[1] == 'segs' and itemwise(u, v, lid, k, join) is not None:
                    prefix[k] = ('items',)
                    head.h[k] = itemwise(u, v, lid, k, join)
                elif k[1] == 'segs':
                    prefix[k] = ('havoc',)
                    head.h[k] = (('top', Sym('loopvar', lid, str(k))),)
                elif isinstance(u, (int, float)) and not isinstance(u, bool) or isinstance(u, Sym) and u.op in ('bin', 'dim', 'loopvar'):
                    prefix[k] = ('havoc',)
                    head.h[k] = Sym('loopvar', lid, str(k[1]))
                else:
                    prefix[k] = ('join',)
                    head.h[k] = self.joincell(k, u, v)
            if not changed:
                break
        # second pass: the generic iteration
        for k, v in (S1.h.items() if S1 is not None else ()):
            if k[1] in ('items', 'rest', 'stores') and k in head.h and head.h[k] is not v:
                head.h[k] = self.joincell(k, head.h[k], v)
        headc = dict(head.h)
        self.S = head
        self.loopstack.append(lid)
        try:
            outs, brk = self.one_pass(elems, bind, body, fr, test)
        except PyRaise as e:
            outs, brk = [Out('raise', e.exc, self.S)], None
            self.S = None
        self.loopstack.pop()
        if self.onloop is not None and not self.muted:
            self.onloop(lid, seg, {k: (S0.h.get(k), headc.get(k), self.S.h.get(k) if self.S is not None else None) for k in prefix}, bool(brk))

        def finish(st, partial):
            if st is None:
                return None
            for k, p in prefix.items():
                if k not in st.h:
                    continue
                if p[0] == 'grow':
                    g = grown(headc[k], st.h[k])
                    if g is None:
                        st.h[k] = (('top', Sym('loopvar', lid, str(k))),) if k[1] == 'segs' else Sym('loopvar', lid, str(k[1]))
                    elif isinstance(p[1], tuple):
                        new = p[1]
                        if g:
                            new = new + (('rep', tuple(g), count, lid),)
                        st.h[k] = new
                    else:
                        st.h[k] = mkstr(list(parts_of(p[1])) + [RepS(mkstr(g), '', count, lid)]) if g else p[1]
                elif p[0] == 'havoc':
                    st.h[k] = headc[k]
                elif p[0] == 'items':
                    nv = itemwise(headc[k], st.h[k], lid, k, widen)
                    st.h[k] = nv if nv is not None else (('top', Sym('loopvar', lid, str(k))),)
                else:
                    st.h[k] = self.joincell(k, headc[k], st.h[k])
            for k, u in S0.h.items():
                if k not in prefix and k in st.h and st.h[k] is not u:
                    v = st.h[k]
                    if not (k[0] < 0 and not isinstance(k[1], str)):
                        if isinstance(count, int) and count > 0:
                            continue
                        st.h[k] = self.joincell(k, u, v)
            return st
        end = finish(self.S, False)
        brk = finish(brk, True)
        if end is None and brk is None:
            if isinstance(count, int) and count > 0:
                self.S = None
            else:
                self.S = State(dict(S0.h), pc0)      # only the empty case gets past the loop
        else:
            if end is None:
                # not broken out of: no iterations
                end = State(dict(S0.h), pc0)
            self.S = end
            if brk is not None:
                end.pc = end.pc
                brk.pc = pc0
        return outs, brk

    def s_With(self, s, fr):
        for item in s.items:
            v = self.ev(item.context_expr, fr)
            e = self.ext.enter(v)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, e, fr)
        outs = self.exec_block(s.body, fr)
        return outs

    def s_Try(self, s, fr):
        S0 = self.S.copy()
        self.trydepth += 1
        nev = len(self.events)
        outs = self.exec_block(s.body, fr)
        self.trydepth -= 1
        end = self.S
        res, keep = None, []
        raised = [o for o in outs if o.kind == 'raise']
        keep = [o for o in outs if o.kind != 'raise']
        if end is not None and s.orelse:
            self.S = end
            keep += self.exec_block(s.orelse, fr)
            end = self.S
        res = end
        hs = None
        caught_all = False
        names = []
        for h in s.handlers:
            if h.type is None:
                caught_all = True
                names.append('*')
            else:
                for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    names.append(ast.unparse(t))
        for o in raised:
            hs = self.merge(hs, o.state)
        may = State(S0.h, S0.pc) if s.handlers else None     # an exception from an opaque call
        for h in s.handlers:
            st = self.merge(hs.copy() if hs else None, may.copy())
            self.S = st
            if h.name:
                self.put(fr.id, h.name, Exc('caught', ()))
            keep += self.exec_block(h.body, fr)
            res = self.merge(res, self.S)
        if raised and s.handlers:
            for o in raised:
                n = o.value.name if isinstance(o.value, Exc) else '?'
                if '*' in names or n in names or 'Exception' in names or 'BaseException' in names:
                    self.event('caught', exc=n, node=s)
                else:
                    keep.append(o)
        elif raised:
            keep += raised
        if s.handlers:
            self.event('handler', names=tuple(names), node=s) if self.S is not None else None
        self.S = res
        if s.finalbody:
            if self.S is None:
                self.S = S0
                keep += self.exec_block(s.finalbody, fr)
                self.S = None
            else:
                keep += self.exec_block(s.finalbody, fr)
        return keep

    def s_Match(self, s, fr):
        subj = self.ev(s.subject, fr)
        outs = []
        rest = self.S
        res = None
        for c in s.cases:
            if rest is None:
                break
            self.S = rest
            pats = c.pattern.patterns if isinstance(c.pattern, ast.MatchOr) else [c.pattern]
            t, cond = None, None
            if any(isinstance(p, ast.MatchAs) and p.pattern is None for p in pats):
                t = True
                for p in pats:
                    if isinstance(p, ast.MatchAs) and p.name:
                        self.put(fr.id, p.name, subj)
            elif all(isinstance(p, (ast.MatchValue, ast.MatchSingleton)) for p in pats):
                rs = [self.truth(self.compare('==', subj, self.ev(p.value, fr) if isinstance(p, ast.MatchValue) else p.value)) for p in pats]
                if any(r[0] is True for r in rs):
                    t = True
                elif all(r[0] is False for r in rs):
                    t = False
                else:
                    cond = Sym('or', *[r[1] for r in rs if r[0] is None]) if len(rs) > 1 else rs[0][1]
            if c.guard is not None and t is not False:
                t, cond = None, Sym('guard', self.where())
            if t is False:
                continue
            st = self.S.copy() if t is None else self.S
            other = self.S if t is None else None
            if cond is not None:
                st.pc = st.pc | facts_of(cond)
                other.pc = other.pc | facts_of(negate(cond))
            self.S = st
            outs += self.exec_block(c.body, fr)
            res = self.merge(res, self.S)
            rest = other
        self.S = self.merge(res, rest)
        return outs

    # ------------------------------------------------------------ assignment
    def assign_name(self, name, v, fr):
        f = fr
        if name in fr.globals:
            f = fr.mod.frame
        elif name in fr.nonlocals:
            f = self.find_frame(name, fr.parent) or fr
        if f.kind == 'module' and self.epoch != 'import':
            self.event('setglobal', name=name, value=v, mod=f.mod.name)
        self.put(f.id, name, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.unpack(v, len(t.elts), star[0] if star else None)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            self.setitem(o, k, v)

    def mutated(self, o, how):
        if o.meta.get('input'):
            self.event('mutate', target=o, how=how, via='method')
        elif o.meta.get('epoch', None) == 'import' and self.epoch != 'import':
            self.event('setglobal', name='?', value=None, mod='?')

    def setattr(self, o, name, v):
        if isinstance(o, Choice):
            for x in o.vals:
                if isinstance(x, Obj):
                    old = self.get(x.id, '.' + name)
                    self.put(x.id, '.' + name, v if old is UNDEF else join(old, v))
                elif isinstance(x, Sym):
                    self.event('mutate', target=x, how='.%s =' % name, via='attr')
            return
        if isinstance(o, Obj) and o.kind in ('inst',):
            if o.meta.get('input'):
                self.event('mutate', target=o, how='.%s =' % name, via='attr')
            self.event('setattr', target=o, name=name, value=v)
            self.put(o.id, '.' + name, v)
        elif isinstance(o, Mod):
            self.event('setglobal', name=name, value=v, mod=o.name)
            self.put(o.frame.id, name, v)
        elif isinstance(o, Cls):
            self.event('setglobal', name=name, value=v, mod=o.qual)
            self.put(o.frame.id, name, v)
        else:
            self.event('mutate', target=o, how='.%s =' % name, via='attr')

    def setitem(self, o, k, v):
        if isinstance(o, Choice):
            for x in o.vals:
                self.setitem(x, k, v) if not (isinstance(x, Obj) and x.kind == 'list' and isinstance(k, int)) else self.weak_setitem(x, k, v)
            return
        if isinstance(o, Obj) and o.kind == 'dict':
            self.mutated(o, '[..] =')
            if isinstance(o.meta.get('vars'), Obj) and isinstance(k, str):
                self.setattr(o.meta['vars'], k, v)
            items = self.get(o.id, 'items', ())
            if isinstance(k, (str, int, float, bool, tuple, type(None))) and (not isinstance(k, tuple) or isconst(k)):
                new, hit = [], False
                for a, b in items:
                    if same(a, k):
                        new.append((a, v))
                        hit = True
                    else:
                        new.append((a, b))
                if not hit:
                    new.append((k, v))
                self.put(o.id, 'items', tuple(new))
            else:
                rest = self.get(o.id, 'rest', ())
                fk = (k, v)
                if not any(same(fk, r) for r in rest):
                    self.put(o.id, 'rest', rest + (fk,))
            if o.meta.get('module') and self.epoch != 'import':
                self.event('setglobal', name='dict', value=v, mod=str(o.site))
        elif isinstance(o, Obj) and o.kind == 'list':
            self.mutated(o, '[..] =')
            segs = self.segs(o)
            n = len(segs)
            if isinstance(k, int) and all(s[0] == 'item' for s in segs) and -n <= k < n:
                i = k % n
                self.put(o.id, 'segs', segs[:i] + (('item', v),) + segs[i + 1:])
            elif isinstance(k, int) and k >= 0 and k < n and all(s[0] == 'item' for s in segs[:k + 1]):
                self.put(o.id, 'segs', segs[:k] + (('item', v),) + segs[k + 1:])
            else:
                self.put(o.id, 'segs', mapsegs(segs, lambda x: join(x, v)))
        elif isinstance(o, Obj) and o.kind == 'arr':
            st = self.get(o.id, 'stores', ())
            e = (k, v)
            if not any(same(e, x) for x in st):
                self.put(o.id, 'stores', st + (e,))
            self.event('arrstore', target=o, key=k, value=v)
        elif isinstance(o, Obj) and o.kind == 'inst' and not o.meta.get('input'):
            f = self.find_method(o, '__setitem__')
            if f:
                self.call(Bound(f, o), [k, v], {})
        else:
            self.event('mutate', target=o, how='[%s] =' % show(k) if isinstance(k, Sym) else '[..] =', via='item', key=k, value=v)

    def weak_setitem(self, o, k, v):
        segs = self.segs(o)
        n = len(segs)
        if isinstance(k, int) and all(s[0] == 'item' for s in segs) and -n <= k < n:
            i = k % n
            self.put(o.id, 'segs', segs[:i] + (('item', join(segs[i][1], v)),) + segs[i + 1:])
        else:
            self.put(o.id, 'segs', mapsegs(segs, lambda x: join(x, v)))

    def unpack(self, v, n, star=None):
        if isinstance(v, Choice):
            rows = [self.unpack(x, n, star) for x in v.vals]
            return [choice([r[i] for r in rows]) for i in range(n)]
        items = None
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, str):
            items = list(v)
        elif isinstance(v, Obj) and v.kind in ('list', 'set'):
            segs = self.segs(v)
            if all(s[0] == 'item' for s in segs):
                items = [s[1] for s in segs]
            else:
                es = []
                for s in segs:
                    es += self.seg_elems(s)
                return [choice(es) if es else Sym('top', '?')] * n
        if items is not None:
            if star is None:
                if len(items) != n:
                    self.event('raise', exc='ValueError', cond=None)
                    raise PyRaise(Exc('ValueError'))
                return items
            after = n - star - 1
            return items[:star] + [self.mklist(items[star:len(items) - after])] + (items[len(items) - after:] if after else [])
        f = self.freeze(v)
        if isinstance(f, Sym) and f.op == 'shape':
            self.S.pc = self.S.pc | {Sym('cmp', '==', Sym('rank', f.args[0]), n)}
            return [self.dim(f.args[0], i) for i in range(n)]
        if star is not None:
            return [self.getitem(v, i) if i != star else self.new_list([('top', Sym('item', f, 'star'))]) for i in range(n)]
        return [self.getitem(v, i) for i in range(n)]

    def dim(self, x, i):
        return self.ext.dim(x, i)

    # ------------------------------------------------------------ names
    def find_frame(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if (f.kind != 'class' or first) and (f.id, name) in self.S.h:
                return f
            first = False
            f = f.parent
        return None

    def lookup(self, name, fr):
        if name in fr.globals:
            return self.get(fr.mod.frame.id, name)
        f = self.find_frame(name, fr)
        if f is not None:
            return self.S.h[(f.id, name)]
        return UNDEF

    from pyexpr import (ev, evs, call, call_func, bind_args, getattr, getitem, binop, compare, freeze, iter_segs,
                        list_len, find_method, format_value, fmt_field, instantiate, comprehension,
                        e_Constant, e_Name, e_Attribute, e_Subscript, e_Slice, e_Tuple, e_List, e_Set, e_Dict, e_BinOp,
                        e_UnaryOp, e_BoolOp, e_Compare, e_Call, e_IfExp, e_JoinedStr, e_FormattedValue, e_Lambda, e_ListComp, e_SetComp,
                        e_GeneratorExp, e_DictComp, e_NamedExpr, e_Starred, e_Await, e_Yield, tostr, is_num, deref, elems_of)


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.MatMult: '@'}


def isconst(v):
    if isinstance(v, tuple):
        return all(isconst(x) for x in v)
    return v is None or isinstance(v, (bool, int, float, str, bytes))


def mapsegs(segs, f):
    out = []
    for s in segs:
        if s[0] == 'item':
            out.append(('item', f(s[1])))
        elif s[0] == 'rep':
            out.append(('rep', mapsegs(s[1], f), s[2], s[3]))
        elif s[0] == 'alt':
            out.append(('alt', tuple(mapsegs(a, f) for a in s[1])))
        else:
            out.append(s)
    return tuple(out)


def sameseg(a, b):
    return same(a, b)


def joinsegs(u, v):
    i = 0
    while i < len(u) and i < len(v) and sameseg(u[i], v[i]):
        i += 1
    j = 0
    while j < len(u) - i and j < len(v) - i and sameseg(u[-1 - j], v[-1 - j]):
        j += 1
    a, b = u[i:len(u) - j], v[i:len(v) - j]
    if not a and not b:
        return u
    tail = u[len(u) - j:] if j else ()
    if len(a) == len(b) and all(x[0] == 'item' for x in a + b):
        # same length, items differ
        return u[:i] + tuple(('item', join(x[1], y[1])) for x, y in zip(a, b)) + tail
    alts = []
    for x in (a, b):
        if len(x) == 1 and x[0][0] == 'alt':
            alts += [y for y in x[0][1] if y not in alts]
        elif not any(same(x, y) for y in alts):
            alts.append(x)
    if len(alts) > 6:
        return (('top', Sym('top', 'segs')),)
    return u[:i] + (('alt', tuple(alts)),) + tail


def itemwise(u, v, lid, k, op):
    """join of two lists of the same fixed length, item by item; None when they are not"""
    if len(u) != len(v) or not all(x[0] == 'item' for x in u + v):
        return None
    out = []
    for i, (x, y) in enumerate(zip(u, v)):
        a, b = x[1], y[1]
        if same(a, b):
            out.append(x)
        elif isinstance(a, Sym) and a.op == 'loopvar' and a.args[0] == lid:
            out.append(x)
        else:
            out.append(('item', op(a, b)))
    return tuple(out)


def joinitems(u, v):
    out = list(u)
    for k, x in v:
        for i, (k2, y) in enumerate(out):
            if same(k, k2):
                out[i] = (k, join(y, x))
                break
        else:
            out.append((k, join(x, UNDEF)))
    for i, (k, y) in enumerate(out):
        if not any(same(k, k2) for k2, _ in v):
            out[i] = (k, join(y, UNDEF))
    return tuple(out)


def grown(u, v):
    """what was appended to u to get v (segments or text), or None"""
    if isinstance(u, tuple) and isinstance(v, tuple):
        if not (all(isinstance(x, tuple) and x and x[0] in SEGTAGS for x in u) and all(isinstance(x, tuple) and x and x[0] in SEGTAGS for x in v)):
            return None
        if len(v) >= len(u) and all(sameseg(a, b) for a, b in zip(u, v)):
            return list(v[len(u):])
        return None
    if isinstance(u, (str, Str)) and isinstance(v, (str, Str)):
        p = remove_prefix(v, u)
        return p if p else None
    return None


_parsed = {}


def cc_parse(path):
    src = open(path, encoding='utf8').read()
    key = (path, src)
    if key not in _parsed:
        _parsed[key] = ast.parse(src, path)
    return _parsed[key]
