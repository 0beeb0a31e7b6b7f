"""Abstract values of the Python analysis (see pyabs.py)."""

class Sym:
    """An opaque value, identified by the term that produced it (hash-consed)."""
    __slots__ = ('op', 'args', 'h', '_k')
    _tab = {}

    def __new__(cls, op, *args):
        key = (op, tuple((type(a).__name__, a) if not isinstance(a, Sym) else a for a in args))
        try:
            s = cls._tab.get(key)
        except TypeError:
            raise TypeError('unhashable in term %s %r' % (op, args))
        if s is None:
            s = object.__new__(cls)
            s.op, s.args, s.h = op, args, hash(key)
            cls._tab[key] = s
        return s

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


def show(v, depth=4):
    if isinstance(v, Sym):
        if depth == 0:
            return '..'
        a = v.args
        d = depth - 1
        if v.op == 'in':
            return str(a[0])
        if v.op == 'attr':
            return '%s.%s' % (show(a[0], d), a[1])
        if v.op == 'item':
            return '%s[%s]' % (show(a[0], d), show(a[1], d))
        if v.op == 'elem':
            return 'each(%s)' % show(a[0], d)
        if v.op == 'dim':
            return 'shape(%s)[%s]' % (show(a[0], d), show(a[1], d))
        if v.op == 'bin':
            return '(%s %s %s)' % (show(a[1], d), a[0], show(a[2], d))
        if v.op == 'cmp':
            return '(%s %s %s)' % (show(a[1], d), a[0], show(a[2], d))
        if v.op == 'call':
            return '%s(%s)' % (a[0], ', '.join([show(x, d) for x in a[1]] + ['%s=%s' % (k, show(x, d)) for k, x in a[2]]))
        if v.op == 'meth':
            return '%s.%s(%s)' % (show(a[0], d), a[1], ', '.join([show(x, d) for x in a[2]] + ['%s=%s' % (k, show(x, d)) for k, x in a[3]]))
        if v.op == 'unique':
            return '%s#%s' % (a[0], a[1])
        if v.op == 'mix':
            return 'mix{%s}' % ', '.join([show(x, d) for x in a[0]] + [str(x) for x in a[2]])
        if v.op == 'lookup':
            return 'table[%s]' % show(a[0], d)
        return '%s(%s)' % (v.op, ', '.join(show(x, d) for x in a))
    if isinstance(v, tuple):
        return '(%s)' % ', '.join(show(x, depth) for x in v)
    return repr(v)


class Other:
    """A value different from every constant in the program."""
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return '<unsupported %s>' % self.what


class Native:
    """A method of an input object, given by the scenario."""
    def __init__(self, fn):
        self.fn = fn


class External:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, External) and o.name == self.name

    def __hash__(self):
        return hash(('ext', self.name))

    def __repr__(self):
        return '<%s>' % self.name


class Undef:
    def __repr__(self):
        return '<undefined>'


UNDEF = Undef()


class Choice:
    """One of several values."""
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def __eq__(self, o):
        return isinstance(o, Choice) and len(o.vals) == len(self.vals) and all(any(same(a, b) for b in o.vals) for a in self.vals)

    def __hash__(self):
        return hash(('choice', len(self.vals)))

    def __repr__(self):
        return '{%s}' % ' | '.join(repr(v) for v in self.vals)


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Sym, Obj)):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    try:
        return a == b
    except Exception:
        return False


MAXCHOICE = 24


def choice(vals):
    out = []
    for v in vals:
        for w in (v.vals if isinstance(v, Choice) else (v,)):
            if not any(same(w, o) for o in out):
                out.append(w)
    if len(out) == 1:
        return out[0]
    if len(out) > MAXCHOICE:
        return mixof(out)
    return Choice(out)


def mixof(vals):
    """Widening: what a numeric value may be made of (input roots), through which operations, and constants."""
    roots, ops, consts = set(), set(), set()

    def walk(v):
        if isinstance(v, Choice):
            for x in v.vals:
                walk(x)
        elif isinstance(v, bool) or v is None or isinstance(v, (int, float)):
            consts.add(v)
        elif isinstance(v, Sym):
            if v.op == 'mix':
                roots.update(v.args[0])
                ops.update(v.args[1])
                consts.update(v.args[2])
            elif v.op in ('in', 'attr', 'unique', 'top', 'loopvar', 'cut', 'idx', 'dim', 'seglen', 'altlen', 'obj'):
                roots.add(v)
            else:
                if v.op in ('call', 'bin', 'un'):
                    ops.add(str(v.args[0]))
                elif v.op == 'meth':
                    ops.add(str(v.args[1]))
                elif v.op == 'lookup':
                    ops.add('lookup')
                if v.op == 'lookup':
                    walk(v.args[0])
                    return True
                if v.op == 'elem' or v.op == 'item':
                    walk(v.args[0])
                    return True
                for a in v.args[1:] if v.op in ('call', 'bin', 'un') else v.args:
                    if isinstance(a, tuple):
                        for b in a:
                            if isinstance(b, Sym):
                                walk(b)
                    elif isinstance(a, (Sym, int, float)):
                        walk(a)
        else:
            return False
        return True
    ok = True
    for v in vals:
        ok = walk(v) is not False and ok
    if not ok:
        return Sym('top', 'choice')
    return Sym('mix', tuple(sorted(roots, key=str)), tuple(sorted(ops)), tuple(sorted(consts, key=str)))


def widen(a, b):
    j = join(a, b)
    if isinstance(j, Choice) and any(isinstance(x, Sym) and x.op == 'mix' for x in j.vals) or isinstance(j, Choice) and len(j.vals) > 5:
        m = mixof(j.vals)
        if m.op == 'mix':
            return m
    return j


def join(a, b):
    if same(a, b):
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and not (a and isinstance(a[0], str) and a[0] in SEGTAGS):
        return tuple(join(x, y) for x, y in zip(a, b))
    return choice([a, b])


# ---------------------------------------------------------------- strings
class Hole:
    """A value formatted into text."""
    __slots__ = ('value', 'conv', 'spec', 'facts')

    def __init__(self, value, conv, spec, facts=frozenset()):
        self.value, self.conv, self.spec, self.facts = value, conv, spec, facts

    def __eq__(self, o):
        return isinstance(o, Hole) and same(self.value, o.value) and self.conv == o.conv and self.spec == o.spec

    def __hash__(self):
        return hash((self.conv, self.spec))

    def __repr__(self):
        return '<%s%s>' % (show(self.value), ':' + self.spec if self.spec else '')


class RepS:
    """body repeated count times, separated by sep"""
    __slots__ = ('body', 'sep', 'count', 'loop')

    def __init__(self, body, sep, count, loop):
        self.body, self.sep, self.count, self.loop = body, sep, count, loop

    def __eq__(self, o):
        return isinstance(o, RepS) and self.body == o.body and self.sep == o.sep and same(self.count, o.count)

    def __hash__(self):
        return hash((self.body, self.sep))

    def __repr__(self):
        return '[%r * %s sep %r]' % (self.body, show(self.count), self.sep)


class AltS:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __eq__(self, o):
        return isinstance(o, AltS) and self.alts == o.alts

    def __hash__(self):
        return hash(self.alts)

    def __repr__(self):
        return '(%s)' % ' || '.join(repr(a) for a in self.alts)


class TagS(AltS):
    """A text returned by a recursive call, with a note about its arguments."""
    __slots__ = ('tag',)

    def __init__(self, alts, tag):
        self.alts, self.tag = tuple(alts), tag

    def __eq__(self, o):
        return isinstance(o, TagS) and self.tag == o.tag and self.alts == o.alts

    def __hash__(self):
        return hash((self.alts, self.tag))


class OpS:
    """An operation on a text which is not resolved further (wrap, strip, ..)."""
    __slots__ = ('op', 'arg')

    def __init__(self, op, arg):
        self.op, self.arg = op, arg

    def __eq__(self, o):
        return isinstance(o, OpS) and self.op == o.op and same(self.arg, o.arg)

    def __hash__(self):
        return hash(self.op)

    def __repr__(self):
        return '%s(%r)' % (self.op, self.arg)


class Str:
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, Str) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return 'S(%s)' % ' + '.join(repr(p) for p in self.parts)


def mkstr(parts):
    """normalised: a plain str when there are no holes"""
    out = []
    for p in parts:
        if isinstance(p, Str):
            for q in p.parts:
                _addpart(out, q)
        else:
            _addpart(out, p)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Str(out)


def _addpart(out, p):
    if isinstance(p, str):
        if p == '':
            return
        if out and isinstance(out[-1], str):
            out[-1] += p
            return
    out.append(p)


def parts_of(s):
    return (s,) if isinstance(s, str) else s.parts


def cat(a, b):
    return mkstr(list(parts_of(a)) + list(parts_of(b)))


def remove_prefix(s, p):
    """parts of s after the prefix p, or None"""
    a, b = list(parts_of(s)), list(parts_of(p))
    if b == ['']:
        return a
    i = 0
    while i < len(b):
        if i >= len(a):
            return None
        if a[i] == b[i]:
            i += 1
            continue
        if i == len(b) - 1 and isinstance(a[i], str) and isinstance(b[i], str) and a[i].startswith(b[i]):
            return [a[i][len(b[i]):]] + a[i + 1:]
        return None
    return a[i:]


# ---------------------------------------------------------------- objects
SEGTAGS = ('item', 'rep', 'alt', 'top', 'acc')


class Obj:
    """A heap object; its contents live in the store of the state."""
    _n = 0

    def __init__(self, kind, site=None, **meta):
        Obj._n += 1
        self.id = Obj._n
        self.kind = kind          # list set dict inst arr file
        self.site = site
        self.meta = meta

    def __repr__(self):
        return '<%s %d>' % (self.meta.get('cls') or self.kind, self.id)


class Func:
    def __init__(self, node, mod, frame, name, qual, defaults=(), kwdefaults=None, cls=None):
        self.node, self.mod, self.frame, self.name, self.qual = node, mod, frame, name, qual
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults or {}, cls
        self.decor = []

    def __repr__(self):
        return '<func %s>' % self.qual


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func is self.func and same(o.self_, self.self_)

    def __hash__(self):
        return hash(id(self.func))


class Meth:
    """method of a builtin/abstract value"""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __eq__(self, o):
        return isinstance(o, Meth) and same(o.obj, self.obj) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Cls:
    def __init__(self, name, mod, bases, frame, node):
        self.name, self.mod, self.bases, self.frame, self.node = name, mod, bases, frame, node

    def __repr__(self):
        return '<class %s.%s>' % (self.mod.name, self.name)


class Mod:
    def __init__(self, name, path, frame):
        self.name, self.path, self.frame = name, path, frame

    def __repr__(self):
        return '<module %s>' % self.name


class Frame:
    _n = 0

    def __init__(self, kind, parent, mod, node=None):
        Frame._n += 1
        self.id = -Frame._n
        self.kind, self.parent, self.mod, self.node = kind, parent, mod, node
        self.globals, self.nonlocals = set(), set()
        self.captured = False


class Exc:
    def __init__(self, name, args=()):
        self.name, self.args = name, args

    def __repr__(self):
        return '%s%r' % (self.name, self.args)


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


# ---------------------------------------------------------------- conditions
NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>', 'in': 'not in', 'not in': 'in',
       'is': 'is not', 'is not': 'is'}
SWAP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


def negate(c):
    if isinstance(c, Sym):
        if c.op == 'cmp':
            return Sym('cmp', NEG[c.args[0]], c.args[1], c.args[2])
        if c.op == 'not':
            return c.args[0]
        if c.op == 'or':
            return Sym('and', *[negate(x) for x in c.args])
        if c.op == 'and':
            return Sym('or', *[negate(x) for x in c.args])
    return Sym('not', c)


def facts_of(c, out=None):
    """the conjuncts that hold when condition c holds"""
    if out is None:
        out = set()
    if isinstance(c, Sym):
        if c.op == 'and':
            for x in c.args:
                facts_of(x, out)
        elif c.op == 'meth' and c.args[1] == 'all' and not c.args[2] and isinstance(c.args[0], Sym):
            facts_of(c.args[0], out)
        elif c.op == 'not' and isinstance(c.args[0], Sym) and c.args[0].op == 'meth' and c.args[0].args[1] == 'any' and not c.args[0].args[2]:
            facts_of(negate(c.args[0].args[0]), out)
        elif c.op == 'all':
            facts_of(c.args[0], out)
        elif c.op == 'not' and isinstance(c.args[0], Sym) and c.args[0].op == 'any':
            facts_of(negate(c.args[0].args[0]), out)
        elif c.op == 'not' and isinstance(c.args[0], Sym) and c.args[0].op == 'call' and c.args[0].args[0] in ('numpy.any', 'any') and len(c.args[0].args[1]) == 1:
            facts_of(negate(c.args[0].args[1][0]), out)
        elif c.op == 'call' and c.args[0] in ('numpy.all', 'all') and len(c.args[1]) == 1:
            facts_of(c.args[1][0], out)
        else:
            out.add(c)
    return out


def subterms(v, seen=None):
    """all Sym nodes inside a value"""
    if seen is None:
        seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Sym):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, frozenset):
            stack.extend(x)
        elif isinstance(x, Choice):
            stack.extend(x.vals)
        elif isinstance(x, Str):
            stack.extend(x.parts)
        elif isinstance(x, Hole):
            stack.append(x.value)
        elif isinstance(x, RepS):
            stack.extend([x.body, x.count, x.sep])
        elif isinstance(x, AltS):
            stack.extend(x.alts)
        elif isinstance(x, OpS):
            stack.append(x.arg)


def holes(s):
    """all (Hole) in a text"""
    if isinstance(s, str):
        return
    if isinstance(s, Choice):
        for v in s.vals:
            if isinstance(v, (str, Str)):
                yield from holes(v)
        return
    for p in s.parts:
        if isinstance(p, Hole):
            yield p
        elif isinstance(p, RepS):
            yield from holes(p.body)
            yield from holes(p.sep)
        elif isinstance(p, AltS):
            for a in p.alts:
                yield from holes(a)
        elif isinstance(p, OpS) and isinstance(p.arg, (Str, str)):
            yield from holes(p.arg)
