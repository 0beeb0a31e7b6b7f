"""G06: names in generated code are C identifiers that are not reserved."""
import re
try:
    from re import _parser as sre, _constants as srec
except ImportError:
    import sre_parse as sre, sre_constants as srec
from pyscen import *
from pyval import *
from chk_g03 import alternatives
from chk_g05 import terms
from report import Report, Lost

KEYWORDS = set('''auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct
switch typedef union unsigned void volatile while inline restrict _Bool _Complex _Imaginary _Alignas _Alignof _Atomic _Generic _Noreturn _Static_assert _Thread_local'''.split())
LETTERS = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
DIGITS = set('0123456789')
SIGMA = [chr(i) for i in range(128)] + list('\x80\xa0\xaa\xb2\xb5\xc0\xd7\xdf\xe9\xff\u0130\u0131\u017f\u0370\u0660\u2028\u2160\u212a\u4e00\uff21\U0001d400\U0001f600')


class Undecided(Exception):
    pass


class Nfa:
    """states are integers; transitions on predicates over characters"""

    def __init__(self, pattern, flags, mode):
        self.eps, self.on, self.n = {}, {}, 0
        self.flags = flags
        tree = sre.parse(pattern, flags)
        self.flags = tree.state.flags
        self.start = self.new()
        s = self.start
        if mode == 'search':
            self.on.setdefault(s, []).append((lambda c: True, s))
        items = list(tree)
        self.tail = None
        while items and items[0][0] is srec.AT and items[0][1] in (srec.AT_BEGINNING, srec.AT_BEGINNING_STRING):
            if items[0][1] is srec.AT_BEGINNING and self.flags & re.M:
                raise Undecided('^ with MULTILINE')
            items = items[1:]
            if mode == 'search':
                self.on[s] = []
        while items and items[-1][0] is srec.AT and items[-1][1] in (srec.AT_END, srec.AT_END_STRING):
            if self.flags & re.M and items[-1][1] is srec.AT_END:
                raise Undecided('$ with MULTILINE')
            if self.tail != 'string':
                self.tail = 'string' if items[-1][1] is srec.AT_END_STRING else 'end'
            items = items[:-1]
        e = self.seq(items, s)
        self.final = {e}
        if mode != 'fullmatch':
            if self.tail == 'end':
                f = self.new()
                self.on.setdefault(e, []).append((lambda c: c == '\n', f))
                self.final.add(f)
            elif self.tail is None:
                f = self.new()
                self.eps.setdefault(e, []).append(f)
                self.on.setdefault(f, []).append((lambda c: True, f))
                self.final.add(f)

    def new(self):
        self.n += 1
        return self.n

    def link(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def fold(self, c):
        """characters that are the same as c without regard to case"""
        if not self.flags & re.I or self.flags & re.A and not c.isascii():
            return {c}
        out = {c, c.lower(), c.upper()}
        if not self.flags & re.A:
            for group in ('kK\u212a', 'sS\u017f', 'iI\u0130\u0131'):
                if c in group:
                    out |= set(group)
        return out

    def category(self, cat, c):
        neg = 'NOT' in str(cat)
        name = str(cat)
        a = bool(self.flags & re.A)
        if 'DIGIT' in name:
            r = c in DIGITS if a else c.isdecimal()
        elif 'WORD' in name:
            r = c in LETTERS | DIGITS if a else c.isalnum() or c == '_'
        elif 'SPACE' in name:
            r = c in ' \t\n\r\f\v' if a else c.isspace()
        else:
            raise Undecided(name)
        return r != neg

    def member(self, items):
        neg = bool(items) and items[0][0] is srec.NEGATE

        def test(c):
            r = False
            for op, av in items[1:] if neg else items:
                if op is srec.LITERAL:
                    r = r or av in map(ord, (x for x in self.fold(c) if len(x) == 1))
                elif op is srec.RANGE:
                    r = r or any(av[0] <= ord(x) <= av[1] for x in self.fold(c) if len(x) == 1)
                elif op is srec.CATEGORY:
                    r = r or self.category(av, c)
                else:
                    raise Undecided(str(op))
            return r != neg
        return test

    def seq(self, items, s):
        for op, av in items:
            if op is srec.LITERAL or op is srec.NOT_LITERAL or op is srec.IN or op is srec.ANY or op is srec.CATEGORY:
                t = {srec.LITERAL: lambda: self.member([(srec.LITERAL, av)]),
                     srec.NOT_LITERAL: lambda: self.member([(srec.NEGATE, None), (srec.LITERAL, av)]),
                     srec.IN: lambda: self.member(av),
                     srec.CATEGORY: lambda: self.member([(op, av)]),
                     srec.ANY: lambda: (lambda c: bool(self.flags & re.S) or c != '\n')}[op]()
                n = self.new()
                self.on.setdefault(s, []).append((t, n))
                s = n
            elif op is srec.SUBPATTERN:
                if av[1] or av[2]:
                    raise Undecided('inline flags')
                s = self.seq(list(av[3]), s)
            elif op is srec.BRANCH:
                e = self.new()
                for alt in av[1]:
                    b = self.new()
                    self.link(s, b)
                    self.link(self.seq(list(alt), b), e)
                s = e
            elif op in (srec.MAX_REPEAT, srec.MIN_REPEAT) or str(op) == 'POSSESSIVE_REPEAT' and False:
                lo, hi, body = av
                if lo > 200:
                    raise Undecided('repetition')
                for _ in range(lo):
                    s = self.seq(list(body), s)
                if hi is srec.MAXREPEAT or hi == srec.MAXREPEAT:
                    a = self.new()
                    self.link(s, a)
                    self.link(self.seq(list(body), a), a)
                    s = a
                else:
                    if hi - lo > 300:
                        raise Undecided('repetition')
                    e = self.new()
                    self.link(s, e)
                    for _ in range(hi - lo):
                        s = self.seq(list(body), s)
                        self.link(s, e)
                    s = e
            else:
                raise Undecided(str(op))
        return s

    def close(self, states):
        out, work = set(states), list(states)
        while work:
            for t in self.eps.get(work.pop(), ()):
                if t not in out:
                    out.add(t)
                    work.append(t)
        return frozenset(out)

    def step(self, states, c):
        return self.close({t for s in states for p, t in self.on.get(s, ()) if p(c)})

    def accepts(self, states):
        return bool(states & self.final)


class IdentifierName:
    """identifier of another definition (str.isidentifier)"""
    start = 'start'
    final = {'in'}

    def close(self, s):
        return frozenset(s)

    def step(self, states, c):
        if 'start' in states:
            return frozenset({'in'} if c.isidentifier() else ())
        return frozenset({'in'} if 'in' in states and ('a' + c).isidentifier() else ())

    def accepts(self, states):
        return 'in' in states


class Ascii:
    """strings of ASCII characters (str.isascii)"""
    start = 'start'

    def close(self, s):
        return frozenset(s)

    def step(self, states, c):
        return frozenset(states if c.isascii() else ())

    def accepts(self, states):
        return bool(states)


def difference(machines):
    """a word on which the conjunction of the machines and the language of C identifiers disagree: (word, accepted) or None"""
    init = (tuple(m.close({m.start}) for m in machines), 0)
    seen, work = {init}, [(init, '')]
    while work:
        nxt = []
        for (st, q), w in work:
            got = all(m.accepts(s) for m, s in zip(machines, st))
            if got != (q == 1):
                return w, got
            for c in SIGMA:
                q2 = 1 if q in (0, 1) and c in LETTERS or q == 1 and c in DIGITS else 2
                k = (tuple(m.step(s, c) for m, s in zip(machines, st)), q2)
                if k not in seen and (q2 != 2 or all(k[0])):
                    seen.add(k)
                    nxt.append((k, w + c))
                    if len(seen) > 20000:
                        raise Undecided('too many states')
        work = nxt
    return None


def reflags(x):
    if x is None:
        return 0
    if isinstance(x, int):
        return x
    if isinstance(x, External):
        return int(getattr(re, x.name.split('.')[-1], 0))
    if isinstance(x, Sym) and x.op == 'bin' and x.args[0] in ('|', '+'):
        return reflags(x.args[1]) | reflags(x.args[2])
    raise Undecided('flags')


def matcher(x):
    """(mode, pattern, flags, subject) of a call that matches a pattern"""
    if not isinstance(x, Sym):
        return None
    if x.op == 'call' and x.args[0] in ('re.fullmatch', 're.match', 're.search'):
        a, kw = x.args[1], dict(x.args[2]) if len(x.args) > 2 else {}
        fl = a[2] if len(a) > 2 else kw.get('flags')
        p = a[0]
        s = a[1] if len(a) > 1 else kw.get('string')
        if isinstance(p, Sym) and p.op == 'call' and p.args[0] == 're.compile':
            fl, p = (p.args[1][1] if len(p.args[1]) > 1 else dict(p.args[2]).get('flags')), p.args[1][0]
        return x.args[0][3:], p, fl, s
    if x.op == 'meth' and x.args[1] in ('fullmatch', 'match', 'search') and isinstance(x.args[0], Sym) and x.args[0].op == 'call' and x.args[0].args[0] == 're.compile':
        c = x.args[0]
        return x.args[1], c.args[1][0], c.args[1][1] if len(c.args[1]) > 1 else dict(c.args[2]).get('flags'), x.args[2][0]
    return None


def constset(s):
    """words that are surely in a set"""
    out = set()

    def go(x):
        if isinstance(x, str):
            out.add(x)
        elif isinstance(x, tuple) and len(x) == 2 and x[0] == 'item':
            go(x[1])
        elif isinstance(x, tuple) and x and x[0] == 'rep':
            for y in x[1]:
                go(y)
        elif isinstance(x, Sym) and x.op in ('set', 'list', 'setelem'):
            for y in x.args:
                if isinstance(y, (tuple, Sym)):
                    go(y)
        elif isinstance(x, Sym) and x.op == 'bin' and x.args[0] == '|':
            go(x.args[1])
            go(x.args[2])
        elif isinstance(x, Sym) and x.op == 'call' and x.args[0] in ('set', 'frozenset', 'tuple', 'list', 'sorted'):
            go(x.args[1][0])
    if isinstance(s, (set, frozenset, tuple, list)):
        for x in s:
            go(x)
    else:
        go(s)
    return out


def facts(pc, subject):
    """(machines, words excluded, other facts) about a term on a path"""
    machines, excluded, other = [], set(), []

    def go(c, want=True):
        if isinstance(c, Sym) and c.op == 'not':
            return go(c.args[0], not want)
        if isinstance(c, Sym) and (c.op == 'and' and want or c.op == 'or' and not want):
            for x in c.args:
                go(x, want)
            return
        if not any(same(y, subject) for y in terms(c)):
            return
        m = None
        if isinstance(c, Sym) and c.op == 'cmp' and c.args[0] in ('is', 'is not', '==', '!=') and any(x is None for x in c.args[1:3]):
            x = c.args[2] if c.args[1] is None else c.args[1]
            m = matcher(x)
            pos = (c.args[0] in ('is not', '!=')) == want
        elif matcher(c):
            m, pos = matcher(c), want
        if m:
            mode, p, fl, s = m
            if not same(s, subject):
                return
            if not isinstance(p, str):
                raise Undecided('pattern')
            if not pos:
                other.append(c)
                return
            machines.append((Nfa(p, reflags(fl), mode), mode, p))
            return
        if isinstance(c, Sym) and c.op == 'meth' and c.args[1] == 'isidentifier' and same(c.args[0], subject) and want:
            machines.append((IdentifierName(), 'isidentifier', ''))
            return
        if isinstance(c, Sym) and c.op == 'meth' and c.args[1] == 'isascii' and same(c.args[0], subject) and want:
            machines.append((Ascii(), 'isascii', ''))
            return
        if isinstance(c, Sym) and c.op == 'cmp' and c.args[0] in ('in', 'not in') and same(c.args[1], subject):
            if (c.args[0] == 'not in') == want:
                excluded.update(constset(c.args[2]))
                return
        if isinstance(c, Sym) and c.op == 'cmp' and c.args[0] in ('==', '!=') and (c.args[0] == '!=') == want:
            for x, y in (c.args[1:3], c.args[2:0:-1]):
                if same(x, subject) and (isinstance(y, str) or isinstance(y, Sym) and y.op in ('setelem', 'elem')):
                    # compared with every element in turn
                    excluded.update(constset(y))
                    return
        other.append(c)
    for c in pc:
        go(c)
    return machines, excluded, other


def quoted(w):
    return repr(w)


def saver(s, snap, m, o):
    def probe(w):
        s.restore(snap)
        return s.method(m, 'save', **dict(o, name=w))[1] is None
    return probe


def caller(s, snap, f, args, N):
    def probe(w):
        return s.call(f, *[w if x is N else x for x in args()])[1] is None
    return probe


WORDS = ['', 'a', '_', 'Z', 'a1', '_1', '1', '1a', 'a_b', 'A' * 70] + [x for c in SIGMA if c not in LETTERS | DIGITS for x in (c, 'a' + c, 'a' + c + 'b')]


def run():
    R = Report('G06', 'Identifiers.  Every save of every accepted family, method and option set (and the generators of tables) is followed with an unknown name; on every path to a return or a write of a text that contains it, '
               'the facts of the path are collected: patterns it matched (as automata) and sets it is not in.  The conjunction must accept exactly the language of C identifiers, decided on the product automaton over a '
               'representative alphabet, and the sets must contain every keyword of C.',
               ['the alphabet of the product automaton has every ASCII character and one character of each kind of non-ASCII characters', 'keywords are those of C11'])
    s = Session().load('', *FAMILIES, 'signal', 'common')
    ip = s.ip
    snap = s.snapshot()
    conv = s.attr('convert', 'convert')
    N, F = Sym('in', 'NAME'), Sym('in', 'FILE')
    known = {}

    def holes(v):
        return [h.value for h in alternatives(v)]

    def names(x):
        return {y.args[0] for y in terms(x) if isinstance(y, Sym) and y.op == 'in'} & {'NAME', 'FILE'}

    looked = []

    def look(ip_, n, op, l, r):
        for x in (l, r):
            if isinstance(x, Sym) and any(isinstance(y, Sym) and y.op == 'in' and y.args[0] in ('NAME', 'FILE') for y in terms(x)):
                looked.append(x)
    ip.oncompare = look

    def piecewise(other, subject):
        """the characters of the name are looked at one by one, or the name by other means"""
        return [o for o in other + looked if not same(o, subject) and any(same(z, subject) for z in terms(o)) and not matcher(o)]

    probed = {}

    def by_constants(what, where, probe, words, subject):
        """constant propagation of words through the check, where its facts are not patterns"""
        k = where.split('.')[-1]
        for w in words:
            R.ob('word followed', repr(w), subject=where)
            if (where, w) not in probed:
                probed[where, w] = probe(w)
            got = probed[where, w]
            want = bool(w) and w[0] in LETTERS and all(c in LETTERS | DIGITS for c in w) and w not in KEYWORDS
            if got and not want or not got and want and w not in ('asm', 'fortran', '_'):
                R.violate('language:%s' % k, '%s: the check %s %s, which %s a C identifier' % (what, 'accepts' if got else 'refuses', quoted(w), 'is not' if got else 'is'), where)
                return

    def judge(what, where, pc, subject, probe=None):
        R.ob('name used', what, subject=where)
        try:
            machines, excluded, other = facts(pc, subject)
            pieces = piecewise(other, subject)
            if not machines:
                if pieces:
                    raise Undecided('the characters of the name are looked at one by one')
                R.violate('unchecked:%s' % where, '%s: code with the name %r is produced without checking that it is an identifier' % (what, subject), where)
                return
            key = tuple((m, p, n.flags if hasattr(n, 'flags') else 0) for n, m, p in machines)
            if key not in known:
                known[key] = difference([n for n, m, p in machines])
            d = known[key]
            R.ob('languages compared', repr(key), subject=where)
            if d and pieces and probe:
                by_constants(what, where, probe, WORDS + [d[0]], subject)
            elif d:
                R.violate('language:%s' % where.split('.')[-1], '%s: the check %s %s, which %s a C identifier' % (
                    what, 'accepts' if d[1] else 'refuses', quoted(d[0]), 'is not' if d[1] else 'is'), where)
            missing = sorted(KEYWORDS - excluded)
            R.ob('keywords', '%s: %d words refused' % (what, len(excluded)), subject=where)
            if missing and pieces and probe:
                by_constants(what, where, probe, missing, subject)
            elif missing:
                R.violate('reserved:%s' % where, '%s: reserved words of C are accepted: %s' % (what, ' '.join(missing[:8])), where)
        except Undecided as e:
            R.ob('not decided from patterns: %s' % e, what, subject=where)
            if probe:
                by_constants(what, where, probe, WORDS + sorted(KEYWORDS), subject)

    def text(what, where, v, pc, probe=None):
        hs = [h for h in holes(v) if names(h)]
        if not hs:
            return
        done = []
        for h in hs:
            t = N if 'NAME' in names(h) else h
            if not any(same(t, x) for x in done):
                done.append(t)
                judge(what, where, pc, t, probe if same(t, N) else None)

    def followed(what, where, v, start, probe=None):
        for e in ip.events[start:]:
            if e.kind == 'write' and isinstance(e.value, Str):
                text(what + ' (written)', where, e.value, e.pc, probe)
        if isinstance(v, Str):
            text(what + ' (returned)', where, v, list(ip.S.pc), probe)

    for label, b, kw, saves in configs(R.thorough):
        s.restore(snap)
        ip.epoch = 'convert'
        m, err = s.call(conv, b(s), **kw)
        if err is not None:
            continue
        where = m.meta['cls'].qual + '.save'
        snap2 = s.snapshot()
        for opt in saves:
            for given in ({'name': N}, {'name': N, 'file': F}, {'file': F}):
                o = {k: v for k, v in opt.items() if k not in ('name', 'file')}
                o.update(given)
                s.restore(snap2)
                n0 = len(ip.events)
                looked.clear()
                v, err = s.method(m, 'save', **o)
                if err is None:
                    R.ob('save', '%s %s' % (label, sorted(o)), subject=where)
                    followed('%s %s' % (label, sorted(given)), where, v, n0, saver(s, snap2, m, o))
    s.restore(snap)
    for mod, fn, args in (('signal', 'sparse_filterbank_serialize', lambda: [(Sym('in', 'starts'), Sym('in', 'ends'), Sym('in', 'coeffs')), N]),
                          ('tools.window_function', 'window_function', lambda: [N, 'hann', Sym('in', 'n'), True, 70])):
        s.restore(snap)
        try:
            s.load('', mod)
            f = s.attr(mod, fn)
        except Exception:
            continue
        n0 = len(ip.events)
        looked.clear()
        v, err = s.call(f, *args())
        probe = caller(s, snap, f, args, N)
        if err is None:
            R.ob('table', fn, subject='emlearn.%s.%s' % (mod, fn))
            if not isinstance(v, Str):
                # laid out by textwrap and the like: the name is in it
                judge('%s (returned)' % fn, 'emlearn.%s.%s' % (mod, fn), list(ip.S.pc), N, probe)
            else:
                followed(fn, 'emlearn.%s.%s' % (mod, fn), v, n0, probe)
    R.floor('save', 30)
    R.floor('name used', 30)
    R.floor('table', 2)
    return R.finish()
