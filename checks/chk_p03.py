"""P03: what save writes is what it returns, and that text is a function of model, name and options."""
import re
import pyscen
from pyscen import *
from pyval import *
from report import Report, Lost

VARYING = re.compile(r'^(time\.|datetime\.|random\.|secrets\.|uuid\.|numpy\.random\.|os\.(getpid|getppid|urandom|environ|getenv|getcwd|getlogin|times|uname|listdir|scandir|stat|cpu_count)'
                     r'|os\.path\.(getmtime|abspath|realpath|exists|getsize)|platform\.|socket\.|getpass\.|tempfile\.|sys\.(argv|path|version|hexversion|platform)|id$|hash$|input$|glob\.|threading\.|locale\.|itertools\.count|next$|object\.__repr__|repr_of_object)')
# part of what the package itself ships, the same for every call
SHIPPED = re.compile(r'^__file__')


def varying(v):
    """reason the text is not a function of the model, name and options (or None)"""
    for t in subterms(v):
        if t.op == 'unique':
            return 'a value that is new on every call (%s)' % t.args[0]
        if t.op == 'setelem':
            return 'the iteration order of a set'
        if t.op == 'obj':
            return 'the default text of an object, which contains its address'
        if t.op == 'call':
            n = t.args[0]
            if n in ('os.path.abspath', 'os.path.realpath') and any(isinstance(x, Sym) and x.op == 'in' and SHIPPED.match(str(x.args[0])) for x in subterms(t)):
                continue
            if VARYING.match(n):
                return n + '()'
        if t.op == 'ext' or t.op == 'attr' and isinstance(t.args[0], Sym) and t.args[0].op == 'ext':
            n = t.args[0] if t.op == 'ext' else '%s.%s' % (t.args[0].args[0], t.args[1])
            if isinstance(n, str) and VARYING.match(n):
                return n
        if t.op == 'meth' and isinstance(t.args[0], Sym) and t.args[0].op == 'ext' and VARYING.match('%s.%s' % (t.args[0].args[0], t.args[1])):
            return '%s.%s()' % (t.args[0].args[0], t.args[1])
    return None


def mentions(v, x):
    return any(t is x for t in subterms(v))


def about_file(c):
    """a condition on the given name itself (is it given, is it empty), not on what is on disk"""
    return mentions(c, D('FILE')) and not any(t.op in ('call', 'meth', 'ext') for t in subterms(c))


def run():
    R = Report('P03', 'Saved text.  save is evaluated on every supported family, method and option by an abstract interpreter; the text is a term over the model, name and options.  '
               'Obligations: (a) with a file, on every path that returns (other than those where the file name is empty) exactly the returned text is written, once or piecewise, to that path in a truncating text mode; '
               '(b) without a file nothing is written; (c) the text contains no varying term (time, randomness, identity, environment, directory, set order, values new per call); '
               '(d) after saving under another name and to a file, saving again gives the identical term.',
               ['third-party calls are functions of their arguments unless in the table of varying functions'])
    s = Session().load('', *FAMILIES)
    s.ip.epoch = 'convert'
    snap = s.snapshot()
    conv = s.attr('convert', 'convert')
    ip = s.ip
    NAME, FILE = D('NAME'), D('FILE')
    for label, b, kw, saves in configs(R.thorough):
        s.restore(snap)
        ip.epoch = 'convert'
        m, err = s.call(conv, b(s), **kw)
        if err is not None:
            R.ob('configuration refused', label)
            continue
        fam = place(m)
        snap2 = s.snapshot()
        for so in saves:
            opt = ''.join(' %s=%s' % x for x in sorted(so.items()))
            s.restore(snap2)
            ip.S.pc = ip.S.pc | {FILE}
            ip.epoch = 'save1'
            r1, events, err = do(s, m, so, name=NAME, file=FILE)
            if err is not None:
                R.violate('raise:%s%s' % (fam, opt), 'save always raises %s' % (err,), fam)
                continue
            R.ob('save examined', label + opt, subject=fam)
            if not isinstance(r1, (Str, str)):
                R.violate('return:%s%s' % (fam, opt), 'save does not return its text on every path (it can return %s)' % describe(r1), fam + '.save')
                continue
            final = ip.S.pc
            wr = [e for e in events if e.kind == 'write']
            tofile = [e for e in wr if same(e.path, FILE)]
            R.ob('written text compared', label + opt)
            if not tofile:
                R.violate('write:%s%s' % (fam, opt), 'save(file=...) does not write to the given file', fam + '.save')
            else:
                text = tofile[0].value
                for e in tofile[1:]:
                    text = cat(text, e.value)
                w = '%s:%s in %s' % tofile[0].loc
                if not same(norm(text), norm(r1)):
                    R.violate('text:%s%s' % (fam, opt), 'the file receives a text that differs from the returned one: %s' % diff(text, r1), w)
                for e in tofile:
                    extra = [c for c in e.pc - final if not about_file(c)]
                    if extra:
                        R.violate('maybe:%s%s' % (fam, opt), 'the file is only written when %s' % show(extra[0])[:120], w)
                for e in events:
                    if e.kind == 'open' and same(e.path, FILE):
                        if not (isinstance(e.mode, str) and set(e.mode) & set('wx') and 'b' not in e.mode and 'a' not in e.mode):
                            R.violate('mode:%s%s' % (fam, opt), 'the file is opened with mode %r, so it does not end up holding exactly the text' % (e.mode,), '%s:%s in %s' % e.loc)
            why = varying(r1)
            R.ob('text free of varying values', label + opt)
            if why:
                R.violate('vary:%s%s:%s' % (fam, opt, why), 'the saved text depends on %s' % why, fam + '.save')
            # state carried between saves: another name, then the same again
            ip.epoch = 'save2'
            r2, ev2, err2 = do(s, m, so, name=D('NAME2'))
            for e in ev2:
                if e.kind == 'write' or e.kind == 'open' and not (isinstance(e.mode, str) and not set(e.mode) & set('wax+')):
                    R.violate('extra:%s%s' % (fam, opt), 'save without a file writes %s' % show(e.path), '%s:%s in %s' % e.loc)
            R.ob('other name', label + opt)
            if err2 is not None or not same(norm(r1, {NAME: D('NAME2')}), norm(r2)):
                R.violate('name:%s%s' % (fam, opt), 'saving under another name gives another text than the name accounts for: %s' % (err2 or diff(norm(r1, {NAME: D('NAME2')}), r2)), fam + '.save')
            ip.epoch = 'save3'
            r3, ev3, err3 = do(s, m, so, name=NAME)
            R.ob('save repeated', label + opt)
            if err3 is not None or not same(norm(r1), norm(r3)):
                R.violate('repeat:%s%s' % (fam, opt), 'saving again gives a different text: %s' % (err3 or diff(r1, r3)), fam + '.save')
            # the name taken from the file
            s.restore(snap2)
            ip.S.pc = ip.S.pc | {FILE}
            ip.epoch = 'save4'
            r4, ev4, err4 = do(s, m, so, file=FILE)
            if err4 is None:
                R.ob('name from file', label + opt)
                why = varying(r4) if isinstance(r4, (Str, str)) else None
                if why:
                    R.violate('vary:%s%s:%s' % (fam, opt, why), 'the saved text depends on %s' % why, fam + '.save')
                if not isinstance(r4, (Str, str)):
                    R.violate('return:%s%s' % (fam, opt), 'save does not return its text on every path (it can return %s)' % describe(r4), fam + '.save')
                else:
                    w4 = [e for e in ev4 if e.kind == 'write' and same(e.path, FILE)]
                    if not w4:
                        R.violate('write:%s%s' % (fam, opt), 'save(file=...) without a name does not write to the given file', fam + '.save')
                    else:
                        text = w4[0].value
                        for e in w4[1:]:
                            text = cat(text, e.value)
                        if not same(norm(text), norm(r4)):
                            R.violate('text:%s%s' % (fam, opt), 'the file receives a text that differs from the returned one: %s' % diff(text, r4), '%s:%s in %s' % w4[0].loc)
    R.extra['functions_evaluated'] = len(ip.functions_seen)
    R.floor('save examined', 30)
    R.floor('save repeated', 30)
    return R.finish()


def do(s, m, so, **kw):
    n = len(s.ip.events)
    v, err = s.method(m, 'save', **dict(so, **kw))
    return v, s.ip.events[n:], err


def place(m):
    c = m.meta.get('cls') if isinstance(m, Obj) else None
    return c.qual if isinstance(c, Cls) else str(type(m).__name__)


def describe(v):
    if v is None:
        return 'None'
    if isinstance(v, Choice):
        return ' or '.join(sorted({describe(x) for x in v.vals}))
    return 'text' if isinstance(v, (str, Str)) else repr(v)[:80]


def diff(a, b):
    a, b = norm(a), norm(b)
    pa, pb = (parts_of(x) if isinstance(x, (str, Str)) else [x] for x in (a, b))
    for x, y in zip(pa, pb):
        if not same(x, y):
            return '%s / %s' % (repr(x)[:80], repr(y)[:80])
    return 'one is longer (%s)' % repr((list(pa) + list(pb))[min(len(pa), len(pb)):][:1])[:80]


LOOPS = re.compile('loop')


def norm(v, sub={}):
    """the text with loop numbers removed (two evaluations of the same loop number it differently) and the facts dropped"""
    def t(x):
        if isinstance(x, Sym):
            if x in sub:
                return sub[x]
            if x.op in ('elem', 'setelem') and len(x.args) == 2:
                return Sym(x.op, t(x.args[0]), 0)
            if x.op == 'idx':
                return Sym('idx', 0)
            if x.op in ('loopvar', 'seglen', 'count', 'altlen'):
                return Sym(x.op, 0)
            if x.op == 'obj':
                return x
            return Sym(x.op, *[t(a) for a in x.args])
        if isinstance(x, tuple):
            return tuple(t(a) for a in x)
        if isinstance(x, frozenset):
            return frozenset(t(a) for a in x)
        if isinstance(x, Choice):
            return choice([t(a) for a in x.vals])
        if isinstance(x, Str):
            return mkstr([t(p) if isinstance(p, (Hole, RepS, AltS, OpS)) else p for p in x.parts])
        if isinstance(x, Hole):
            return Hole(t(x.value), x.conv, x.spec)
        if isinstance(x, RepS):
            return RepS(t(x.body), t(x.sep) if not isinstance(x.sep, str) else x.sep, t(x.count), 0)
        if isinstance(x, AltS):
            return AltS([t(a) for a in x.alts])
        if isinstance(x, OpS):
            return OpS(re.sub(r'\d+', '0', x.op), t(x.arg) if not isinstance(x.arg, str) else re.sub(r'\d+', '0', x.arg))
        return x
    return t(v)
