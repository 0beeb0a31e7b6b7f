"""T01: the command line tools generate the table that was asked for"""
import ast, os, re
import cc
from pyscen import *
from pyval import *
from sums import bare
from report import Report, Lost

NAMES = {'name': 'givenname', 'out': 'given_out.h'}


def opt(name):
    return D('opt:' + name)


class Tool:
    """main() of a tool with an argument parser whose options have the values of a scenario"""
    def __init__(self, module, values):
        self.s = s = Session().load('')
        self.options = {}
        m = s.ip.import_module('emlearn.' + module)
        if m is None or s.ip.get(m.frame.id, 'main') is UNDEF:
            raise Lost('no main() in emlearn.%s' % module)

        def add(*a, **k):
            long = [x for x in a if isinstance(x, str) and x.startswith('--')] or [x for x in a if isinstance(x, str)]
            self.options[k.get('dest') or long[0].lstrip('-').replace('-', '_')] = k

        def parsed(*a, **k):
            at = {}
            for d, o in self.options.items():
                v = values.get(d, opt(d))
                t = o.get('type')
                n = getattr(t, 'name', getattr(t, '__name__', ''))
                if isinstance(v, Sym):
                    s.ip.ext.typehint[v] = n if n in ('int', 'float', 'str') else 'bool' if t is not None else 'str'
                at[d] = v
            return s.obj('options', 'Namespace', at)

        group = lambda *a, **k: parser
        parser = s.obj('parser', 'ArgumentParser', methods=dict(add_argument=add, parse_args=parsed, add_argument_group=group, add_mutually_exclusive_group=group))
        lib = s.obj('argparse', 'module', methods=dict(ArgumentParser=lambda *a, **k: parser))
        if s.ip.get(m.frame.id, 'argparse') is not UNDEF:
            s.ip.put(m.frame.id, 'argparse', lib)
        elif s.ip.get(m.frame.id, 'ArgumentParser') is not UNDEF:
            s.ip.put(m.frame.id, 'ArgumentParser', Native(lambda *a, **k: parser))
        else:
            raise Lost('emlearn.%s uses no argparse' % module)
        n = len(s.ip.events)
        _, self.err = s.call(s.attr(module, 'main'))
        self.events = s.ip.events[n:]

    def calls(self, name):
        return [e for e in self.events if e.kind == 'extcall' and e.name == name]


def alternatives(v):
    return [x for w in v.vals for x in alternatives(w)] if isinstance(v, Choice) else [v]


def whole(v):
    """without conversions that keep the value"""
    while isinstance(v, Sym):
        w = bare(v)
        if isinstance(w, Sym) and w.op == 'call' and w.args[0] in ('numpy.float32', 'numpy.float64', 'float', 'numpy.single', 'numpy.double', 'truth', 'bool') and w.args[1]:
            w = w.args[1][0]
        elif isinstance(w, Sym) and w.op == 'truth':
            w = w.args[0]
        if w is v:
            break
        v = w
    return v


def equal(v, want):
    v = whole(v)
    if isinstance(want, Sym) or isinstance(v, Sym):
        return isinstance(v, Sym) and isinstance(want, Sym) and v is want
    return type(v) is type(want) and v == want


def argument(e, names, name):
    if name in e.kw:
        return e.kw[name]
    i = names.index(name)
    return e.args[i] if i < len(e.args) else None


def flat(parts, vals, reps):
    """text with \\0n\\0 for values and \\1n\\1 for repeated parts"""
    out = ''
    for p in parts:
        if isinstance(p, str):
            out += p
        elif isinstance(p, Hole):
            if isinstance(p.value, (str, Str)):
                out += flat(parts_of(p.value), vals, reps)
            elif isinstance(p.value, (int, float)) and not p.spec:
                out += str(p.value)
            else:
                vals.append(p.value)
                out += '\0%d\0' % (len(vals) - 1)
        else:
            reps.append(p)
            out += '\1%d\1' % (len(reps) - 1)
    return out


def inner(p, out):
    """values formatted anywhere in a repeated part"""
    if isinstance(p, Hole):
        if isinstance(p.value, (str, Str)):
            inner(p.value, out)
        else:
            out.append(p.value)
    elif isinstance(p, Str):
        for x in parts_of(p):
            inner(x, out)
    elif isinstance(p, (list, tuple)):
        for x in p:
            inner(x, out)
    elif hasattr(p, '__slots__') or hasattr(p, '__dict__'):
        for k in list(getattr(p, '__slots__', ())) + list(getattr(p, '__dict__', {})):
            v = getattr(p, k)
            if isinstance(v, (Hole, Str, RepS, AltS, list, tuple)):
                inner(v, out)
    return out


def given(R, tool, what, want, got, where):
    R.ob('option reaches its parameter', '%s: %s' % (tool, what), subject=where)
    vs = alternatives(got)
    if not all(any(equal(v, w) for w in want) for v in vs):
        R.violate('%s:%s' % (tool, what), '%s is %s, expected %s' % (what, show(got, 5)[:120], ' or '.join(show(w, 4) for w in want)), where)


def output(R, tool, t, sc, where):
    """what is written where, and the declarations in it"""
    opens = [e for e in t.events if e.kind == 'open']
    writes = [e for e in t.events if e.kind == 'write']
    R.ob('output file', '%s %s' % (tool, sc), subject=where)
    if not writes:
        R.violate(tool + ':write', 'nothing is written', where)
        return None
    for e in opens:
        paths = [flat(parts_of(p), [], []) if isinstance(p, (str, Str)) else p for p in alternatives(e.path)]
        want = sc.get('out') or (sc['name'] + '.h' if sc.get('name') else None)
        if want is not None and paths != [want]:
            R.violate(tool + ':path', 'the output goes to %s instead of %s' % (show(e.path, 4), want), '%s:%s' % e.loc[:2])
        if not (isinstance(e.mode, str) and 'w' in e.mode and 'b' not in e.mode):
            R.violate(tool + ':mode', 'the output file is opened with mode %r' % (e.mode,), '%s:%s' % e.loc[:2])
    wraps = t.calls('textwrap.wrap') + t.calls('textwrap.fill')
    texts = []
    for e in wraps:
        R.ob('wrapping of C text', tool, subject='%s:%s' % e.loc[:2])
        at = '%s:%s' % e.loc[:2]
        if 'max_lines' in e.kw:
            R.violate(tool + ':lines', 'the text is cut off after a number of lines', at)
        for k in ('break_long_words', 'break_on_hyphens'):
            if e.kw.get(k) is not False:
                R.violate(tool + ':' + k, 'lines of C text are broken inside of a number or a name (%s)' % k, at)
        w = e.args[1] if len(e.args) > 1 else e.kw.get('width')
        given(R, tool, 'width of lines', [opt('linewrap')], w, at)
        tx = e.args[0] if e.args else e.kw.get('text')
        if isinstance(tx, (str, Str)):
            vals, reps = [], []
            f = flat(parts_of(tx), vals, reps)
            R.ob('no comment or directive in wrapped text', tool)
            if '//' in f or '#' in f:
                R.violate(tool + ':comment', 'a comment or preprocessor line is wrapped over several lines', at)
            texts.append((f, vals, reps))
    if not texts:
        for e in writes:
            if isinstance(e.value, (str, Str)):
                vals, reps = [], []
                texts.append((flat(parts_of(e.value), vals, reps), vals, reps))
    else:
        for tx in wraps:
            if not any(x.op == 'call' and x.args[0] == tx.name for e in writes if isinstance(e.value, Str) for h in inner(e.value, []) + [0] if isinstance(h, Sym) for x in subterms(h)):
                R.ob('written text in another form', tool)
    return texts


DECL = re.compile(r'static const (\S+) (givenname\w*)(\[([^\]]*)\])? = (\{[^}]*\}|[^;]*);')


def declarations(texts):
    out = {}
    for f, vals, reps in texts or ():
        for m in DECL.finditer(f):
            ref = lambda x: [vals[int(i)] for i in re.findall('\0(\\d+)\0', x or '')]
            out[m.group(2)] = (ref(m.group(4)), ref(m.group(5)), [reps[int(i)] for i in re.findall('\1(\\d+)\1', m.group(5))], m.group(5).strip())
    return out


def constants(R, tool, decl, want, where):
    for suffix, w in want.items():
        n = 'givenname' + suffix
        R.ob('generated constant', '%s: %s' % (tool, suffix), subject=where)
        if n not in decl:
            R.violate('%s:%s' % (tool, suffix), 'the constant NAME%s is not generated' % suffix, where)
            continue
        size, vals, reps, txt = decl[n]
        if w is None:
            continue
        got = [x for v in vals for x in alternatives(v)] + [x for r in reps for x in inner(r, [])]
        if not got or not all(any(equal(x, y) for y in w) for x in got):
            R.violate('%s:%s' % (tool, suffix), 'the constant NAME%s is %s, expected %s' % (suffix, [show(x, 4) for x in got][:3] or txt[:40], ' or '.join(show(y, 4) for y in w)), where)


def window(R):
    where = 'tools.window_function'
    for sym in (False, True):
        for name, out in (('givenname', ''), ('givenname', 'given_out.h'), ('', 'given_out.h')):
            sc = {'symmetric': sym, 'name': name, 'out': out}
            t = Tool('tools.window_function', sc)
            if t.err is not None:
                R.violate('window:raise', 'always raises %r' % (t.err,), where)
                continue
            used(R, 'window', t, where)
            calls = t.calls('scipy.signal.get_window') + t.calls('scipy.signal.windows.get_window')
            R.ob('window computed by scipy' if calls else 'window computed in another form', str(sc), subject=where)
            P = ['window', 'Nx', 'fftbins']
            for e in calls:
                at = '%s:%s' % e.loc[:2]
                given(R, 'window', 'kind of window', [opt('window')], argument(e, P, 'window'), at)
                given(R, 'window', 'length of the window', [opt('length')], argument(e, P, 'Nx'), at)
                fb = argument(e, P, 'fftbins')
                given(R, 'window', 'periodic with symmetric=%s' % sym, [not sym] + ([None] if not sym and 'fftbins' not in e.kw and len(e.args) < 3 else []), fb, at)
            texts = output(R, 'window', t, sc, where)
            if not name or texts is None:
                continue
            d = declarations(texts)
            constants(R, 'window', d, {'_length': [opt('length')] + [x for e in calls for x in [Sym('dim', res(t, e), 0)]], '': None}, where)
            if '' in d or 'givenname' in d:
                size, vals, reps, txt = d['givenname']
                els = [v for r in reps for v in inner(r, [])]
                R.ob('values of the window', str(sc), subject=where)
                for v in els:
                    for x in alternatives(v):
                        x = whole(x)
                        if calls and isinstance(x, Sym) and x.op == 'elem' and isinstance(whole(x.args[0]), Sym) and whole(x.args[0]).op == 'call' and whole(x.args[0]).args[0].endswith('get_window'):
                            continue
                        if calls and isinstance(x, Sym) and x.op in ('bin', 'un', 'item', 'view', 'elem') and any(y.op == 'call' and y.args[0].endswith('get_window') for y in subterms(x)) and plainidx(x):
                            R.violate('window:values', 'the values of the table are %s, not those of the window' % show(x, 5)[:120], where)


def plainidx(x):
    """a value changed by arithmetic or a selection of a part, not only read one after the other"""
    for y in subterms(x):
        if y.op == 'slice':
            return True
        if y.op in ('bin', 'un') and any(z.op == 'call' and z.args[0].endswith('get_window') for z in subterms(y)):
            return True
    return False


def res(t, e):
    for r in t.events:
        if r.kind == 'extresult' and r.name == e.name and r.loc == e.loc:
            return r.result
    return None


def used(R, tool, t, where):
    """no option is ignored"""
    for d, k in t.options.items():
        R.ob('option declared', '%s --%s' % (tool, d), subject=where)
        ty = k.get('type')
        n = getattr(ty, 'name', getattr(ty, '__name__', ''))
        if n == 'bool':
            R.violate('%s:bool:%s' % (tool, d), 'the option --%s takes any text as true: it cannot be switched off (type=bool)' % d, where)
        elif isinstance(ty, (Func, Bound)) and isinstance(k.get('default'), bool):
            for text, want in (('True', True), ('true', True), ('yes', True), ('1', True), ('False', False), ('false', False), ('no', False), ('0', False)):
                R.ob('text of a yes/no option', '--%s %s' % (d, text), subject=where)
                v, err = t.s.call(ty, text)
                if err is None and v is (not want):
                    R.violate('%s:bool:%s' % (tool, d), '--%s %s is understood as %s' % (d, text, v), where)
        if k.get('action') == 'store_true' and k.get('default') is True or k.get('action') == 'store_false' and k.get('default') is False:
            R.violate('%s:flag:%s' % (tool, d), 'the option --%s has no effect' % d, where)
    seen = set()
    for e in t.events:
        if e.kind in ('extcall', 'open', 'write'):
            for x in list(getattr(e, 'args', ())) + list(getattr(e, 'kw', {}).values()) + [getattr(e, 'path', None), getattr(e, 'value', None)]:
                for h in ([x] if isinstance(x, Sym) else inner(x, []) if isinstance(x, Str) else alternatives(x) if isinstance(x, Choice) else []):
                    if isinstance(h, Sym):
                        seen |= {y for y in subterms(h) if y.op == 'in'}
        for c in e.pc:
            if isinstance(c, Sym):
                seen |= {y for y in subterms(c) if y.op == 'in'}
    for d in t.options:
        v = opt(d)
        if t.s.ip.ext.typehint.get(v) is not None:
            R.ob('option used', '%s --%s' % (tool, d), subject=where)
            if v not in seen:
                R.violate('%s:unused:%s' % (tool, d), 'the option --%s has no effect' % d, where)


def mel(R):
    where = 'tools.mel_filterbank'
    for norm in (True, False):
        for fmax in (None, opt('fmax')):
            for name, out in (('givenname', ''), ('givenname', 'given_out.h'), ('', 'given_out.h')):
                sc = {'normalize': norm, 'fmax': fmax, 'name': name, 'out': out}
                t = Tool('tools.mel_filterbank', sc)
                if t.err is not None:
                    R.violate('mel:raise', 'always raises %r' % (t.err,), where)
                    continue
                t.s.ip.ext.typehint.setdefault(opt('fmax'), 'int')
                if fmax is not None:
                    used(R, 'mel', t, where)
                top = [Sym('bin', '/', opt('samplerate'), 2), Sym('bin', '*', opt('samplerate'), 0.5), Sym('bin', '/', opt('samplerate'), 2.0)]
                upper = [fmax] if fmax is not None else [None] + top
                calls = t.calls('librosa.filters.mel')
                R.ob('filters computed by librosa' if calls else 'filters computed in another form', where, subject=where)
                for e in calls:
                    at = '%s:%s' % e.loc[:2]
                    for k, w in (('sr', [opt('samplerate')]), ('n_fft', [opt('fft')]), ('n_mels', [opt('bands')]), ('fmin', [opt('fmin')]), ('htk', [opt('htk')]), ('fmax', upper),
                                 ('norm', ['slaney'] if norm else [None])):
                        if k == 'norm' and k not in e.kw:
                            R.violate('mel:norm', 'filters are always normalized', at)
                            continue
                        given(R, 'mel', 'parameter %s of the filters' % k, w, e.kw.get(k), at)
                for e in t.calls('librosa.filters.mel_frequencies') + t.calls('librosa.mel_frequencies'):
                    at = '%s:%s' % e.loc[:2]
                    for k, w in (('n_mels', [opt('bands')]), ('fmin', [opt('fmin')]), ('htk', [opt('htk')]), ('fmax', upper[-3:] if fmax is None else upper)):
                        given(R, 'mel', 'parameter %s of the frequencies' % k, w, e.kw.get(k), at)
                texts = output(R, 'mel', t, sc, where)
                if not name or texts is None:
                    continue
                d = declarations(texts)
                constants(R, 'mel', d, {'_nfft': [opt('fft')], '_samplerate': [opt('samplerate')], '_fmin': [opt('fmin')], '_fmax': upper[-3:] if fmax is None else upper,
                                        '_bands': None, '_starts': None, '_ends': None, '_length': None, '_lut': None, '_frequencies': None}, where)


def scripts(R):
    """the commands that are installed exist"""
    p = os.path.join(cc.REPO, 'setup.py')
    if not os.path.exists(p):
        return
    for n in ast.walk(ast.parse(open(p).read())):
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant) and k.value == 'console_scripts' and isinstance(v, ast.List):
                    for c in v.elts:
                        m = re.fullmatch(r'\s*([\w-]+)\s*=\s*([\w.]+):(\w+)\s*', c.value if isinstance(c, ast.Constant) else '')
                        if not m:
                            continue
                        R.ob('installed command', m.group(1), subject='setup.py')
                        f = os.path.join(cc.REPO, *m.group(2).split('.')) + '.py'
                        s = Session()
                        mod = s.ip.import_module(m.group(2)) if os.path.exists(f) else None
                        if mod is None or s.ip.get(mod.frame.id, m.group(3)) is UNDEF:
                            R.violate('script:' + m.group(1), 'the command %s has no function %s:%s' % m.groups(), 'setup.py')


def run():
    R = Report('T01', 'Command line tools.  main() of each tool is evaluated by an abstract interpreter with an argument parser whose options are unknown values (and each combination of the '
               'options that select a form).  Obligations: every option reaches the parameter it stands for, of the function that computes the table, and the constants of the text; '
               'no option is ignored; yes/no options can be given as no; the output goes to the file asked for, or to NAME.h; lines are only broken between tokens.',
               ['scipy.signal.get_window, librosa.filters.mel and textwrap.wrap do what they document'])
    window(R)
    mel(R)
    scripts(R)
    R.floor('option reaches its parameter', 40)
    R.floor('generated constant', 30)
    return R.finish()
