"""P04: every path used to build, run or remove a model's files lies in a place created for that model alone."""
import pyscen
from pyscen import *
from pyval import *
from report import Report, Lost

SAMEPATH = {'os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'str', 'pathlib.Path', 'os.fspath', 'pathlib.PurePath', 'os.path.expanduser', 'shlex.quote', 'repr'}
REMOVE = {'shutil.rmtree': 0, 'os.remove': 0, 'os.unlink': 0, 'os.rmdir': 0, 'os.removedirs': 0, 'os.truncate': 0}
INTO = {'os.rename': 1, 'os.replace': 1, 'shutil.copy': 1, 'shutil.copyfile': 1, 'shutil.copy2': 1, 'shutil.move': 1, 'shutil.copytree': 1, 'os.link': 1, 'os.symlink': 1}
RUN = {'subprocess.check_output', 'subprocess.run', 'subprocess.Popen', 'subprocess.check_call', 'subprocess.call', 'subprocess.getoutput', 'os.system', 'os.popen'}


def roots(t):
    """the values unique to one call that the path contains in a way that makes it different from every other path; None: there is none"""
    if isinstance(t, Choice):
        out = set()
        for x in t.vals:
            r = roots(x)
            if not r:
                return None
            out |= r
        return out
    if isinstance(t, Str):
        out = set()
        for p in t.parts:
            if isinstance(p, Hole):
                out |= roots(p.value) or set()
        return out or None
    if not isinstance(t, Sym):
        return None
    if t.op == 'unique':
        return {t}
    if t.op == 'call':
        n, a = t.args[0], t.args[1]
        kw = dict(t.args[2]) if len(t.args) > 2 else {}
        if n == 'os.path.join':
            out = set()
            for x in a:
                out |= roots(x) or set()
            return out or None
        if n in SAMEPATH and a:
            return roots(a[0])
        if n == 'os.path.dirname' and a:
            return dirname(a[0])
        return None
    if t.op == 'meth':
        kw = dict(t.args[3]) if len(t.args) > 3 else {}
        if t.args[1] in ('executable_filename', 'object_filenames'):
            return roots(kw.get('output_dir'))
        if t.args[1] in ('joinpath',):
            out = roots(t.args[0]) or set()
            for x in t.args[2]:
                out |= roots(x) or set()
            return out or None
        if t.args[1] in ('resolve', 'absolute', '__enter__', 'hex', 'as_posix', '__str__', 'with_suffix'):
            return roots(t.args[0])
        return None
    if t.op == 'bin' and t.args[0] in ('/', '+', '%'):
        out = (roots(t.args[1]) or set()) | (roots(t.args[2]) or set())
        return out or None
    if t.op == 'attr':
        if t.args[1] == 'parent':
            return dirname(t.args[0])
        return roots(t.args[0]) if t.args[1] in ('name', 'hex', 'int') else None
    if t.op == 'item':
        return roots(t.args[0])
    return None


def dirname(t):
    if isinstance(t, Sym) and t.op == 'call' and t.args[0] == 'os.path.join' and len(t.args[1]) > 1:
        out = set()
        for x in t.args[1][:-1]:
            out |= roots(x) or set()
        return out or None
    if isinstance(t, Sym) and t.op == 'bin' and t.args[0] == '/':
        return roots(t.args[1])
    if isinstance(t, Sym) and t.op == 'call' and t.args[0] in SAMEPATH and t.args[1]:
        return dirname(t.args[1][0])
    if isinstance(t, Str):
        last = max([i for i, p in enumerate(t.parts) if isinstance(p, str) and '/' in p], default=-1)
        return roots(mkstr(t.parts[:last])) if last > 0 else None
    return None


def listof(ip, v):
    """elements of a list value (None when unknown)"""
    if isinstance(v, Obj) and v.kind == 'list':
        out = []
        for sg in ip.segs(v):
            if sg[0] == 'item':
                out.append(sg[1])
        return out
    if isinstance(v, Sym) and v.op == 'list':
        return list(v.args)
    if isinstance(v, tuple):
        return list(v)
    return None


def paths(ip, e):
    """[(role, path value)] of an event"""
    if e.kind == 'open':
        if isinstance(e.mode, str) and not set(e.mode) & set('wax+'):
            return []
        return [('file written', e.path)]
    if e.kind == 'methcall' and e.name in ('compile', 'link', 'link_executable', 'link_shared_object', 'create_static_lib'):
        t = ip.freeze(e.target)
        if 'compiler' not in show(t).lower():
            return []
        out = []
        od = e.kw.get('output_dir')
        if e.name == 'compile':
            src = e.args[0] if e.args else e.kw.get('sources')
            for x in listof(ip, src) or [src]:
                out.append(('source compiled', x))
            # objects are placed below output_dir under the full path of their source
        else:
            fn = e.kw.get('output_filename', e.kw.get('output_progname'))
            k = 2 if e.name == 'link' else 1
            if fn is None and len(e.args) > k:
                fn = e.args[k]
            if od is None and len(e.args) > k + 1:
                od = e.args[k + 1]
            if od is not None:
                fn = Sym('call', 'os.path.join', (ip.freeze(od), ip.freeze(fn)), ())
            out.append(('executable linked', fn))
        return out
    if e.kind != 'extcall':
        return []
    n, a, kw = e.name, list(e.args), e.kw
    if n in ('atexit.register', 'weakref.finalize'):
        if n == 'weakref.finalize':
            a = a[1:]
        if a and isinstance(a[0], External):
            n, a = a[0].name, a[1:]
        else:
            return []
    if n in REMOVE and (a or 'path' in kw):
        return [('path removed', a[0] if a else kw['path'])]
    if n in INTO and len(a) > 1:
        return [('file written', a[1])]
    if n in RUN:
        c = a[0] if a else kw.get('args')
        l = listof(ip, c)
        if l is None:
            return [('program run', c)]
        if l and isinstance(l[0], str):
            # a fixed program such as a compiler: what it writes
            return [('file written', l[i + 1]) for i in range(len(l) - 1) if l[i] in ('-o', '/Fe', '-out')]
        return [('program run', l[0])] if l else []
    return []


def run():
    R = Report('P04', 'Build locations.  Converting and predicting is evaluated twice per family and method by an abstract interpreter, as two models in one process.  Every path that is written, compiled, linked, run or removed '
               'must contain a value that a call creating unique names (mkdtemp, TemporaryDirectory, ...) returned during the operations on that same model, on every path through the code; '
               'the executables of one model have different paths.',
               ['tempfile and uuid return names that no other call returns'])
    s = Session().load('', *FAMILIES)
    ip = s.ip
    snap = s.snapshot()
    conv = s.attr('convert', 'convert')
    done = set()
    for label, b, kw, saves in configs(R.thorough):
        key = ' '.join(label.split()[:2])
        if key in done and not R.thorough:
            continue
        done.add(key)
        s.restore(snap)
        ms = []
        for who in 'AB':
            n = len(ip.events)
            ip.epoch = who + '0'
            m, err = s.call(conv, b(s), **kw)
            if err is not None:
                break
            judge(R, s, ip.events[n:], who, '%s: convert' % label)
            ms.append(m)
        if len(ms) < 2:
            continue
        from chk_p02 import methods_of
        for meth in methods_of(s, ms[0]):
            if meth == 'save':
                continue
            for who, m, step in (('A', ms[0], '1'), ('B', ms[1], '1'), ('A', ms[0], '2')):
                n = len(ip.events)
                ip.epoch = who + step
                s.method(m, meth, X(s))
                judge(R, s, ip.events[n:], who, '%s: %s' % (label, meth))
    # a directory given by the user may hold several models
    s.restore(snap)
    CC = s.attr('common', 'CompiledClassifier')
    for who in 'AB':
        n = len(ip.events)
        ip.epoch = who + '0'
        for extra in ({}, {'proba_call': 'p()', 'n_classes': 3}):
            m, err = s.call(CC, 'CODE', 'model', call='f()', temp_dir=D('DIR'), **extra)
            if err is not None:
                raise Lost('CompiledClassifier with temp_dir: %s' % (err,))
            judge(R, s, ip.events[n:], who, 'CompiledClassifier in a given directory')
            n = len(ip.events)
    R.extra['functions_evaluated'] = len(ip.functions_seen)
    R.floor('file written', 20)
    R.floor('executable linked', 10)
    R.floor('program run', 20)
    return R.finish()


def judge(R, s, events, who, label):
    ip = s.ip
    linked = {}
    for e in events:
        for role, p in paths(ip, e):
            p = ip.freeze(p) if not isinstance(p, Choice) else p
            R.ob(role, '%s %s' % (label, show(p)[:60] if isinstance(p, Sym) else str(p)[:60]), subject='%s:%s' % (e.loc[0], e.loc[2]))
            r = roots(p)
            w = '%s:%s in %s' % e.loc
            txt = show(p)[:110] if isinstance(p, Sym) else str(p)[:110]
            if not r:
                R.violate('shared:%s:%s:%s' % (role, e.loc[0], e.loc[2]), '%s (%s) is not in a place of its own: %s' % (role, label, txt), w)
                continue
            foreign = [u for u in r if not str(u.args[2]).startswith(who)]
            if len(foreign) == len(r):
                R.violate('foreign:%s:%s:%s' % (role, e.loc[0], e.loc[2]),
                          '%s (%s) lies in a place created %s: %s' % (role, label, 'when the module was imported' if foreign[0].args[2] == 'import' else 'for another model', txt), w)
            if role == 'executable linked':
                k = p
                if k in linked:
                    R.violate('twice:%s' % e.loc[2], 'two executables of one model are linked to the same path (%s): %s' % (label, txt), w)
                linked[k] = e
