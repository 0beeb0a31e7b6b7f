"""I01: an installed library is complete, and installing touches nothing else"""
import ast, fnmatch, os, re
import cc
from pyscen import *
from pyval import *
from sums import bare
from chk_t01 import Tool, opt, flat, alternatives, inner
from report import Report, Lost

INC, LIB = D('INC'), D('LIB')
MODULE = 'arduino.install'
# name -> (index of the destination, index of the source or None)
WRITES = {'os.mkdir': (0, None), 'os.makedirs': (0, None), 'shutil.copy': (1, 0), 'shutil.copy2': (1, 0), 'shutil.copyfile': (1, 0), 'shutil.copytree': (1, 0), 'os.symlink': (1, 0),
          'os.link': (1, 0), 'shutil.copymode': (1, 0), 'shutil.copystat': (1, 0)}
REMOVES = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'shutil.rmtree', 'shutil.move', 'os.rename', 'os.renames', 'os.replace', 'os.truncate'}
EXISTS = ('os.path.exists', 'os.path.isdir', 'os.path.lexists', 'os.path.isfile', 'os.listdir', 'os.path.getmtime', 'os.path.getsize', 'os.stat', 'filecmp.cmp')


def pieces(t):
    """a path as the parts that are joined"""
    t = bare(t)
    if isinstance(t, Str):
        out = ['']
        for p in parts_of(t):
            if isinstance(p, str):
                segs = p.split('/')
                if segs[0] and out[-1] == '':
                    out[-1] = segs[0]
                elif segs[0]:
                    out[-1] = (out[-1], segs[0])
                out += segs[1:]
            else:
                v = p.value if isinstance(p, Hole) else p
                x = pieces(v)
                if out[-1] == '':
                    out[-1:] = x
                else:
                    out[-1] = (out[-1],) + tuple(x)
        return [x for x in out if x != '']
    if isinstance(t, str):
        return [x for x in t.split('/') if x]
    if isinstance(t, Sym) and t.op == 'call' and t.args[0] == 'os.path.join':
        return [x for a in t.args[1] for x in pieces(a)]
    if isinstance(t, Sym) and t.op == 'call' and t.args[0] in ('os.path.normpath', 'os.path.abspath', 'os.path.realpath', 'os.path.expanduser', 'os.fspath', 'str', 'pathlib.Path', 'pathlib.PurePath') and t.args[1]:
        return [x for a in t.args[1] for x in pieces(a)]
    if isinstance(t, Sym) and t.op == 'bin' and t.args[0] == '/':
        return pieces(t.args[1]) + pieces(t.args[2])
    if isinstance(t, Sym) and t.op == 'meth' and t.args[1] == 'joinpath':
        return pieces(t.args[0]) + [x for a in t.args[2] for x in pieces(a)]
    return [t]


def under(p, lib):
    """'dir' for the library folder itself, 'in' for a path below LIB/emlearn"""
    q = pieces(p)
    if q == [lib]:
        return 'top'
    if len(q) >= 2 and q[0] is lib and q[1] == 'emlearn' and '..' not in q[2:]:
        return 'dir' if len(q) == 2 else 'in'
    return None


def mention(c, name):
    return isinstance(c, Sym) and any(x.op == 'call' and x.args[0] in name or x.op == 'meth' and x.args[1] in ('exists', 'is_dir', 'is_file', 'stat') for x in subterms(c))


def guards(c, lib):
    """does the condition say whether LIB/emlearn is there?"""
    for x in subterms(c):
        if x.op == 'call' and x.args[0] in ('os.path.exists', 'os.path.isdir', 'os.path.lexists', 'os.listdir', 'os.stat', 'os.path.getmtime', 'os.access', 'os.scandir', 'os.path.isfile') and x.args[1]:
            u = under(x.args[1][0], lib)
            if u == 'in' or u == 'dir' and x.args[0] != 'os.path.isfile' or u == 'top' and x.args[0] in ('os.listdir', 'os.scandir'):
                return True
            if u is None and not any(lib is y for y in subterms(x)):
                continue
            if u is None:
                return True
        if x.op == 'meth' and x.args[1] in ('exists', 'is_dir', 'stat', 'iterdir'):
            return True
    return False


def basename_of(x, srcs):
    """x: the last part of a destination"""
    x = bare(x)
    if isinstance(x, Sym) and x.op == 'call' and x.args[0] in ('os.path.basename', 'os.path.relpath') and x.args[1]:
        return any(bare(x.args[1][0]) == bare(s) for s in srcs)
    if isinstance(x, Sym) and x.op == 'attr' and x.args[1] == 'name':
        return True
    if isinstance(x, Sym) and x.op == 'elem':
        return any(any(y == x for y in subterms(s)) for s in srcs if isinstance(s, Sym))
    if isinstance(x, str):
        return any((pieces(s) or [None])[-1] == x for s in srcs)
    return None


def matches(pat, files):
    return [f for f in files if fnmatch.fnmatchcase(f, pat)]


def source(t, inc, files):
    """the files of the include folder this names, None when the form is not known"""
    t = bare(t)
    while isinstance(t, Str) and len(parts_of(t)) == 1 and not isinstance(parts_of(t)[0], str):
        x = parts_of(t)[0]
        t = bare(x.value if isinstance(x, Hole) else x)
    if isinstance(t, Sym) and t.op == 'elem':
        b = bare(t.args[0])
        if isinstance(b, Sym) and b.op == 'call' and b.args[0] in ('sorted', 'list', 'set', 'reversed') and b.args[1]:
            b = bare(b.args[1][0])
        if isinstance(b, Sym) and b.op == 'call' and b.args[0] in ('glob.glob', 'glob.iglob') and b.args[1]:
            q = pieces(b.args[1][0])
            root = dict(b.args[2]).get('root_dir')
            if root is not None:
                q = pieces(root) + q
            if q and q[0] is inc and len(q) == 2 and isinstance(q[1], str):
                return matches(q[1], files)
        if isinstance(b, Sym) and b.op == 'meth' and b.args[1] == 'glob' and pieces(b.args[0]) == [inc] and isinstance(b.args[2][0], str):
            return matches(b.args[2][0], files)
        if isinstance(b, Sym) and b.op == 'call' and b.args[0] in ('os.listdir', 'os.scandir') and pieces(b.args[1][0]) == [inc]:
            return list(files)
        return None
    q = pieces(t)
    if q and q[0] is inc and len(q) == 2:
        if isinstance(q[1], str):
            return [q[1]] if q[1] in files else []
        return source(q[1], inc, files)
    return None


def closure(R, have):
    """headers needed by installed headers and by generated code"""
    need = {}
    d = os.path.join(cc.REPO, 'emlearn')
    for h in sorted(have):
        if h.endswith('.h'):
            for m in re.finditer(r'^[ \t]*#[ \t]*include[ \t]*[<"](eml\w*\.h)[ \t]*[>"]', open(os.path.join(d, h), errors='replace').read(), re.M):
                need.setdefault(m.group(1), 'emlearn/' + h)
    for root, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(('.py', '.jinja')) and '__pycache__' not in root:
                for m in re.finditer(r'#[ \t]*include[ \t]*[<\\"\']+(eml\w*\.h)', open(os.path.join(root, f), errors='replace').read()):
                    need.setdefault(m.group(1), os.path.relpath(os.path.join(root, f), cc.REPO))
    return need


def public(files):
    return [f for f in files if re.fullmatch(r'eml_\w+\.h', f)]


def installed(R, events, lib, inc, update, files, what, main=False):
    got, unknown = set(), False
    raises = [e for e in events if e.kind == 'raise']
    refusal = [e for e in raises if any(guards(c, lib) for c in e.pc)]
    copied = None
    for e in events:
        at = '%s:%s' % e.loc[:2]
        if e.kind == 'break' and copied == e.loc[0] and not e.pc:
            R.violate('first', '%s: the loop that copies is left after one file' % what, at)
        if e.kind in ('extcall', 'methcall') and (e.name in REMOVES or e.kind == 'methcall' and e.name in ('unlink', 'rmdir', 'rename', 'replace') and isinstance(e.target, Sym) and e.target.op != 'attr' and len(e.args) < 2 and any(x in (lib, inc) for x in subterms(e.target))):
            R.ob('removal', at)
            R.violate('remove', '%s: installing removes or moves files with %s' % (what, e.name), at)
            continue
        dst = src = None
        if e.kind == 'extcall' and e.name in WRITES:
            i, j = WRITES[e.name]
            names = ('src', 'dst') if j is not None else ('path', 'path')
            dst = e.args[i] if i < len(e.args) else e.kw.get('dst') if j is not None else e.kw.get('path', e.kw.get('name'))
            src = None if j is None else e.args[j] if j < len(e.args) else e.kw.get('src')
        elif e.kind == 'methcall' and e.name == 'mkdir':
            dst = e.target
        elif e.kind in ('write',):
            dst = e.path
        else:
            continue
        if dst is None:
            continue
        for d in alternatives(dst):
            R.ob('path written', '%s %s' % (what, at), subject=at)
            u = under(d, lib)
            mk = e.name in ('os.mkdir', 'os.makedirs', 'mkdir') if e.kind != 'write' else False
            if u is None or u == 'top' and not mk:
                R.violate('outside:%s' % (e.kind if e.kind == 'write' else e.name), '%s: %s is written, which is not in the emlearn folder of the given library directory' % (what, show(d, 5)[:120]), at)
            if e.kind != 'write' and e.name in ('os.symlink', 'os.link'):
                R.violate('link', 'the library is linked, not copied', at)
            if u == 'in' and not mk and src is not None:
                q = pieces(d)
                srcs = alternatives(src)
                R.ob('name kept', at)
                tree = e.name == 'shutil.copytree'
                if len(q) != 3 and not (tree and len(q) == 2) or len(q) == 3 and basename_of(q[2], srcs) is None and not tree:
                    R.violate('name', '%s: %s is copied to %s, not to a file of the same name in the folder of the library' % (what, show(srcs[0], 4)[:90], show(d, 4)[:90]), at)
                elif len(q) == 3 and basename_of(q[2], srcs) is False:
                    R.violate('name', '%s: %s is copied as %s' % (what, show(srcs[0], 4)[:90], show(q[2], 4)[:60]), at)
        conds = [c for c in e.pc if mention(c, EXISTS) and any(x is lib or x == lib for x in subterms(c))]
        there = [c for c in conds if guards(c, lib)]
        if not mk:
            R.ob('installation guarded', '%s %s' % (what, at), subject=at)
            if update is False and not there:
                R.violate('guard', '%s: files are written without a check that nothing is installed yet' % what, at)
            if update is True:
                for c in conds:
                    R.violate('update', '%s: with update files are only written when %s' % (what, show(c, 5)[:120]), at)
        if src is not None:
            copied = e.loc[0]
            each = [c for c in e.pc if isinstance(c, Sym) and c not in conds and any(x.op == 'elem' for x in subterms(c))]
            for s_ in alternatives(src):
                fs = source(s_, inc, files)
                if fs is None and e.name == 'shutil.copytree' and pieces(s_) == [inc]:
                    fs = list(files)
                if fs is None or each:
                    unknown = True
                    R.ob('source in another form', at)
                    if isinstance(s_, Sym) and not any(x is inc for x in subterms(s_)) and not any(x.op in ('call', 'meth') and x.args[0 if x.op == 'call' else 1] not in ('os.path.join', 'str', 'glob.glob', 'os.path.dirname', 'os.path.abspath') for x in subterms(s_)):
                        R.violate('source', '%s: %s is copied, which is not from the include directory' % (what, show(s_, 5)[:100]), at)
                else:
                    R.ob('files copied', '%s: %d' % (at, len(fs)), subject=at)
                    got |= set(fs)
    if update is False and not refusal:
        R.violate('refuse', '%s: an existing installation is not refused' % what, MODULE)
    if update is True and any(any(mention(c, EXISTS) and any(x is lib for x in subterms(c)) for c in e.pc) for e in raises):
        if not main:
            R.violate('refuse update', 'an existing installation is refused although update is given', MODULE)
    R.ob('set of files', what, n=1)
    if unknown:
        return
    need = closure(R, got)
    for f in public(files):
        R.ob('header installed', f, subject=f)
        if f not in got:
            R.violate('missing:' + f, 'the header %s is not installed' % f, MODULE)
    for h, by in need.items():
        R.ob('include resolved', '%s in %s' % (h, by), subject=h)
        if h not in got and h in files or h not in files:
            R.violate('include:' + h, '%s includes %s, which is not installed' % (by, h), by)


def package(R):
    """every file of the package that is not Python is part of a source or binary distribution"""
    p, m = os.path.join(cc.REPO, 'setup.py'), os.path.join(cc.REPO, 'MANIFEST.in')
    if not os.path.exists(p) or not os.path.exists(m):
        return
    pats = []
    for l in open(m):
        w = l.split()
        if w and w[0] == 'include':
            pats += w[1:]
        elif w and w[0] in ('recursive-include', 'graft'):
            pats += ['%s/*%s' % (w[1], '') if w[0] == 'graft' else '%s/**%s' % (w[1], x) for x in (w[2:] or [''])]
    pkgs = None
    data = []
    for n in ast.walk(ast.parse(open(p).read())):
        if isinstance(n, ast.keyword) and n.arg == 'packages':
            if isinstance(n.value, ast.List):
                pkgs = {x.value for x in n.value.elts if isinstance(x, ast.Constant)}
        if isinstance(n, ast.keyword) and n.arg == 'package_data' and isinstance(n.value, ast.Dict):
            for k, v in zip(n.value.keys, n.value.values):
                data += [x.value for x in getattr(v, 'elts', ()) if isinstance(x, ast.Constant)]
    ok = lambda f: any(fnmatch.fnmatchcase(f, x.replace('**', '*')) and (f.count('/') == x.count('/') or '**' in x or x.endswith('/*') and x.count('/') == 1) for x in pats)
    top = os.path.join(cc.REPO, 'emlearn')
    for root, ds, fs in os.walk(top):
        ds[:] = [d for d in ds if d not in ('__pycache__',)]
        rel = os.path.relpath(root, cc.REPO)
        pk = rel.replace(os.sep, '.')
        for f in fs:
            if f.endswith(('.pyc', '.so', '.o', '~', '.swp', '.orig', '.rej')) or f.startswith('.'):
                continue
            if f.endswith('.py'):
                continue
            r = os.path.join(rel, f)
            R.ob('file of the package', r)
            if not ok(r) and not (pkgs is not None and pk in pkgs and any(fnmatch.fnmatchcase(f, x) for x in data)):
                if re.fullmatch(r'.*\.(h|jinja)|Makefile|VERSION\.txt', f):
                    R.violate('package:' + r, '%s is not part of the installed package' % r, 'MANIFEST.in')
    # modules imported by modules
    if pkgs is not None:
        for root, ds, fs in os.walk(top):
            pk = os.path.relpath(root, cc.REPO).replace(os.sep, '.')
            if pk not in pkgs:
                continue
            for f in fs:
                if not f.endswith('.py'):
                    continue
                for n in ast.walk(ast.parse(open(os.path.join(root, f)).read())):
                    if isinstance(n, ast.ImportFrom):
                        base = pk.split('.')[:len(pk.split('.')) - (n.level - 1)] if n.level else []
                        mod = '.'.join(base + (n.module.split('.') if n.module else []))
                        for cand in [mod] + ['%s.%s' % (mod, a.name) for a in n.names]:
                            if cand.startswith('emlearn.') or cand == 'emlearn':
                                path = os.path.join(cc.REPO, *cand.split('.'))
                                owner = cand if os.path.isdir(path) and any(x.endswith('.py') for x in os.listdir(path)) else cand.rsplit('.', 1)[0] if os.path.exists(path + '.py') else None
                                if owner:
                                    R.ob('imported module packaged', cand)
                                    if owner not in pkgs:
                                        R.violate('module:' + owner, '%s/%s imports %s, which is not in an installed package' % (pk, f, cand), 'setup.py')


def run():
    R = Report('I01', 'Installation.  install_arduino_library and its main() are evaluated by an abstract interpreter with unknown directories; the paths of all file operations, the conditions '
               'they depend on and the patterns of the files copied are compared with the library: every header, and every header included by a header or by generated code, is copied; '
               'only LIB/emlearn is written; nothing is removed; an existing installation is refused unless update is given, and update replaces every file.  Packaging: every header, '
               'template and Makefile of the package matches the manifest, every imported module is in a listed package.',
               ['glob patterns have the meaning of fnmatch', 'shutil.copy into a directory keeps the name'])
    d = os.path.join(cc.REPO, 'emlearn')
    files = sorted(f for f in os.listdir(d) if os.path.isfile(os.path.join(d, f)))
    if len(public(files)) < 10:
        raise Lost('headers of the library not found')
    s = Session().load('')
    s.ip.ext.disjunctions = True
    f = s.attr(MODULE, 'install_arduino_library')
    snap = s.snapshot()
    for update in (False, True):
        s.restore(snap)
        for x in (INC, LIB):
            s.ip.ext.typehint[x] = 'str'
        n = len(s.ip.events)
        v, err = s.call(f, INC, LIB, update=update)
        what = 'install(update=%s)' % update
        if err is not None:
            R.violate('raise', '%s always raises %r' % (what, err), MODULE)
            continue
        installed(R, s.ip.events[n:], LIB, INC, update, files, what)
        for g in alternatives(v):
            R.ob('directory returned', what)
            if under(g, LIB) != 'dir':
                R.violate('result', '%s returns %s, not the folder of the library' % (what, show(g, 4)), MODULE)
    for update in (False, True):
        t = Tool(MODULE, {'arduino_library_dir': opt('lib'), 'emlearn_include_dir': opt('inc'), 'update': update})
        t.s.ip.ext.typehint.update({opt('lib'): 'str', opt('inc'): 'str'})
        what = 'main(update=%s)' % update
        if t.err is not None:
            R.violate('main raise', '%s always raises %r' % (what, t.err), MODULE)
            continue
        installed(R, t.events, opt('lib'), opt('inc'), update, files, what, main=True)
    package(R)
    R.floor('path written', 8)
    R.floor('installation guarded', 4)
    if not R.counts.get('source in another form'):
        R.floor('include resolved', 4)
    return R.finish()
