"""G02: what the converter writes for every accepted configuration is accepted by a C99 and a C++ front end."""
import concurrent.futures, os, shutil, tempfile
import cc, pyinst, pyscen
from pyscen import *
from pyval import *
from report import Report, Lost

C = ['-std=c99', '-pedantic-errors', '-w', '-Wno-newline-eof']
CXX = ['-std=c++11', '-w']
SKIP = ('excess elements',)      # counts are decided by G01, on terms


def compile_job(job):
    kind, files, main, flags, cxx = job
    d = tempfile.mkdtemp(prefix='emlv-')
    try:
        for n, t in files.items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(t if t.endswith('\n') else t + '\n')
        r = cc.run([cc.CLANGXX if cxx else cc.CLANG, *flags, '-fsyntax-only', '-I', d, '-I', cc.INC, os.path.join(d, main)], cwd=d)
        errs = [l for l in r.stderr.split('\n') if ': error:' in l or ': fatal error:' in l or ': warning:' in l]
        errs = [l.split(': ', 1)[1] if ': ' in l else l for l in errs if not any(k in l for k in SKIP)]
        return errs if r.returncode or ('-Wall' in flags and errs) else []
    finally:
        shutil.rmtree(d, ignore_errors=True)


def basename(p):
    while isinstance(p, Sym) and p.op == 'call' and p.args[1]:
        p = p.args[1][-1] if p.args[0] == 'os.path.join' else p.args[1][0]
    return p if isinstance(p, str) else None


def run():
    R = Report('G02', 'Generated code.  For every accepted family, method and option the text save returns is obtained as a term by abstract interpretation of the converter, unknown numbers are replaced by literals '
               'and repeated parts repeated as their counts say (all dimensions 1, 2 and 3; each alternative of every choice), and the result is parsed and type checked: alone as C99 (pedantic) and as C++11, and included from '
               'two places in one unit.  The sources written for the compiled model are checked with the warning flags the package itself passes to the compiler, together with -Werror where it does.',
               ['clang as the judge of C99 and C++11', 'numbers are replaced by small literals: range is the subject of G04'])
    s = Session().load('', *FAMILIES, 'common')
    ip = s.ip
    snap = s.snapshot()
    conv = s.attr('convert', 'convert')
    jobs = {}

    def add(key, job):
        k = repr(job)
        jobs.setdefault(k, (job, []))[1].append(key)

    def texts(v, alts=3, dims=(1, 2, 3)):
        for dm in dims:
            for alt in range(alts):
                yield alt, dm, pyinst.Env(ip, alt=alt, dims=dm, small=True).text(v)

    def source(label, place, v):
        for alt, dm, t in texts(v):
            for cxx in (False, True):
                add((label, place, 'dimensions %d, alternative %d, %s' % (dm, alt, 'C++11' if cxx else 'C99')),
                    ('alone', {'gen.h': t, 'main.' + ('cpp' if cxx else 'c'): '#include "gen.h"\n'}, 'main.' + ('cpp' if cxx else 'c'), CXX if cxx else C, cxx))
    for label, b, kw, saves in configs(R.thorough):
        s.restore(snap)
        ip.epoch = 'convert'
        est = b(s)
        m, err = s.call(conv, est, **kw)
        if err is not None:
            continue
        snap2 = s.snapshot()
        for so in saves:
            if so.get('format') == 'csv':
                continue
            s.restore(snap2)
            v, err = s.method(m, 'save', **dict(so, name=D('NAME')))
            if err is not None or not isinstance(v, (Str, str)):
                continue
            place = m.meta['cls'].qual + '.save'
            R.ob('saved text', label)
            source(label, place, v)
        # sources built for the converted model
        s.restore(snap2)
        from chk_p02 import methods_of
        for meth in [None] + methods_of(s, m):
            if meth == 'save':
                continue
            if meth:
                s.restore(snap2)
                s.method(m, meth, X(s))
            ev = ip.events if meth is None else ip.events[snap2[1]:]
            files, sources = {}, []
            for e in ev:
                if e.kind == 'write' and isinstance(e.value, (Str, str)):
                    n = basename(ip.freeze(e.path))
                    if n:
                        files[n] = files[n] + [e.value] if n in files and files[n] is None else [e.value]
                        if n.endswith('.c'):
                            sources.append((n, e, dict(files)))
                if e.kind == 'methcall' and e.name == 'compile':
                    fl = e.kw.get('extra_preargs')
                    from chk_p04 import listof
                    fl = [x for x in (listof(ip, fl) or []) if isinstance(x, str)] if fl is not None else []
                    for n, we, fs in sources:
                        R.ob('built source', '%s %s %s' % (label, meth or 'convert', n))
                        for alt in range(3):
                            for dm in (2,):
                                env = pyinst.Env(ip, alt=alt, dims=dm, small=True)
                                job = ('built', {k: ''.join(env.text(x) for x in v) for k, v in fs.items()}, n, fl, False)
                                add((label + (' ' + meth if meth else ''), '%s:%s' % (we.loc[0], we.loc[2]), 'alternative %d' % alt), job)
                    sources = []
    # tables
    for mod, fn, args in (('tools.window_function', 'window_function', lambda: [D('NAME'), 'hann', D('length'), True, D('linewrap')]),
                          ('tools.mel_filterbank', 'mel_filterbank', lambda: [s.obj('args', 'Namespace', {'normalize': True, 'fmax': D('fmax'), 'linewrap': D('linewrap')}), D('NAME')])):
        s.restore(snap)
        s.load(mod)
        v, err = s.call(s.attr(mod, fn), *args())
        if err is not None or not isinstance(v, (Str, str)):
            raise Lost('%s.%s gives no text (%s)' % (mod, fn, err))
        R.ob('saved text', '%s.%s' % (mod, fn))
        source('%s.%s' % (mod, fn), 'emlearn.%s.%s' % (mod, fn), v)
    ks = sorted(jobs)
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(lambda k: compile_job(jobs[k][0]), ks))
    for k, errs in zip(ks, res):
        job, keys = jobs[k]
        R.ob('text compiled', '%s (%s) and %d more' % (keys[0][0], keys[0][2], len(keys) - 1), subject=keys[0][1])
        if errs:
            label, place, how = keys[0]
            msg = errs[0]
            R.violate('%s:%s:%s' % (place, job[0] + ('++' if job[4] else ''), label), 'the code generated for %s (%s) is refused by the compiler: %s' % (label, how, msg[:160]), place)
    R.extra['distinct_texts'] = len(ks)
    R.floor('saved text', 40)
    R.floor('built source', 20)
    R.floor('text compiled', 100)
    return R.finish()
