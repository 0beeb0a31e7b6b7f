"""The sources a converted model builds and the processes it runs, from the events of an abstract run."""
import os, shutil, tempfile
import cc, pyinst
from pyscen import *
from pyval import *

RUN = ('subprocess.run', 'subprocess.call', 'subprocess.check_call', 'subprocess.check_output', 'subprocess.Popen', 'subprocess.getoutput', 'subprocess.getstatusoutput',
       'os.system', 'os.popen', 'os.execv', 'os.spawnv', 'os.posix_spawn')


def basename(p):
    while isinstance(p, Sym) and p.op == 'call' and p.args[1]:
        p = p.args[1][-1] if p.args[0] == 'os.path.join' else p.args[1][0]
    return p if isinstance(p, str) else None


def sources(ip, events):
    """(name of the C file, event, {file: texts written}, flags) of every source compiled"""
    from chk_p04 import listof
    files, srcs, out = {}, [], []
    for e in events:
        if e.kind == 'write' and isinstance(e.value, (Str, str)):
            n = basename(ip.freeze(e.path))
            if n:
                files[n] = files[n] + [e.value] if n in files and files[n] is None else [e.value]
                if n.endswith('.c'):
                    srcs.append((n, e, dict(files)))
        if e.kind == 'methcall' and e.name == 'compile':
            fl = e.kw.get('extra_preargs')
            fl = [x for x in (listof(ip, fl) or []) if isinstance(x, str)] if fl is not None else []
            out += [(n, we, fs, fl) for n, we, fs in srcs]
            srcs = []
    return out


def text(ip, files, alt=0, dims=2):
    env = pyinst.Env(ip, alt=alt, dims=dims, small=True)
    return {k: ''.join(env.text(x) for x in v) for k, v in files.items()}


def compile_ir(files, main, passes=None):
    """LLVM IR of a built source (only what it uses)"""
    d = tempfile.mkdtemp(prefix='emlv-')
    try:
        for n, t in files.items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(t if t.endswith('\n') else t + '\n')
        ll = os.path.join(d, 'x.ll')
        r = cc.run([cc.CLANG, '-std=gnu99', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names', '-w', '-S', '-emit-llvm', '-I', d, '-I', cc.INC, os.path.join(d, main), '-o', ll], cwd=d)
        if r.returncode:
            raise cc.CompileError(r.stderr[:2000])
        if passes:
            o = os.path.join(d, 'o.ll')
            r = cc.run([cc.OPT, '-S', '-passes=' + passes, ll, '-o', o], cwd=d)
            if r.returncode:
                raise cc.CompileError(r.stderr[:2000])
            ll = o
        return open(ll).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ast_of(files, main):
    """top-level declarations of the files written (not of the headers of the library)"""
    import json
    d = tempfile.mkdtemp(prefix='emlv-')
    try:
        for n, t in files.items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(t if t.endswith('\n') else t + '\n')
        r = cc.run([cc.CLANG, '-std=gnu99', '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-I', d, '-I', cc.INC, os.path.join(d, main)], cwd=d)
        if r.returncode:
            raise cc.CompileError(r.stderr[:2000])
        tu = json.loads(r.stdout)
        cur, out = None, []
        for o in tu.get('inner', ()):
            loc = o.get('loc', {})
            loc = loc.get('expansionLoc', loc)
            if 'file' in loc:
                cur = loc['file']
            if cur and cur.startswith(d):
                out.append((os.path.basename(cur), o))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)
