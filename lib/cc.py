"""Compile the emlearn headers of /repo's working tree to LLVM IR (nothing is executed)."""
import glob, os, re, subprocess, tempfile, shutil, hashlib
REPO = os.environ.get('EML_REPO', '/repo')
INC = os.path.join(REPO, 'emlearn')
CLANG = '/usr/bin/clang-18'
CLANGXX = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'

class CompileError(Exception):
    pass

def headers():
    return sorted(os.path.basename(p) for p in glob.glob(os.path.join(INC, 'eml_*.h')))

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **kw)

def tu(hdrs=None, extra=''):
    hdrs = headers() if hdrs is None else hdrs
    # eml_common first: the documented prerequisite of the others
    first = [h for h in ('eml_common.h',) if h in hdrs]
    rest = [h for h in hdrs if h not in first]
    return '#include <stdint.h>\n#include <stddef.h>\n' + ''.join('#include <%s>\n' % h for h in first + rest) + extra

def compile_ir(source, defines=(), std='gnu99', passes=None, lang='c', target=None, werror=False, extra=(), inline=False):
    d = tempfile.mkdtemp(prefix='emlv-')
    try:
        src = os.path.join(d, 'tu.' + ('c' if lang == 'c' else 'cpp'))
        with open(src, 'w') as f:
            f.write(source)
        ll = os.path.join(d, 'tu.ll')
        cmd = [CLANG if lang == 'c' else CLANGXX, '-std=' + std, '-O1', '-Xclang', '-disable-llvm-passes', '-g',
               '-fno-discard-value-names', '-femit-all-decls', '-w', '-S', '-emit-llvm', '-ffreestanding' if False else '-fno-builtin-dummy',
               '-I', INC, src, '-o', ll]
        cmd = [c for c in cmd if c != '-fno-builtin-dummy']
        cmd += ['-D' + x for x in defines] + list(extra)
        if target:
            cmd += ['--target=' + target]
        r = run(cmd, cwd=d)
        if r.returncode:
            raise CompileError(r.stderr[:3000])
        if inline:
            # every function with a body is inlined wherever it is called directly
            with open(ll) as f:
                txt = f.read()
            txt = re.sub(r'^(attributes #\d+ = \{)', r'\1 alwaysinline', txt.replace(' noinline ', ' ').replace(' optnone ', ' '), flags=re.M)
            if inline == 'own':
                # all but the functions of the library
                txt = re.sub(r'^(define [^\n]*@eml_\w+\([^\n]*?) #\d+( [^\n]*)?\{$', r'\1 noinline\2{', txt, flags=re.M)
            with open(ll, 'w') as f:
                f.write(txt)
        if passes:
            out = os.path.join(d, 'o.ll')
            r = run([OPT, '-S', '-passes=' + passes, '-inline-threshold=1000000', '-inline-cost-full=false', ll, '-o', out], cwd=d)
            if r.returncode:
                raise CompileError(r.stderr[:3000])
            ll = out
        with open(ll) as f:
            return f.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)

SSA = 'function(sroa)'
INLINED = 'function(sroa,simplifycfg),inline,function(sroa,sccp,instsimplify,jump-threading,simplifycfg,loop-simplify)'
