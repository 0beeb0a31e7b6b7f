"""C14: each library function compiled with logging/debugging on reduces, once the reporting calls are deleted, to the code compiled without."""
import re, os, subprocess, tempfile
import cc, clib
from report import Report, Lost

PRE = '''#include <stdio.h>
#ifdef __cplusplus
extern "C"
#endif
int emlv_log(const char *fmt, ...) __attribute__((const, nothrow));
'''
# reporting calls are declared free of side effects, so plain dead-code elimination deletes them and everything computed only for them
P1 = ('globalopt,function(adce,loop-simplify,lcssa,loop(loop-deletion),simplifycfg,adce,sroa,instsimplify,adce,loop-simplify,lcssa,'
      'loop(loop-deletion),simplifycfg,early-cse,instsimplify,adce,simplifycfg)')
P2 = 'globalopt,cgscc(function-attrs),' + P1 + ',' + P1[len('globalopt,'):]
P3 = ('globalopt,cgscc(function-attrs),function(adce,sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify,lcssa,'
      'loop(loop-deletion),simplifycfg,adce,gvn,sccp,instcombine<no-verify-fixpoint>,adce,simplifycfg,loop-simplify,lcssa,loop(loop-deletion),simplifycfg,'
      'gvn,instcombine<no-verify-fixpoint>,adce,simplifycfg)')

def fns(t):
    out = {}
    cur = None
    for l in t.split('\n'):
        if l.startswith('define'):
            cur = re.search(r'@("[^"]*"|[\w.$]+)\(', l).group(1)
            h = l[l.index('@'):]
            out[cur] = [re.sub(r' (!dbg !\d+|#\d+|local_unnamed_addr|unnamed_addr)', '', h)]
        elif l == '}':
            cur = None
        elif cur:
            out[cur].append(l)
    return out

def canon(lines):
    names = {}
    txt = '\n'.join(lines)
    txt = re.sub(r'\n[^\n]*@llvm\.(dbg|lifetime)[^\n]*', '', txt)
    txt = re.sub(r'(, ![\w.]+ !\d+)+', '', txt)
    txt = re.sub(r' #\d+\b', '', txt)
    txt = re.sub(r'; preds = .*', '', txt)
    txt = re.sub(r'\b(tail|notail|fastcc|noundef|nocapture|readonly|readnone|writeonly|nonnull|returned|noalias)\b ?', '', txt)
    txt = re.sub(r'^([\w.$-]+|"[^"]*"):', lambda m: '%' + m.group(1) + ':', txt, flags=re.M)
    # number values by first appearance in the text of instructions
    def sub(m):
        if m.group(1).startswith(('%struct.', '%union.', '%class.')):
            return m.group(1)
        return names.setdefault(m.group(1), '%v' + str(len(names)))
    txt = re.sub(r'(%[\w.$-]+|%"[^"]*")', sub, txt)
    txt = re.sub(r'@\.str[.\d]*', '@STR', txt)
    return [l.strip() for l in txt.split('\n') if l.strip()]

def ir(defs, passes, debug=False):
    d = tempfile.mkdtemp(prefix='emlv-')
    try:
        t = cc.compile_ir(PRE + cc.tu(), defs, std='gnu11')
        if debug:
            t, n = re.subn(r'(@eml_debug = internal )global ptr @eml_debug_stderr', r'\1constant ptr null', t)
            if 'call void @eml_debug_stderr' in t:
                t = re.sub(r'\n\s*(tail )?call void @eml_debug_stderr[^\n]*', '', t)
            elif not n:
                raise Lost('debug hook not found')
        # the library's own printing (default EML_LOG_PRINTF) is reporting, too
        if re.search(r'^declare [^\n]*@fprintf\(', t, re.M):
            t = re.sub(r'^(declare [^\n]*@fprintf\([^\n]*?\))[^\n]*$', r'\1 nounwind willreturn memory(none)', t, flags=re.M)
        p, o = os.path.join(d, 'a.ll'), os.path.join(d, 'b.ll')
        open(p, 'w').write(t)
        r = cc.run([cc.OPT, '-S', '-passes=' + passes, p, '-o', o])
        if r.returncode:
            raise cc.CompileError(r.stderr[:2000])
        return fns(open(o).read())
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)

SKIP = {'eml_debug_stderr'}

def run():
    r = Report('C14', 'every library function is compiled with the switch on, the reporting calls are declared side-effect free, dead code is '
               'eliminated, and the remaining instructions are compared with the default build; log formats are checked by the compilers',
               ['a loop that only logs terminates', 'the debug hook itself (application supplied) does not alter library memory'])
    variants = {'default logging': (('EML_LOG_ENABLE=1',), False),
                'logging': (('EML_LOG_ENABLE=1', 'EML_LOG_PRINTF=emlv_log'), False),
                'tracing': (('EML_LOG_ENABLE=1', 'EML_LOG_PRINTF=emlv_log') + clib.log_levels('trace'), False),
                'debug': (('EML_DEBUG=1',), True)}
    default_m = clib.module('default')
    files = {f.name: b for b, f in clib.own(default_m)}
    cache = {}
    def get(defs, p, dbg):
        k = (defs, p, dbg)
        if k not in cache:
            cache[k] = ir(defs, p, dbg)
        return cache[k]
    for vname, (defs, dbg) in variants.items():
        base = get((), P1, False)
        var = get(defs, P1, dbg)
        for fn in sorted(base):
            if fn not in files or fn in SKIP:
                continue
            r.ob('function compared', '%s:%s [%s]' % (files[fn], fn, vname), subject=fn)
            if fn not in var:
                # may have been optimised away as unused internal
                continue
            if canon(base[fn]) == canon(var[fn]):
                continue
            same = False
            for p in (P2, P3):
                b2, v2 = get((), p, False), get(defs, p, dbg)
                if fn not in b2 or fn not in v2 or canon(b2[fn]) == canon(v2[fn]):
                    same = True
                    break
            if not same:
                a, b = canon(b2[fn]), canon(v2[fn])
                diff = [l for l in b if l not in a][:3]
                r.violate('%s:%s' % (vname, fn), '%s computes something else with %s enabled: %s' % (fn, vname, ' / '.join(x[:90] for x in diff)),
                          '%s' % files[fn])
    # formats
    for comp, std in ((cc.CLANG, 'c99'), ('/usr/bin/gcc', 'c99'), (cc.CLANGXX, 'c++11'), ('/usr/bin/g++', 'c++11')):
        for cfg in ('log', 'trace'):
            d = tempfile.mkdtemp(prefix='emlv-')
            src = os.path.join(d, 't.c' if std == 'c99' else 't.cpp')
            open(src, 'w').write(cc.tu())
            x = cc.run([comp, '-std=' + std, '-fsyntax-only', '-Wformat', '-Wformat-extra-args', '-Werror=format', '-Werror=format-extra-args', '-I', cc.INC] +
                       ['-D' + y for y in clib.CONFIGS[cfg] + clib.log_levels(cfg)] + [src])
            import shutil
            shutil.rmtree(d, ignore_errors=True)
            r.ob('format witness', '%s %s %s' % (os.path.basename(comp), std, cfg))
            if x.returncode:
                errs = [l for l in x.stderr.split('\n') if 'error' in l]
                r.violate('format:%s' % cfg, 'log statement does not match its format: %s' % ' | '.join(errs[:2]), comp)
    nlog = sum(len(re.findall(r'EML_LOG_(?:BEGIN|END|ADD\w*|PRINTF)\s*\(', open(os.path.join(cc.INC, h)).read())) for h in cc.headers() if h != 'eml_log.h')
    r.ob('log statement covered', n=nlog)
    r.floor('function compared', 240)
    r.floor('log statement covered', 20)
    return r.finish()
