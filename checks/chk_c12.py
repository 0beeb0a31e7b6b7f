"""C12: compile witnesses for every header alone, twice, in pairs and in mixed orders."""
import itertools, os, random, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import cc, cir, clib
from report import Report, Lost

COMPILERS = {
    'C99/clang': [cc.CLANG, '-std=c99', '-x', 'c'],
    'C99/gcc': ['/usr/bin/gcc', '-std=c99', '-x', 'c'],
    'C++11/clang': [cc.CLANGXX, '-std=c++11', '-x', 'c++'],
    'C++11/gcc': ['/usr/bin/g++', '-std=c++11', '-x', 'c++'],
}
STRICT = ['-Werror=implicit-function-declaration', '-Werror=implicit-int', '-Werror=incompatible-pointer-types', '-Werror=int-conversion']

def run():
    r = Report('C12', 'the compiler front ends (clang, gcc; C99 and C++11; default, logging, debug, trace) accept a translation unit for every '
               'header alone, every header twice, every ordered pair and mixed orders of all headers',
               ['host headers and target only', 'orders of three and more headers are sampled, pairs are complete'])
    hs = cc.headers()
    if len(hs) < 15:
        raise Lost('headers not found')
    # functions each header offers when included alone: they must stay declared after any other header
    funcs = {}
    for h in hs:
        try:
            m = cir.Module(cc.compile_ir('#include <%s>\n' % h))
            funcs[h] = sorted(f.name for f in m.functions.values() if os.path.basename(m.fn_decl(f)[0] or '') == h)
        except cc.CompileError:
            funcs[h] = []
    jobs = []
    def job(kind, incs, comp, cfg):
        jobs.append((kind, incs, comp, cfg))
    cfgs = ['default', 'log', 'debug', 'trace']
    for h in hs:
        for comp in COMPILERS:
            for cfg in cfgs:
                job('alone', (h,), comp, cfg)
                job('twice', (h, h), comp, cfg)
    pair_cfgs = cfgs if r.thorough else ['default']
    for a, b in itertools.permutations(hs, 2):
        for comp in (COMPILERS if r.thorough else ('C99/clang', 'C++11/clang')):
            for cfg in pair_cfgs:
                job('pair', (a, b), comp, cfg)
    rng = random.Random(r.seed)
    orders = [tuple(hs), tuple(reversed(hs))] + [tuple(rng.sample(hs, len(hs))) for _ in range(60 if r.thorough else 12)]
    for o in orders:
        for comp in COMPILERS:
            for cfg in cfgs:
                job('order', o, comp, cfg)
    d = tempfile.mkdtemp(prefix='emlv-')
    try:
        def go(j):
            kind, incs, comp, cfg = j
            lang_c = comp.startswith('C99')
            src = ''.join('#include <%s>\n' % h for h in incs) + 'int emlv_main(void) { return 0; }\n'
            refs = sorted({f for h in set(incs) for f in funcs[h]})
            src += 'void emlv_refs(void) {\n' + ''.join('  (void)&%s;\n' % f for f in refs) + '}\n'
            cmd = COMPILERS[comp] + (STRICT if lang_c else []) + ['-w', '-fsyntax-only', '-I', cc.INC] + \
                ['-D' + x for x in clib.CONFIGS[cfg] + clib.log_levels(cfg)] + ['-']
            # -w silences warnings but keeps errors; the -Werror= ones must stay
            if lang_c:
                cmd.remove('-w')
            p = subprocess.run(cmd, input=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, cwd=d)
            return p.returncode, [l for l in p.stderr.split('\n') if 'error' in l][:2]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(go, jobs))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    bad = set()
    for (kind, incs, comp, cfg), (rc, err) in zip(jobs, res):
        r.ob('witness: ' + kind, '%s [%s %s]' % (' '.join(incs[:3]), comp, cfg), subject=incs[0])
        if rc and rc != 1:
            raise Lost('compiler ended with %d' % rc)
        if rc:
            lang = comp.split('/')[0]
            if kind in ('alone', 'twice'):
                bad.add((incs[0], lang))
                r.violate('%s:%s:%s:%s' % (kind, incs[0], lang, cfg), '%s included %s does not compile as %s (%s): %s' %
                          (incs[0], kind, comp, cfg, ' | '.join(err)), ' '.join(incs))
            elif kind == 'pair':
                if (incs[0], lang) not in bad and (incs[1], lang) not in bad:
                    r.violate('pair:%s+%s:%s' % (incs[0], incs[1], lang), '%s followed by %s does not compile as %s: %s' %
                              (incs[0], incs[1], comp, ' | '.join(err)), cfg)
            elif not bad:
                r.violate('order:%s' % lang, 'an order of all headers does not compile as %s (%s): %s' % (comp, cfg, ' | '.join(err)), ' '.join(incs))
    r.ob('function required to stay declared', n=sum(map(len, funcs.values())))
    r.floor('function required to stay declared', 80)
    r.floor('witness: alone', 240)
    r.floor('witness: pair', 400)
    return r.finish()
