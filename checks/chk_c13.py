"""C13: the library means the same where int has 16 bits. Everything is compiled for AVR (front end only) and compared with the host build."""
import itertools, os, re, shutil, tempfile
import cc, cir, clib
from report import Report, Lost

INCDIR = os.path.join(os.path.dirname(os.path.abspath(clib.__file__)), 'avrinc')
AVR = ['--target=avr', '-mmcu=atmega328p', '-ffreestanding', '-I', INCDIR]
MODELS = ('EmlTrees', 'EmlTreesNode', 'EmlBayesModel', 'EmlBayesSummary', 'EmlNet', 'EmlNetLayer', 'EmlMixtureModel', 'EmlNeighborsModel',
          'EmlNeighborsDistanceItem', 'EmlQuantizer')
WIDE = ('eml_q16_t', 'eml_fixed32_t', 'uint32_t')
# in these headers every 32-bit quantity that is computed (not a stored dimension) is data
DATA_HEADERS = ('eml_bayes.h', 'eml_fixedpoint.h', 'eml_net_fixedpoint.h', 'eml_distance.h', 'eml_neighbors.h', 'eml_trees.h', 'eml_quantizer.h')
WARN = ['-Wshift-count-overflow', '-Wshift-overflow', '-Winteger-overflow', '-Wconstant-conversion', '-Wtautological-constant-out-of-range-compare',
        '-Wincompatible-pointer-types', '-Wpointer-sign', '-Wliteral-range', '-Wtautological-type-limit-compare', '-Wimplicit-const-int-float-conversion']
NOISE = ('Wno-all',)

def sh(args, src):
    d = tempfile.mkdtemp(prefix='emlv-')
    try:
        p = os.path.join(d, 't.c')
        open(p, 'w').write(src)
        return cc.run(args + [p], cwd=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def loc(m, i):
    s = m.meta.get(i.dbg or '', '')
    f, l, fn = m.loc(i.dbg)
    return (os.path.basename(f or '?'), l, m._mfield(s, 'column'), fn)

def structs(m):
    out = {}
    for t in m.meta.values():
        if 'DW_TAG_typedef' in t:
            n = m._mfield(t, 'name')
            b = m.meta.get(m._mfield(t, 'baseType') or '', '')
            if 'DW_TAG_structure_type' in b and (n or '').startswith('Eml'):
                for r in re.findall(r'!(\d+)', m.meta.get(m._mfield(b, 'elements'), '')):
                    mt = m.meta[r]
                    out.setdefault(n, []).append((m._mfield(mt, 'name'), int(m._mfield(mt, 'size') or 0), m.ditype(m._mfield(mt, 'baseType'))))
    return out

def enumerators(m):
    out = {}
    for t in m.meta.values():
        if 'DIEnumerator' in t:
            out[m._mfield(t, 'name')] = m._mfield(t, 'value')
    return out

ARGS = ['0', '1', '2', '3', '7', '100', '255', '-1', '-2', '1000', '12345', '32767', '-32768', '0.5f', '1.0f', '-3.25f', '100.0f', '0.001f',
        '((eml_q16_t)65536)', '((eml_q16_t)-98304)', '((eml_q16_t)1000000)', '((int16_t)5)', '((int16_t)-300)', '((int8_t)3)', '((uint8_t)200)']

def macros():
    """object-like and function-like macros of the library headers: name -> parameter count or None"""
    out = {}
    for h in cc.headers():
        txt = open(os.path.join(cc.INC, h)).read()
        txt = re.sub(r'\\\n', ' ', txt)
        for m in re.finditer(r'^\s*#\s*define\s+([A-Za-z_]\w*)(\(([^)]*)\))?[ \t]+(\S.*)$', txt, re.M):
            body = m.group(4)
            if m.group(1).endswith('_H') or 'do' in body.split()[:1] or '{' in body or ';' in body or '...' in (m.group(3) or ''):
                continue
            out[m.group(1)] = len(m.group(3).split(',')) if m.group(3) is not None else None
    return out

def fold(exprs, avr):
    """{expr: value} for the expressions that are constant expressions on this target"""
    base = [cc.CLANG, '-std=gnu99', '-I', cc.INC, '-w'] + (AVR if avr else [])
    left = list(exprs)
    for _ in range(60):
        src = cc.tu() + ''.join('const long long emlv_i%d = (long long)((%s)*1);\n' % (k, e) for k, e in left)
        r = sh(base + ['-ferror-limit=0', '-fsyntax-only'], src)
        bad = set()
        if r.returncode == 0:
            break
        n0 = cc.tu().count('\n')
        for l in re.findall(r't\.c:(\d+):\d+: (?:fatal )?error', r.stderr):
            bad.add(int(l) - n0 - 1)
        if not bad:
            raise Lost('constant folding failed: ' + r.stderr[:500])
        left = [x for k, x in enumerate(left) if k not in bad]
    r = sh(base + ['-S', '-emit-llvm', '-o', '-'], cc.tu() + ''.join('const long long emlv_i%d = (long long)((%s)*1);\nconst double emlv_f%d = (double)(%s);\n' % (k, e, k, e) for k, e in left))
    if r.returncode:
        r = sh(base + ['-S', '-emit-llvm', '-o', '-'], cc.tu() + ''.join('const long long emlv_i%d = (long long)((%s)*1);\n' % (k, e) for k, e in left))
    out = {}
    vals = dict(re.findall(r'^@(emlv_[if]\d+) = .*?constant (?:i64|double|float) (\S+?),', r.stdout, re.M))
    for k, e in left:
        out[e] = (vals.get('emlv_i%d' % k), vals.get('emlv_f%d' % k) if avr is None else None)
    return out

def run():
    r = Report('C13', 'the headers are compiled for a 16-bit-int target (AVR) and for the host; constants, enumerators, tables and model field '
               'widths are compared, the compiler\'s shift/overflow/constant diagnostics of the 16-bit build are violations, and every 16-bit '
               'operation of that build that the host performs in 32 bits on data values is a violation',
               ['AVR stands for all targets with 16-bit int', 'array dimensions and indices fit int on the target (memory is at most 64 kB there)'])
    # 1. diagnostics
    cmd = [cc.CLANG, '-std=gnu99', '-I', cc.INC, '-fsyntax-only', '-w'] + AVR
    x = sh(cmd, cc.tu())
    if x.returncode:
        raise Lost('the 16-bit build does not compile: ' + x.stderr[:800])
    cmd = [cc.CLANG, '-std=gnu99', '-I', cc.INC, '-fsyntax-only', '-Wno-everything'] + WARN + AVR
    x = sh(cmd, cc.tu())
    host = sh([cc.CLANG, '-std=gnu99', '-I', cc.INC, '-fsyntax-only', '-Wno-everything'] + WARN, cc.tu())
    hw = set(re.findall(r'(eml_\w+\.h:\d+:\d+): warning', host.stderr))
    for m in re.finditer(r'(eml_\w+\.h):(\d+):(\d+): warning: (.*?) \[-W([\w-]+)\]', x.stderr):
        if '%s:%s:%s' % m.group(1, 2, 3) in hw and m.group(5) not in ('shift-count-overflow',):
            continue
        r.violate('diag:%s:%s' % (m.group(1), re.sub(r'\(aka [^)]*\)|\d+', '', m.group(4))[:90].strip()), 'with 16-bit int: %s' % m.group(4), '%s:%s' % (m.group(1), m.group(2)))
    r.ob('16-bit diagnostic classes armed', n=len(WARN))
    # 2. constants and macros
    ms = macros()
    exprs = []
    for n, k in sorted(ms.items()):
        if k is None:
            exprs.append(n)
        elif k == 1:
            exprs += ['%s(%s)' % (n, a) for a in ARGS]
        elif k == 2:
            exprs += ['%s(%s, %s)' % (n, a, b) for a, b in itertools.product(['((eml_q16_t)65536)', '((eml_q16_t)-98304)', '((eml_q16_t)1000000)', '3', '300'], repeat=2)]
    ex = list(enumerate(exprs))
    hv, av = fold(ex, False), fold(ex, True)
    defined = set(re.findall(r'^#define (\w+)', sh([cc.CLANG, '-std=gnu99', '-I', cc.INC, '-w', '-E', '-dM'] + AVR, cc.tu()).stdout, re.M))
    for e, v in hv.items():
        if re.match(r'\w+', e).group(0) not in defined:
            continue        # only defined for other platforms
        r.ob('constant compared', '%s = %s' % (e, v[0]))
        if e not in av:
            # constant on the host but refused on the 16-bit target
            r.violate('const:' + re.sub(r'\(.*', '', e), '%s is no valid constant with 16-bit int' % e)
        elif av[e][0] != v[0]:
            r.violate('const:' + re.sub(r'\(.*', '', e), '%s is %s on the host but %s with 16-bit int' % (e, v[0], av[e][0]))
    # 3. IR comparison
    P = 'function(sroa,instsimplify)'
    hm = clib.module('default', passes=P)
    am = cir.Module(cc.compile_ir(cc.tu(), passes=P, extra=AVR[1:], target='avr'))
    he, ae = enumerators(hm), enumerators(am)
    for n, v in he.items():
        if n.startswith('Eml'):
            r.ob('enumerator compared', '%s = %s' % (n, v))
            if ae.get(n) != v:
                r.violate('enum:' + n, '%s is %s on the host but %s with 16-bit int' % (n, v, ae.get(n)))
    hs, as_ = structs(hm), structs(am)
    for s in MODELS:
        if s not in hs:
            raise Lost('structure %s vanished' % s)
        for p, q in zip(hs[s], as_.get(s, [])):
            if '*' in p[2] or '[' in p[2] or p[2] in ('fn',):
                continue
            t = p[2].replace('const ', '')
            if t.startswith('Eml') and t not in MODELS:
                continue        # enumeration: same values, storage may differ
            r.ob('model field compared', '%s.%s: %d bits' % (s, p[0], p[1]))
            if p[1] != q[1]:
                r.violate('width:%s.%s' % (s, p[0]), 'field %s.%s has %d bits on the host but %d with 16-bit int' % (s, p[0], p[1], q[1]))
    for g, h in hm.globals.items():
        a = am.globals.get(g)
        if a is None or not h.const or g.startswith('.str') or 'ptr' in h.ty or not re.match(r'^\[?[\d x]*(i\d+|float|double)\]?$', h.ty):
            continue
        fil = ''
        r.ob('table compared', g)
        hv2 = re.sub(r'\bi\d+ ', '', re.sub(r', (align|!dbg).*$', '', h.init))
        av2 = re.sub(r'\bi\d+ ', '', re.sub(r', (align|!dbg).*$', '', a.init))
        hv2, av2 = re.sub(r'\[\d+ x \w+\] ', '', hv2), re.sub(r'\[\d+ x \w+\] ', '', av2)
        if hv2 != av2 and h.ty.replace('double', 'float') == a.ty.replace('double', 'float') and 'float' not in h.ty and 'double' not in h.ty:
            r.violate('table:' + g, 'table %s has other values with 16-bit int' % g)
    H, A = {}, {}
    ARITH = ('mul', 'add', 'sub', 'shl')
    names = {f.name for _, f in clib.own(hm)}
    for f in am.functions.values():
        if f.name in names:
            for i in f.instrs():
                if i.op in ARITH and i.optys[0] == 'i16':
                    A.setdefault((i.op,) + loc(am, i)[:3], []).append((f, i))
    for f in hm.functions.values():
        if f.name not in names:
            continue
        for i in f.instrs():
            if i.op in ARITH and i.optys[0] == 'i32':
                r.ob('32-bit operation compared')
                k = (i.op,) + loc(hm, i)[:3]
                if k not in A:
                    continue
                uses = [j for j in f.instrs() if i.res in j.ops]
                if uses and all(j.op == 'trunc' and j.ty in ('i16', 'i8') for j in uses):
                    continue
                d = [f.defs.get(o) for o in i.ops]
                data16 = any(q is not None and q.op in ('sext', 'zext') and q.optys[0] == 'i16' for q in d)
                bigshift = False
                # a value that only becomes a size_t is bounded by the address space of the target
                size = bool(uses) and all(j.op == 'zext' and j.ty == 'i64' for j in uses)
                if i.op == 'shl' and not size:
                    c0, c1 = re.match(r'^-?\d+$', i.ops[0]), re.match(r'^-?\d+$', i.ops[1])
                    bigshift = bool(c0 and not c1) or bool(c1 and int(i.ops[1]) >= 8)
                # result widened beyond int afterwards on the 16-bit target
                widened = False
                for af, ai in A[k]:
                    for j in af.instrs():
                        if ai.res in j.ops and j.op in ('sext', 'zext') and j.ty in ('i32', 'i64'):
                            widened = True
                nonconst = not any(re.match(r'^-?\d+$', o) for o in i.ops)
                if data16 and (nonconst or i.op != 'add') or bigshift or (widened and i.op in ('mul', 'shl') and nonconst):
                    r.violate('int16:%s:%s' % (f.name, i.op), '%s computes a %s in int that needs more than 16 bits' % (loc(hm, i)[3], i.op),
                              '%s:%s' % loc(hm, i)[:2])
    # 4. data squeezed through int
    htr = set()
    for f in hm.functions.values():
        for i in f.instrs():
            if i.op == 'trunc':
                htr.add(loc(hm, i)[:3])
    for f in am.functions.values():
        if f.name not in names:
            continue
        for i in f.instrs():
            if i.op == 'trunc' and i.ty == 'i16' and i.optys[0] in ('i32', 'i64'):
                l = loc(am, i)
                if l[:3] in htr:
                    continue
                uses = [j for j in f.instrs() if i.res in j.ops]
                if uses and all(j.op == 'getelementptr' for j in uses):
                    continue        # an offset inside an object of the target
                r.ob('narrowing to int examined', '%s:%s' % l[:2])
                d = f.defs.get(i.ops[0])
                bad = None
                if d is None:
                    for k, p in enumerate(f.params):
                        if p[0] == i.ops[0]:
                            t = am.fn_types(f)
                            if k + 1 < len(t) and t[k + 1].replace('const ', '') in WIDE:
                                bad = t[k + 1]
                elif d.op == 'call' and d.callee in am.functions:
                    t = am.fn_types(am.functions[d.callee])
                    if t and t[0] in WIDE:
                        bad = t[0]
                elif d.op in ('add', 'sub', 'mul', 'shl', 'ashr', 'lshr', 'sdiv', 'udiv') and l[0] in DATA_HEADERS:
                    bad = 'the result of a 32-bit ' + d.op
                elif d.op == 'fptosi':
                    bad = 'a converted float'
                elif d.op == 'load' and l[0] in DATA_HEADERS:
                    g = f.defs.get(d.ops[0])
                    if g is not None and g.op == 'getelementptr' and len(g.ops) == 2:
                        bad = 'a 32-bit array element'
                if bad:
                    r.violate('narrow:%s' % f.name, '%s stores %s in an int of 16 bits' % (l[3], bad), '%s:%s' % l[:2])
    r.floor('constant compared', 60)
    r.floor('model field compared', 25)
    r.floor('32-bit operation compared', 100)
    r.floor('enumerator compared', 15)
    return r.finish()
