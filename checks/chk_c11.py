"""C11: error codes, activation functions, covariance structures and their lookup tables agree (C <-> C, C <-> Python)."""
import re
import cc, cir, clib
from report import Report, Lost

def enums(mod):
    out = {}
    for t in mod.meta.values():
        if 'DW_TAG_enumeration_type' in t:
            name = mod._mfield(t, 'name')
            el = mod._mfield(t, 'elements')
            vals = []
            for k in re.findall(r'!(\d+)', mod.meta.get(el, '')):
                e = mod.meta[k]
                vals.append((mod._mfield(e, 'name'), int(mod._mfield(e, 'value'))))
            if name:
                out[name.strip('_')] = vals
    return out

def strings(mod, gname):
    g = mod.globals.get(gname)
    if g is None:
        return None
    out = []
    for ref in re.findall(r'ptr (@[\w.$]+|null)', g.init):
        if ref == 'null':
            out.append(None)
            continue
        s = mod.globals[ref[1:]]
        m = re.search(r'c"((?:[^"\\]|\\[0-9A-F]{2})*)"', s.init)
        txt = m.group(1) if m else ''
        txt = re.sub(r'\\([0-9A-F]{2})', lambda k: chr(int(k.group(1), 16)), txt).rstrip('\0')
        out.append(txt)
    m = re.match(r'\[(\d+) x', g.ty)
    n = int(m.group(1)) if m else len(out)
    return out + [None] * (n - len(out))

def tokens(s):
    s = re.sub(r'([a-z0-9])([A-Z])', r'\1 \2', s)
    return [t for t in re.split(r'[^A-Za-z0-9]+', s.lower()) if t]

def joined(s):
    return ''.join(tokens(s))

def score(a, b):
    if joined(a) == joined(b):
        return 1000
    ta, tb = set(tokens(a)), set(tokens(b))
    return len(ta & tb)

def check_table(r, label, names, strs, prefix):
    """names: enumerator names in value order 0..n-1; strs: table"""
    if strs is None:
        raise Lost('table for %s vanished' % label)
    if len(strs) != len(names):
        r.violate('%s:length' % label, '%s: table has %d entries for %d codes' % (label, len(strs), len(names)))
    short = [n[len(prefix):] if n.startswith(prefix) else n for n in names]
    for i, n in enumerate(short):
        r.ob('table entry', '%s[%d] %s = %r' % (label, i, n, strs[i] if i < len(strs) else None))
        if i >= len(strs) or not strs[i]:
            r.violate('%s:%s' % (label, n), '%s: no text for %s' % (label, names[i]))
            continue
        mine = score(n, strs[i])
        for j, o in enumerate(short):
            if j != i and score(o, strs[i]) > mine:
                r.violate('%s:%s' % (label, n), '%s: entry %d, %r, describes %s instead of %s' % (label, i, strs[i], names[j], names[i]))

def numbered(r, label, vals, sentinel):
    vals = [v for v in vals]
    names = []
    bv = sorted(vals, key=lambda x: x[1])
    if sentinel:
        names = [n for n, v in bv if n != sentinel]
        top = [v for n, v in bv if n == sentinel]
        if not top:
            raise Lost('%s: sentinel %s vanished' % (label, sentinel))
        if top[0] != len(names) or [v for n, v in bv if n != sentinel] != list(range(len(names))):
            r.violate('%s:numbering' % label, '%s: values are not 0..n-1 followed by %s' % (label, sentinel))
    else:
        names = [n for n, v in bv]
    return names

def returns(mod, fn):
    """set of constants the function can return ('?' when not constant)"""
    f = mod.functions[fn]
    out = set()
    seen = set()
    def go(v):
        if v in seen:
            return
        seen.add(v)
        if re.match(r'^-?\d+$', v):
            out.add(int(v))
            return
        d = f.defs.get(v)
        if d is not None and d.op == 'phi':
            for o in d.ops:
                go(o)
        elif d is not None and d.op == 'select':
            go(d.ops[1])
            go(d.ops[2])
        else:
            out.add('?')
    for b in f.rpo:
        t = f.blocks[b].term
        if t.op == 'ret' and t.ops:
            go(t.ops[0])
    return out

PASSES = ('function(sroa,simplifycfg),inline,function(sroa,early-cse,sccp,instcombine<no-verify-fixpoint>,correlated-propagation,'
          'constraint-elimination,jump-threading,simplifycfg,sccp,instcombine<no-verify-fixpoint>,simplifycfg)')
EXPF = {'expf', 'tanhf', 'exp', 'tanh', 'sinhf', 'coshf', 'exp2f', 'llvm.exp.f32', 'llvm.tanh.f32', 'llvm.exp2.f32'}

def calls(f):
    return {x.callee for x in f.instrs() if x.op == 'call' and x.callee}


def opaque(mod, f):
    """part of the implementation was not inlined"""
    return any(c in mod.functions and mod.functions[c].blocks for c in calls(f))


def shape(f):
    """the instructions of a function with its control flow, values numbered in order"""
    num, out = {}, []

    def v(x):
        if not isinstance(x, str) or not x.startswith('%'):
            return x
        return num.setdefault(x, len(num))
    for b in f.rpo:
        for x in f.blocks[b].instrs:
            if x.op == 'call' and (x.callee or '').startswith('llvm.dbg'):
                continue
            out.append((x.op, x.callee if x.op == 'call' else None, x.pred if hasattr(x, 'pred') else None, tuple(v(o) for o in x.ops)))
        out.append(('to', tuple(f.rpo.index(s) for s in f.blocks[b].succs)))
    return out


def reduces(f):
    """exponentials are accumulated: an addition in a cycle through a phi, with an operand that depends on an exponential"""
    def deps(v, stop=None):
        seen, work = set(), [v]
        while work:
            x = work.pop()
            if x in seen or x == stop:
                continue
            seen.add(x)
            d = f.defs.get(x)
            if d is not None and d.op in ('phi', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'select', 'call', 'fptrunc', 'fpext'):
                work += [o for o in d.ops if isinstance(o, str)]
        return seen
    for x in f.instrs():
        if x.op != 'fadd':
            continue
        for a, b in (x.ops[:2], x.ops[1::-1]):
            d = f.defs.get(a)
            if d is not None and d.op == 'phi' and x.res in deps(a) and any(
                    f.defs.get(y) is not None and f.defs[y].op == 'call' and f.defs[y].callee in EXPF for y in deps(b, a)):
                return True
    return False


ALIAS = {'linear': 'identity', 'sigmoid': 'logistic'}      # Keras' names of functions that are named differently here


def converter(r, acts, covs):
    """compare what the converter emits for each activation and covariance structure with the C enumerations -> identifiers emitted"""
    import pytables
    T = pytables.Tables()
    byname = {joined(n[len('EmlNetActivation'):]): n for n in acts}
    out = set()

    def names(build, pattern=pytables.ACT, kws=pytables.METHODS):
        got, refused = T.emitted(build, pattern, kws)
        got -= {'EmlNetActivationFunction', 'EmlNetActivationFunctions', 'EmlCovarianceType'}
        out.update(got)
        return got, refused
    order = T.order()
    if order is not None:
        for i, n in enumerate(order):
            r.ob('converter list', n)
            if i >= len(acts) or joined(acts[i][len('EmlNetActivation'):]) != joined(n):
                r.violate('py-order:' + n, 'ACTIVATION_FUNCTIONS[%d] is %r but the C enumeration has %s there' % (i, n, acts[i] if i < len(acts) else 'nothing'))
        for i, n in enumerate(acts):
            if joined(n[len('EmlNetActivation'):]) not in [joined(x) for x in order]:
                r.violate('py-missing:' + n, '%s exists in C but not in ACTIVATION_FUNCTIONS' % n)
    cand = list(byname) + [x for x in (order or []) if joined(x) not in byname]
    cand += [x for x in pytables.SKLEARN + pytables.KERAS if joined(x) not in byname and x not in cand]
    for n in cand:
        want = byname.get(joined(n))
        got, refused = names(lambda s: pytables.mlp(s, 'MLPClassifier', 3, n, n))
        r.ob('converter activation', '%s -> %s' % (n, ' '.join(sorted(got)) or 'refused'))
        if want and refused:
            r.violate('py-refused:' + n, 'the converter refuses activation %r, which the C library has as %s' % (n, want))
        elif not refused and not got:
            raise Lost('no activation in the code of a network with activation %r' % n)
        elif not refused and got != {want}:
            r.violate('py-emit:' + n, 'the converter writes %s for %r, and the C library %s' % (' '.join(sorted(got)), n, 'has %s' % want if want else 'has no such activation'))
    layers = [('Keras Dense %s' % n, n, [('Dense', n), ('Dense', n)]) for n in pytables.KERAS]
    layers += [('Keras Activation %s' % n, n, [('Dense', 'linear'), ('Activation', n)]) for n in pytables.KERAS]
    layers += [('Keras ReLU', 'relu', [('Dense', 'linear'), ('ReLU', None, {'negative_slope': 0.0, 'threshold': 0.0, 'max_value': None})]),
               ('Keras Softmax', 'softmax', [('Dense', 'linear'), ('Softmax', None, {'axis': -1})])]
    for label, n, spec in layers:
        want = byname.get(joined(ALIAS.get(n, n)))
        got, refused = names(lambda s: pytables.keras(s, spec))
        r.ob('converter activation', '%s -> %s' % (label, ' '.join(sorted(got)) or 'refused'))
        if not refused and got != {want}:
            r.violate('keras:' + label, '%s: the converter writes %s, and the C library %s' % (label, ' '.join(sorted(got)), 'has %s' % want if want else 'has no such activation'))
    for t in ('GaussianMixture', 'BayesianGaussianMixture'):
        for c in pytables.COVARIANCES:
            got, refused = names(lambda s: pytables.mixture(s, t, c), pytables.COV, ({},))
            r.ob('converter covariance', '%s %s -> %s' % (t, c, ' '.join(sorted(got)) or 'refused'))
            for x in sorted(got - set(covs)):
                r.violate('cov:%s' % x, 'the converter writes %s for covariance %r, which the C library does not define' % (x, c))
    return out


def run():
    r = Report('C11', 'enumerators and values from the compiled debug information, string tables from the compiled constants and the tables in '
               'the converter\'s syntax tree are compared entry by entry; each activation and covariance constant is propagated through the '
               'compiled C implementation (inlining + constant propagation) to decide whether that variant is implemented or refused',
               ['an activation counts as implemented when its specialised code has a path returning EmlOk'])
    mod = clib.module('default')
    en = enums(mod)
    for need in ('EmlError', 'EmlNetActivationFunction', 'EmlCovarianceType', 'EmlTreesError'):
        if need not in en:
            raise Lost('enumeration %s not found' % need)
    errs = numbered(r, 'EmlError', en['EmlError'], 'EmlErrors')
    if dict(en['EmlError']).get('EmlOk') != 0:
        r.violate('EmlError:EmlOk', 'EmlOk is not 0')
    check_table(r, 'eml_error_strs', errs, strings(mod, 'eml_error_strs'), 'Eml')
    tre = numbered(r, 'EmlTreesError', en['EmlTreesError'], None)
    check_table(r, 'eml_trees_errors', tre, strings(mod, 'eml_trees_errors'), 'EmlTrees')
    acts = numbered(r, 'EmlNetActivationFunction', en['EmlNetActivationFunction'], 'EmlNetActivationFunctions')
    cstrs = strings(mod, 'eml_net_activation_function_strs')
    check_table(r, 'eml_net_activation_function_strs', acts, cstrs, 'EmlNetActivation')
    covs = dict(en['EmlCovarianceType'])

    emitted = converter(r, acts, covs)

    # specialise the C implementations
    src = ''
    for i, n in enumerate(acts + ['EmlNetActivationFunctions']):
        src += ('EmlError emlv_act_%d(const float *in, int32_t il, const float *w, const float *b, float *out, int32_t ol) '
                '{ return eml_net_forward(in, il, w, b, %s, out, ol); }\n' % (i, n))
        src += ('EmlError emlv_fix_%d(const eml_q16_t *in, int32_t il, const eml_fixed32_t *w, const eml_fixed32_t *b, eml_q16_t *out, int32_t ol) '
                '{ return eml_net_forward_q16(in, il, w, b, %s, out, ol); }\n' % (i, n))
    cv = sorted(covs.items(), key=lambda x: x[1])
    for n, i in cv:
        src += ('int32_t emlv_cov_%d(EmlMixtureModel *m, const float *v, int32_t vl, float *out) { EmlMixtureModel l = *m; l.covariance_type = %s; '
                'return eml_mixture_predict_log_proba(&l, v, vl, out); }\n' % (i, n))
        src += ('int32_t emlv_len_%d(EmlMixtureModel *m) { EmlMixtureModel l = *m; l.covariance_type = %s; return eml_mixture_precisions_length(&l); }\n' % (i, n))
    sm = cir.Module(cc.compile_ir(cc.tu(extra=src), passes=PASSES))
    for kind, lib in (('act', 'eml_net_forward'), ('fix', 'eml_net_forward_q16')):
        shapes = {}
        for i, n in enumerate(acts):
            f = sm.functions['emlv_%s_%d' % (kind, i)]
            rs = returns(sm, f.name)
            r.ob('activation specialised', '%s %s -> %s' % (lib, n, sorted(map(str, rs))))
            ok = 0 in rs or '?' in rs
            nm = joined(n[len('EmlNetActivation'):])
            if not ok:
                if kind == 'act' and n in emitted:
                    r.violate('impl:' + n, 'the converter emits %s but eml_net_forward always refuses it' % n)
                continue
            for o, s in shapes.items():
                if s == shape(f):
                    r.violate('impl-same:%s:%s' % (lib, n), '%s computes the same for %s and %s' % (lib, n, o))
            shapes[n] = shape(f)
            if kind == 'fix' or opaque(sm, f):
                continue
            trans, red = bool(calls(f) & EXPF), reduces(f)
            if nm in ('identity', 'relu') and trans:
                r.violate('impl-kind:' + n, 'eml_net_forward computes an exponential for %s' % n)
            if nm in ('logistic', 'softmax', 'tanh') and not trans:
                r.violate('impl-kind:' + n, 'eml_net_forward accepts %s without computing an exponential' % n)
            if nm == 'softmax' and not red:
                r.violate('impl-kind:' + n, 'eml_net_forward computes no sum of exponentials for %s' % n)
            if nm in ('logistic', 'tanh') and red:
                r.violate('impl-kind:' + n, 'eml_net_forward sums exponentials over the outputs for %s' % n)
        both = {joined(n[len('EmlNetActivation'):]): calls(sm.functions['emlv_%s_%d' % (kind, i)]) & EXPF for i, n in enumerate(acts)}
        lo, ta = both.get('logistic', set()), both.get('tanh', set())
        if any('tanh' in x for x in lo) and ta and not any('tanh' in x for x in ta):
            r.violate('impl-kind:swapped', '%s computes the hyperbolic tangent for the logistic activation and not for tanh' % lib)
    rs = returns(sm, 'emlv_act_%d' % len(acts))
    if 0 in rs or '?' in rs:
        r.violate('impl:unknown', 'eml_net_forward accepts an activation outside the enumeration')
    for n, i in cv:
        rs = returns(sm, 'emlv_cov_%d' % i)
        r.ob('covariance specialised', '%s -> %s' % (n, sorted(map(str, rs))))
        ok = 0 in rs or '?' in rs
        if n in emitted and not ok:
            r.violate('cov-impl:' + n, 'the converter emits %s but inference always refuses it' % n)
        f = sm.functions['emlv_cov_%d' % i]
        if ok and not any(x.op == 'fmul' or x.op == 'call' and (x.callee or '').startswith(('llvm.fmuladd', 'llvm.fma', 'fma')) for x in f.instrs()):
            r.violate('cov-impl:' + n, 'eml_mixture_predict_log_proba accepts %s without computing anything' % n)
        ls = returns(sm, 'emlv_len_%d' % i)
        if -1 in ls:
            r.violate('cov-len:' + n, 'eml_mixture_precisions_length has no length for %s' % n)
    r.floor('table entry', 15)
    r.floor('converter activation', 30)
    r.floor('converter covariance', 8)
    r.floor('activation specialised', 8)
    r.floor('covariance specialised', 3)
    return r.finish()
