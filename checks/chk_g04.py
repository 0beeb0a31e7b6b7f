"""G04: every number a model puts into a generated text fits the C type and the fixed buffer it ends up in."""
import re, os
import cc, pyinst, pygen, fits
from fits import Range, INF
from pyscen import *
from pyval import *
from report import Report, Lost

CTYPES = {'int8_t': (-128, 127), 'signed char': (-128, 127), 'char': (-128, 127), 'uint8_t': (0, 255), 'unsigned char': (0, 255), 'int16_t': (-32768, 32767), 'short': (-32768, 32767),
          'uint16_t': (0, 65535), 'unsigned short': (0, 65535), 'int32_t': (-2**31, 2**31 - 1), 'int': (-2**31, 2**31 - 1), 'uint32_t': (0, 2**32 - 1), 'unsigned int': (0, 2**32 - 1),
          'eml_q16_t': (-2**31, 2**31 - 1), 'eml_fixed32_t': (-2**31, 2**31 - 1), 'eml_fixed_t': (-2**31, 2**31 - 1), 'int64_t': (-2**63, 2**63 - 1), 'long': (-2**63, 2**63 - 1), 'long long': (-2**63, 2**63 - 1)}
FLOATS = ('float',)


def macro(header, name):
    m = re.search(r'^\s*#\s*define\s+%s\s+\(?(\d+)\)?' % name, open(os.path.join(cc.INC, header)).read(), re.M)
    if not m:
        raise Lost('%s is not defined in %s' % (name, header))
    return int(m.group(1))


def limits():
    """(field, lowest, highest) of values that index or fill a fixed buffer of the library"""
    return {'EmlTrees.n_classes': (0, macro('eml_trees.h', 'EMTREES_MAX_CLASSES')),
            'EmlBayesModel.n_classes': (0, macro('eml_bayes.h', 'EML_MAX_CLASSES')),
            'EmlNeighborsModel.labels[]': (0, macro('eml_neighbors.h', 'EML_NEIGHBORS_MAX_CLASSES') - 1)}


def known(R, t, depth):
    """what scikit-learn guarantees about fitted trees"""
    if t.op == 'elem' and isinstance(t.args[0], Sym) and treearray(t.args[0], 'feature'):
        return (-2, max(-2, R.of(D('n_features'), depth + 1)[1] - 1))
    return None


def treearray(t, name):
    return t.op == 'attr' and t.args[1] == name or t.op == 'in' and str(t.args[0]).split('.')[-1] == name


def ctype(t):
    t = re.sub(r'\b(const|static|volatile)\b', '', t.lstrip('=')).strip()
    return t


def arrays_of_fields(g):
    """array variable -> structure field that points to it"""
    out, fs = {}, pygen.fields()
    for n, o in g.vars.items():
        i = g.init(n)
        t = g.type(n).replace('const ', '').replace('struct ', '').strip()
        if i is None or t not in fs:
            continue
        for f, x in zip(fs[t], i.get('inner', ())):
            v = g.value(x)
            if v[0] == 'ref':
                out[v[1]] = '%s.%s[]' % (t, f[0])
    return out


def verdict(lim, count, conv, h, field, types, neg, isint, countlike):
    """(sink, why the number may not fit | None) ..."""
    out = []
    rng = Range(h.facts, (known, count), conv)
    lo, hi = rng.of(h.value)
    if neg:
        lo, hi = -hi, -lo
    rs = []
    scale = 1
    for t in reversed(types):                # from the literal outwards
        if isinstance(t, tuple):
            scale *= t[1]
            continue
        c = ctype(t)
        if c in CTYPES:
            rs.append((c, CTYPES[c], scale))
        elif c in FLOATS:
            rs.append((c, None, scale))
    narrow = [r for r in rs if r[1] is not None and (r[1][1] - r[1][0] < 2**32 - 1 or not isint or t[:1] == '=')]
    for c, w, k in narrow:
        if countlike and w[1] >= 2**31 - 1:
            continue
        a, b = lo * k if lo not in (-INF, INF) else lo, hi * k if hi not in (-INF, INF) else hi
        out.append((c, None if w[0] - (0 if isint else 1) < a or w[0] <= a else 'may be below %d' % w[0]))
        out.append((c, None if b <= w[1] or not isint and b < w[1] + 1 else 'may be above %d' % w[1]))
    if isint and rng.wraps:
        out.append(('conversion', 'is wrapped by a conversion to a narrower type before it is written'))
    if any(c in FLOATS for c, w, k in rs) and not isint:
        out.append(('float', None if rng.finite(h.value) else 'may not be finite as a float'))
    l = lim.get(field)
    if l:
        import math
        out.append((field, None if lo >= l[0] and math.floor(hi) <= l[1] else 'may be outside %d .. %d, the size of the library\'s buffer' % l)) if hi < INF else out.append((field, 'is not limited to %d, the size of the library\'s buffer' % l[1]))
    return out


def run():
    R = Report('G04', 'Every literal of the text of save that depends on the model is followed to the C types it is converted to (clang syntax tree of the instantiated text: initialisers, casts, return values, '
               'scaled fixed-point macros); the comparisons on the path on which the text was formed must bound the value to the range of each narrower type, and to the fixed buffers of the library '
               '(EMTREES_MAX_CLASSES, EML_MAX_CLASSES, EML_NEIGHBORS_MAX_CLASSES); float literals must be known to be finite; no value is wrapped by a numpy conversion before.',
               ['fitted trees refer to features below n_features', 'counts of things that exist in memory fit 32 bits', 'a comparison with every element of an array raises for the first that fails'])
    s = Session().load('', *FAMILIES)
    ip = s.ip
    snap = s.snapshot()
    conv = s.attr('convert', 'convert')
    lim = limits()
    met = set()
    for label, b, kw, saves in configs(R.thorough):
        s.restore(snap)
        m, err = s.call(conv, b(s), **kw)
        if err is not None:
            continue
        snap2 = s.snapshot()
        for so in saves:
            if so.get('format') == 'csv':
                continue
            s.restore(snap2)
            v, err = s.method(m, 'save', **dict(so, name=D('NAME')))
            if err is not None or not isinstance(v, (Str, str)):
                continue
            place = m.meta['cls'].qual + '.save'
            R.ob('saved text', label)
            for alt in range(3):
                env = fits.OwnEnv(ip, alt=alt, dims=2)
                g = pygen.Gen(ip, v, env)
                arr = arrays_of_fields(g)
                count = lambda r, t, d: (0, INF) if t.op == 'in' and env.countlike(t) else None
                for owner, field, types, neg, val, h in fits.uses(g):
                    f = field or arr.get(owner)
                    if h is None:
                        continue
                    isint = env.kind(h) == 'int'
                    for sink, why in verdict(lim, count, ip.atconv, h, f, types, neg, isint, isint and env.countlike(h.value)):
                        what = '%s in %s' % (re.sub(r'\d+', '', show(h.value))[:60], f or owner or '?')
                        R.ob('number', '%s: %s %s' % (label, what, sink))
                        met.add(f if sink == f else sink)
                        if why:
                            R.violate('%s:%s:%s' % (label.split()[0], re.sub(r'\d+', '', f or owner or ''), sink), '%s: %s (%s) %s' % (label, what, sink, why), place)
    for x in list(lim) + ['int8_t', 'int16_t', 'float']:
        if x not in met:
            raise Lost('no number was followed into %s' % x)
    R.floor('saved text', 40)
    R.floor('number', 60)
    return R.finish()
