"""G05: floating-point parameters are written with enough digits and without any rounding besides the one to single precision."""
import re
import pyinst
from pyscen import *
from pyval import *
from chk_g01 import inputs
from chk_g03 import alternatives
from report import Report, Lost

ROUND = ('round', 'around', 'round_', 'rint', 'floor', 'ceil', 'trunc', 'fix', 'int', 'float16', 'half', 'uint8', 'int8', 'uint16', 'int16', 'int32', 'uint32', 'int64', 'clip_int', 'floor_divide', '//')
TEXT = ('array2string', 'array_str', 'array_repr', 'format_float_positional', 'format_float_scientific')
WIDE = re.compile(r'(float32|float64|float|double|single|f4|f8|d|f|<f4|<f8|=f4|=f8|longdouble)$')


EXTRA = []      # further terms that stand for floating-point data


def floats(ip, t):
    """names of the floating-point parameters a term is computed from"""
    out = set()

    def go(x):
        if isinstance(x, Sym):
            if x.op in ('in', 'attr') and str(ip.ext.typehint.get(x, '')).endswith('float'):
                out.add(x.args[0] if x.op == 'in' else '%s.%s' % (x.args[0].args[0] if isinstance(x.args[0], Sym) else '?', x.args[1]))
                return
            if any(p(x) for p in EXTRA):
                out.add('output')
                return
            if x.op in ('range', 'idx', 'dim', 'size', 'shape', 'rank', 'altlen', 'seglen', 'loopvar', 'count', 'cmp', 'not', 'and', 'or'):
                return
            if x.op in ('elem', 'item'):
                return go(x.args[0])
            if x.op == 'call' and x.args[0].split('.')[-1] in ('argmax', 'argmin', 'argsort', 'len', 'log_base', 'count_nonzero'):
                return
            for y in x.args:
                go(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
        elif isinstance(x, Choice):
            for y in x.vals:
                go(y)
        elif isinstance(x, Str):
            for p in x.parts:
                go(p)
        elif isinstance(x, Hole):
            go(x.value)
        elif isinstance(x, RepS):
            go(x.body)
    go(t)
    return out


def dtype(a):
    a = getattr(a, 'name', a)
    s = a if isinstance(a, str) else repr(a)
    m = re.search(r"([A-Za-z_]+\d*)(_?)['>\")]*$", s)
    return m.group(1) if m else s


def losses(ip, t):
    """operations on the way of a floating-point parameter which lose more than the rounding to single precision"""
    out = []

    def kwdtype(x):
        kw = dict(x.args[3] if x.op == 'meth' else x.args[2]) if len(x.args) > (3 if x.op == 'meth' else 2) else {}
        return kw.get('dtype')

    def bytes_(x):
        return any(isinstance(y, Sym) and y.op == 'meth' and y.args[1] == 'tobytes' for y in terms(x))

    def go(x):
        if isinstance(x, Sym):
            name = None
            if x.op == 'call':
                name = x.args[0].split('.')[-1]
                if name in ('argmax', 'argmin', 'argsort', 'len', 'count_nonzero'):
                    return
                if name in ROUND and floats(ip, x.args[1]) and not bytes_(x):
                    out.append(name)
                elif name in TEXT and floats(ip, x.args[1]):
                    kw = dict(x.args[2]) if len(x.args) > 2 else {}
                    p = kw.get('precision', 8 if name.startswith('array') else None)
                    if isinstance(p, int) and p < 9 or name == 'format_float_positional' and p is not None:
                        out.append('%s with precision %s' % (name, p))
                d = kwdtype(x)
                if d is not None and floats(ip, x.args[1]) and not WIDE.match(dtype(d)) and re.match(r'u?int|float16|half', dtype(d)):
                    out.append('%s(dtype=%s)' % (name, dtype(d)))
            elif x.op == 'meth':
                name = x.args[1]
                if name == 'tobytes':
                    pass
                if name in ('round', '__round__', '__int__') and floats(ip, x.args[0]):
                    out.append(name)
                if name in ('astype', 'view') and floats(ip, x.args[0]) and not bytes_(x.args[0]):
                    a = x.args[2][0] if x.args[2] else kwdtype(x)
                    if a is not None and not WIDE.match(dtype(a)) and re.match(r'u?int|float16|half|bool', dtype(a)):
                        out.append('%s(%s)' % (name, dtype(a)))
            elif x.op == 'bin' and x.args[0] == '//' and floats(ip, x.args[1:]):
                out.append('//')
            elif x.op in ('range', 'idx', 'dim', 'size', 'shape', 'rank', 'altlen', 'seglen', 'loopvar', 'count', 'cmp', 'not', 'and', 'or'):
                return
            for y in x.args:
                go(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
        elif isinstance(x, Choice):
            for y in x.vals:
                go(y)
        elif isinstance(x, Str):
            for p in x.parts:
                go(p)
        elif isinstance(x, Hole):
            if digits(x):
                out.append(digits(x))
            go(x.value)
        elif isinstance(x, RepS):
            go(x.body)
    go(t)
    return out


def terms(t):
    if isinstance(t, Sym):
        yield t
        for y in t.args:
            yield from terms(y)
    elif isinstance(t, (tuple, list)):
        for y in t:
            yield from terms(y)
    elif isinstance(t, Choice):
        for y in t.vals:
            yield from terms(y)


def digits(h):
    """why a format loses digits of a single-precision number, None when it does not (or is not known)"""
    s = h.spec
    if s in (None, ''):
        return None
    if not isinstance(s, str):
        return None
    m = re.match(r'^(?:.?[<>=^])?[ +-]?#?0?(\d+)?[_,]?(?:\.(\d+))?([a-zA-Z%])?$', s)
    if not m:
        return None
    prec, kind = m.group(2), m.group(3)
    if kind in ('d', 'x', 'i', 'u', 'b', 'o', 'n', 's', None) and prec is None:
        return None
    if kind == 's':
        return 'the text cut to %s characters' % prec
    if kind in ('f', 'F', '%'):
        return 'the format %s (a fixed number of decimals)' % s
    p = int(prec) if prec is not None else 6
    if kind in ('e', 'E'):
        return None if p >= 8 else 'the format %s (%d digits)' % (s, p + 1)
    if kind in ('g', 'G') or kind is None:
        return None if p >= 9 else 'the format %s (%d digits)' % (s, p)
    return None


def documented(label, names, h):
    """quantization the user asks for"""
    if 'fixedpoint' in label:
        return True
    kinds = {x.split('.')[-1] for x in names}
    if kinds == {'threshold'} and not re.search(r' float ', label):
        return h.spec == 'd' or bool({'floor', 'int', 'round', 'rint', 'trunc', 'ceil', 'astype'} & set(inputs(h.value)[1]))        # integer features: decided by G03
    if kinds == {'value'} and 'Regressor' not in label:
        return True             # leaf_bits
    if kinds <= {'_fit_X'}:
        return True             # items are integers, other values are refused
    return False


def run():
    R = Report('G05', 'Digits of the parameters.  For every family, method and option the text save returns is a term whose holes are the values written and their formats; for every hole made from a floating-point parameter of the '
               'estimator no operation between parameter and text may lose more than the rounding to single precision (rounding, integer or half-precision conversions, printing arrays), and the format must give at least '
               '9 significant digits in scientific or general notation, or the shortest text that reads back.  Quantization the user selects (integer features, leaf_bits, use_fixedpoint) is left out here.',
               ['str(), repr() and empty formats of Python and numpy floating-point numbers give the shortest text that reads back', 'options that select quantization: chk_g05.documented'])
    s = Session().load('', *FAMILIES)
    ip = s.ip
    snap = s.snapshot()
    conv = s.attr('convert', 'convert')
    fams = set()

    def holes(label, place, v):
        for h in set(alternatives(v)):
            names = floats(ip, h.value)
            if not names:
                continue
            key = sorted({re.sub(r'\d+', '', x) for x in names})
            R.ob('parameter', '%s: %s' % (label, ', '.join(key)), subject=place)
            fams.add(label.split()[0])
            if documented(label, names, h):
                continue
            why = losses(ip, h.value) + ([digits(h)] if digits(h) else [])
            if h.conv in ('d', 'i') or h.spec == 'd':
                if not any(isinstance(x, Sym) and x.op == 'meth' and x.args[1] == 'tobytes' for x in terms(h.value)):
                    why.append('an integer format')
            if 'tobytes' in inputs(h.value)[1]:
                R.ob('parameter bytes', label, subject=place)
            for w in why:
                R.violate('%s:%s' % (place, key[0]), '%s: %s is written through %s' % (label, ', '.join(key), w), place)

    for label, b, kw, saves in configs(R.thorough):
        s.restore(snap)
        m, err = s.call(conv, b(s), **kw)
        if err is not None:
            continue
        snap2 = s.snapshot()
        for so in saves:
            s.restore(snap2)
            v, err = s.method(m, 'save', **dict(so, name=D('NAME')))
            if err is not None or not isinstance(v, (Str, str)):
                continue
            place = m.meta['cls'].qual + '.save'
            R.ob('saved text', label, subject=place)
            holes(label, place, v)
        s.restore(snap2)
    for mod, fn, args in (('tools.window_function', 'window_function', lambda: [D('NAME'), 'hann', D('length'), True, D('linewrap')]),
                          ('tools.mel_filterbank', 'mel_filterbank', lambda: [s.obj('args', 'Namespace', {'normalize': True, 'fmax': D('fmax'), 'linewrap': D('linewrap')}), D('NAME')])):
        s.restore(snap)
        s.load(mod)
        v, err = s.call(s.attr(mod, fn), *args())
        if err is not None or not isinstance(v, (Str, str)):
            continue
        for h in set(alternatives(v)):
            if digits(h) and not (h.spec == 'd'):
                R.violate('emlearn.%s.%s' % (mod, fn), 'a value is written through %s' % digits(h), 'emlearn.%s.%s' % (mod, fn))
            for x in terms(h.value):
                if x.op == 'call' and x.args[0].split('.')[-1] in ('round', 'around', 'float16', 'rint', 'array2string') or x.op == 'meth' and x.args[1] == 'round':
                    R.violate('emlearn.%s.%s:round' % (mod, fn), 'a value is rounded before it is written', 'emlearn.%s.%s' % (mod, fn))
            R.ob('table value', 'emlearn.%s.%s' % (mod, fn), subject='emlearn.%s.%s' % (mod, fn))
    for f in ('RandomForestRegressor', 'MLPClassifier', 'GaussianNB', 'EllipticEnvelope', 'GaussianMixture', 'Sequential0'):
        if f not in fams:
            raise Lost('no floating-point parameter found in the text of %s' % f)
    R.floor('saved text', 40)
    R.floor('parameter', 100)
    return R.finish()
