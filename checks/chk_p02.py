"""P02: nothing reachable from a converted model's public functions writes through a reference to the caller's objects."""
import pyscen
from pyscen import *
from pyval import *
from report import Report, Lost

# results that share memory with (or are) their first argument
VIEWFUNC = {'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.asfortranarray', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.atleast_3d',
            'numpy.squeeze', 'numpy.reshape', 'numpy.ravel', 'numpy.transpose', 'numpy.swapaxes', 'numpy.moveaxis', 'numpy.expand_dims', 'numpy.broadcast_to', 'numpy.require',
            'numpy.flip', 'numpy.flipud', 'numpy.fliplr', 'numpy.rot90', 'numpy.diagonal', 'numpy.real', 'numpy.nditer', 'numpy.split', 'numpy.array_split',
            'sklearn.utils.validation.check_array', 'sklearn.utils.check_array', 'sklearn.utils.validation.as_float_array', 'sklearn.utils.as_float_array',
            'iter', 'reversed', 'enumerate', 'zip', 'memoryview', 'next', 'getattr', 'vars', 'operator.itemgetter', 'max', 'min', 'typing.cast', 'numpy.nan_to_num_view',
            'numpy.lib.stride_tricks.as_strided', 'numpy.lib.stride_tricks.sliding_window_view', 'sklearn.utils.check_X_y', 'sklearn.utils.validation.check_X_y'}
VIEWMETH = {'reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes', 'diagonal', 'to_numpy', 'items', 'values', 'get', 'setdefault', '__getitem__', 'get_precision',
            '_estimate_log_weights', 'get_weights', 'get_layer', 'named_steps', 'itertuples', 'iterrows', '__enter__'}
# Keras builds new arrays for get_weights; get_precision and _estimate_log_weights return new arrays as well for the classes here, but may hand out the stored one for others
SCALAR = {'int', 'float', 'bool', 'str'}


def aliases(t, ip, seen=0):
    """name of the caller's object that t is, is part of, or shares memory with"""
    if seen > 40:
        return None
    if isinstance(t, Obj):
        return (str(t.meta.get('term') or 'a list given by the caller')) if t.meta.get('input') else None
    if isinstance(t, (tuple, Choice)):
        for x in (t.vals if isinstance(t, Choice) else t):
            r = aliases(x, ip, seen + 1)
            if r:
                return r
        return None
    if not isinstance(t, Sym):
        return None
    if t.op == 'in':
        return None if str(t.args[0]).startswith('__file__') else str(t.args[0])
    if t.op in ('attr', 'elem', 'setelem', 'mix') and t.args:
        if t.op == 'mix':
            return None
        return aliases(t.args[0], ip, seen + 1)
    if t.op == 'item':
        k = t.args[1]
        if copying(k):
            return None
        return aliases(t.args[0], ip, seen + 1)
    if t.op in ('arr', 'view'):
        return aliases(t.args[0], ip, seen + 1)
    if t.op == 'call':
        kws = dict(t.args[2]) if len(t.args) > 2 else {}
        if t.args[0] in VIEWFUNC and t.args[1] and not (kws.get('copy') is True) and 'dtype' not in kws:
            return aliases(t.args[1][0], ip, seen + 1)
        if t.args[0] in VIEWFUNC and t.args[1] and kws.get('copy') is not True:
            return aliases(t.args[1][0], ip, seen + 1)      # dtype conversion shares when the type already fits
        if t.args[0] == 'numpy.array' and kws.get('copy', True) in (False, None):
            return aliases(t.args[1][0], ip, seen + 1)
        return None
    if t.op == 'meth':
        kws = dict(t.args[3]) if len(t.args) > 3 else {}
        if t.args[1] in VIEWMETH and kws.get('copy') is not True:
            return aliases(t.args[0], ip, seen + 1)
        if t.args[1] == 'astype' and kws.get('copy') is False:
            return aliases(t.args[0], ip, seen + 1)
        return None
    return None


def copying(k):
    """does indexing with k make a copy (mask, index array or list)?"""
    if isinstance(k, Sym):
        if k.op in ('cmp', 'and', 'or', 'not', 'list', 'any'):
            return True
        if k.op == 'call' and k.args[0].startswith('numpy.'):
            return True
        if k.op == 'un' and k.args[0] == '~':
            return True
        return False
    if isinstance(k, Obj):
        return k.kind in ('list', 'arr')
    if isinstance(k, tuple):
        return any(copying(x) for x in k)
    return False


def rank(t, ip):
    if not isinstance(t, Sym):
        return None
    if t in ip.ext.shapes:
        return len(ip.ext.shapes[t])
    if t.op == 'elem':
        r = rank(t.args[0], ip)
        return None if r is None else r - 1
    if t.op == 'item':
        r = rank(t.args[0], ip)
        if r is None:
            return None
        for k in (t.args[1] if isinstance(t.args[1], tuple) else (t.args[1],)):
            if isinstance(k, Sym) and k.op == 'slice' or k is Ellipsis:
                continue
            r -= 1
        return r
    return None


def scalar(t, ip):
    """numbers and text are values: x += 1 makes a new one"""
    return isinstance(t, Sym) and (rank(t, ip) == 0 or ip.ext.scalar(t) or ip.ext.kind(t) in ('int', 'float', 'bool', 'str') or t.op in ('dim', 'size', 'rank'))


METHODS = ('predict', 'predict_proba', 'predict_log_proba', 'regress', 'score_samples', 'decision_function', 'mahalanobis', 'score', 'transform', 'inverse_transform')


def judge(R, s, events, where, allowed=()):
    ip = s.ip
    n = 0
    for e in events:
        if e.kind != 'mutate':
            continue
        n += 1
        R.ob('in-place operation', '%s:%s:%s %s' % (e.loc + (e.how,)), subject=e.loc[0])
        if e.via in ('Name', 'Subscript', 'Attribute') and scalar(e.target, ip):
            continue
        a = aliases(e.target, ip)
        if a and a not in allowed:
            R.violate('mutate:%s:%s:%s' % (e.loc[0], e.loc[2], e.how.split('(')[0][:30]),
                      '%s changes %s, which the caller passed (%s on %s)' % (where, a, e.how[:60], show(e.target)[:80] if isinstance(e.target, Sym) else a), '%s:%s in %s' % e.loc)
    R.ob('function evaluated', where)


def methods_of(s, m):
    c = m.meta.get('cls') if isinstance(m, Obj) else None
    out = []
    if isinstance(c, Cls):
        for n in METHODS:
            if s.ip.find_method(c, n) is not None:
                out.append(n)
        f = c.frame.id
        for k in list(s.ip.S.h):
            if k[0] == f and isinstance(k[1], str) and not k[1].startswith('_') and k[1] not in out and k[1] != 'save' and isinstance(s.ip.S.h[k], Func):
                out.append(k[1])
    return out


def run():
    R = Report('P02', 'In-place operations.  convert, save, every public method of every converted model, and the evaluation, signal, fixed-point, code generation and quantizer functions are evaluated by an abstract interpreter '
               'whose values are terms over the caller\'s objects.  Each in-place operation (item or attribute assignment, augmented assignment, mutating method or function, out=, inplace=) '
               'must have a target that is not one of those objects, a part of one, or something that may share memory with one.',
               ['third-party functions outside the table of mutating ones do not change their arguments',
                'table of third-party functions whose result may share memory with the argument'])
    s = Session().load('', *FAMILIES, 'evaluate.trees', 'evaluate.pareto', 'evaluate.size', 'signal', 'fixedpoint', 'cgen', 'preprocessing.quantizer', 'common')
    ip = s.ip
    ip.epoch = 'run'
    snap = s.snapshot()
    conv = s.attr('convert', 'convert')
    seen_families = set()
    for label, b, kw, saves in configs(R.thorough):
        s.restore(snap)
        est = b(s)
        m, err = s.call(conv, est, **kw)
        judge(R, s, ip.events[snap[1]:], 'convert ' + label)
        if err is not None or not isinstance(m, Obj):
            continue
        snap2 = s.snapshot()
        for so in saves:
            s.restore(snap2)
            s.method(m, 'save', **dict(so, name=D('NAME'), file=D('FILE')))
            judge(R, s, ip.events[snap2[1]:], 'save ' + label)
        for meth in methods_of(s, m):
            s.restore(snap2)
            s.method(m, meth, X(s))
            judge(R, s, ip.events[snap2[1]:], '%s %s' % (meth, label))
            seen_families.add((m.meta['cls'].qual, meth))
        c = m.meta.get('cls')
        if c is not None and 'trees' in c.qual and (kw.get('method') == 'inline'):
            for mod, f in publics(s, 'evaluate.trees'):
                for arg in ('estimator', 'model'):
                    s.restore(snap2)
                    s.call(f, est if arg == 'estimator' else m, X(s)) if nargs(f) > 1 else s.call(f, est if arg == 'estimator' else m)
                    judge(R, s, ip.events[snap2[1]:], '%s(%s) %s' % (f.qual, arg, label))
    for mod in ('evaluate.pareto', 'signal', 'fixedpoint', 'cgen', 'tools.window_function', 'tools.mel_filterbank'):
        s.restore(snap)
        try:
            s.load(mod)
        except Exception as e:
            raise Lost('module %s: %s' % (mod, e))
        sn = s.snapshot()
        for _, f in publics(s, mod):
            if f.qual.endswith(('.main', '.parse')):
                continue
            for variant in range(2):
                s.restore(sn)
                args = arguments(s, f, variant)
                s.call(f, *args)
                judge(R, s, ip.events[sn[1]:], f.qual)
    # the quantizer: fit may store what it learns in itself, never in its input
    s.restore(snap)
    Q = s.attr('preprocessing.quantizer', 'Quantizer')
    for kw in ({}, {'dtype': 'int8'}, {'dtype': 'uint8', 'max_value': 10.0}, {'max_quantile': 0.01}):
        s.restore(snap)
        q, err = s.call(Q, **kw)
        if err is not None:
            continue
        for chain in (('fit',), ('fit', 'transform'), ('fit', 'inverse_transform')):
            s.restore(snap)
            q, err = s.call(Q, **kw)
            n = snap[1]
            for mth in chain:
                s.method(q, mth, X(s))
            judge(R, s, ip.events[n:], 'Quantizer(%s).%s' % (kw, '.'.join(chain)))
    R.extra['methods'] = sorted('%s.%s' % x for x in seen_families)
    R.extra['functions_evaluated'] = len(ip.functions_seen)
    R.floor('function evaluated', 150)
    R.floor('in-place operation', 5)
    return R.finish()


def publics(s, mod):
    m = s.mods[mod]
    out = []
    for k, v in list(s.ip.S.h.items()):
        if k[0] == m.frame.id and isinstance(k[1], str) and not k[1].startswith('_') and isinstance(v, Func) and v.qual.startswith('emlearn.' + mod):
            out.append((k[1], v))
    return sorted(out, key=lambda x: x[0])


def nargs(f):
    return len(f.node.args.args)


def arguments(s, f, variant):
    """arguments by parameter name: tables and arrays as unknown inputs"""
    out = []
    a = f.node.args
    ndef = len(a.defaults)
    for i, p in enumerate(a.args):
        if i >= len(a.args) - ndef and variant == 0:
            break
        n = p.arg
        if n == 'sparse':
            out.append((D('starts'), D('ends'), D('coeffs')))
        elif n in ('name', 'prefix'):
            out.append(D('NAME'))
        elif n in ('mels', 'numbers', 'fixed', 'values', 'costs', 'input'):
            out.append(s.dims(D(n), D('n_' + n), D('m_' + n)) if n in ('mels', 'costs') else s.dims(D(n), D('n_' + n)))
        elif i >= len(a.args) - ndef and n in ('dtype', 'modifiers', 'indent', 'fixedpoint', 'performance_metric', 'cost_metric'):
            break
        else:
            out.append(D(n))
    return out
