"""S01: one layout of sparse filterbanks, in the code that builds them, applies them in Python and C, and writes them out"""
import re
import cc, clib, memsafe, contracts, bands, pyinst, pygen
from bounds import Engine, Facts, Ptr
from lin import L, lift, atom
from pyscen import *
from pyval import *
from sums import Terms, bare, add, mul, const
from report import Report, Lost

N, M, NC = D('n_bands'), D('n_bins'), D('n_coeffs')
START, END, COEF, IN, FB = D('starts'), D('ends'), D('coeffs'), D('input'), D('mels')


def session():
    s = Session().load('signal')
    return s


def bandof(x):
    """the array of which x is the element of the current band"""
    if isinstance(x, Sym):
        if x.op == 'item' and isinstance(x.args[0], Sym) and band_index(x.args[1]):
            return x.args[0]
        if x.op == 'elem' and x.args and isinstance(x.args[0], Sym) and x.args[0] in (START, END, FB):
            return x.args[0]
    return None


COUNTS = {}         # of the loops of the function looked at


def band_index(i):
    if isinstance(i, Sym) and i.op == 'idx' and i.args[0] in COUNTS and bare(COUNTS[i.args[0]]) is N:
        return True
    return isinstance(i, Sym) and i.op == 'elem' and isinstance(i.args[0], Sym) and i.args[0].op == 'range' and i.args[0].args[0] == 0 and i.args[0].args[2] == 1 \
        and bare(i.args[0].args[1]) is N


S1, E1, ROW = Sym('band', 'starts'), Sym('band', 'ends'), Sym('band', 'row')


def canon(t):
    b = bandof(t)
    if b is START:
        return S1
    if b is END:
        return E1
    if b is FB:
        return ROW
    if isinstance(t, Sym) and t.op == 'view' and len(t.args) == 2 and t.args[0] is FB and len(t.args[1]) == 1 and band_index(t.args[1][0]):
        return ROW
    return t


def index(t):
    """(array, index) of an element access"""
    t = bare(t)
    if isinstance(t, Sym) and t.op == 'item':
        return bare(t.args[0]), t.args[1]
    return None


def product(T, p):
    """the two factors' indices when a polynomial is input[j] * coefficient[o]"""
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if c != 1 or len(m) != 2:
        return None
    got = {}
    for a in m:
        x = index(a)
        if x is None:
            return None
        got[x[0]] = x[1]
    if set(got) != {IN, COEF}:
        return None
    return got[IN], got[COEF]


def innermost(T, t):
    """loops a term moves in, innermost first"""
    ids = set()
    for x in subterms(t):
        if isinstance(x, Sym) and (x.op == 'elem' and len(x.args) > 1 or x.op == 'loopvar'):
            ids.add(x.args[1] if x.op == 'elem' else x.args[0])
    return ids


def covered(T, j, o, lid):
    """why the pair of indices over the loop lid is not: input start .. end inclusive, coefficients one after the other"""
    n = T.loops.get(lid, (None,))[0]
    width = {(E1,): 1, (S1,): -1, (): 1}
    if n is None:
        return 'the loop over a band may end early'
    if not T.same(T.poly(n), width):
        return 'a band is not applied to all of start .. end: %s steps' % show(n, 6)
    pj, po = T.steps(T.poly(j), lid), T.steps(T.poly(o), lid)
    if pj is None or po is None or not T.same(pj[0], {(S1,): 1}) or not T.same(pj[1], const(1)):
        return 'the input is not read from the start of the band on, one by one'
    if not T.same(po[1], const(1)):
        return 'the coefficients of a band are not read one by one'
    return running(T, po[0])


def running(T, off):
    """why the offset of a band's first coefficient is not the number of coefficients of the bands before"""
    if len(off) == 1:
        (m, c), = off.items()
        if c == 1 and len(m) == 1 and isinstance(m[0], Sym) and m[0].op == 'loopvar':
            r = T.var(m[0])
            if r is None:
                return 'the position of the coefficients does not advance by the width of each band'
            if r[0]:
                return 'the first coefficient is not at position 0'
            if not T.same(r[1], {(E1,): 1, (S1,): -1, (): 1}):
                return 'the position of the coefficients does not advance by the width of each band'
            return None
    return 'the position of the coefficients is not carried from band to band'


def accumulated(T, value, prior):
    """why a value is not prior + sum over the band, from one iteration of the inner loop"""
    d = add(T.poly(value), T.poly(prior), -1)
    pr = product(T, d)
    if pr is None:
        return 'the value added to a band is not one input times one coefficient'
    ids = innermost(T, pr[0]) & {l for l in T.loops}
    inner = [l for l in ids if T.steps(T.poly(pr[0]), l) and T.steps(T.poly(pr[0]), l)[1]]
    if len(inner) != 1:
        return 'the inputs of a band are not read by one loop'
    return covered(T, pr[0], pr[1], inner[0])


def sliced(T, value):
    """dot product of two slices; (None, None) when the value is no such thing"""
    v = bare(value)
    pair = None
    if isinstance(v, Sym) and v.op == 'call' and v.args[0] in ('numpy.dot', 'numpy.inner', 'numpy.vdot', 'numpy.matmul') and len(v.args[1]) == 2:
        pair = v.args[1]
    elif isinstance(v, Sym) and v.op == 'meth' and v.args[1] == 'dot' and len(v.args[2]) == 1:
        pair = (v.args[0], v.args[2][0])
    elif isinstance(v, Sym) and v.op == 'bin' and v.args[0] == '@':
        pair = v.args[1:3]
    elif isinstance(v, Sym) and v.op == 'call' and v.args[0] in ('numpy.sum', 'sum', 'math.fsum') and v.args[1]:
        x = bare(v.args[1][0])
        if isinstance(x, Sym) and x.op == 'bin' and x.args[0] == '*':
            pair = x.args[1:3]
    elif isinstance(v, Sym) and v.op == 'meth' and v.args[1] == 'sum':
        x = bare(v.args[0])
        if isinstance(x, Sym) and x.op == 'bin' and x.args[0] == '*':
            pair = x.args[1:3]
    if pair is None:
        return False, None
    got = {}
    for a in pair:
        a = bare(a)
        if isinstance(a, Sym) and a.op in ('item', 'view'):
            sl = a.args[1][0] if a.op == 'view' and isinstance(a.args[1], tuple) and a.args[1] else a.args[1]
            if isinstance(sl, Sym) and sl.op == 'slice':
                got[bare(a.args[0])] = sl.args
    if set(got) != {IN, COEF}:
        return False, None
    a, b = got[IN][:2], got[COEF][:2]
    if not T.same(T.poly(a[0]), {(S1,): 1}) or not T.same(T.poly(a[1]), {(E1,): 1, (): 1}):
        return True, 'a band is not applied to all of start .. end'
    if not T.same(add(T.poly(b[1]), T.poly(b[0]), -1), {(E1,): 1, (S1,): -1, (): 1}):
        return True, 'the coefficients of a band are not as many as it covers'
    return True, running(T, T.poly(b[0]))


def reduce_(R):
    s = session()
    ip = s.ip
    for x in (START, END):
        s.dims(x, N, typ='array:int')
    s.dims(COEF, NC)
    T = Terms(canon)
    global COUNTS
    COUNTS = T.counts
    ip.onloop = T.onloop
    n0 = len(ip.events)
    v, e = s.call(s.attr('signal', 'sparse_filterbank_reduce'), (START, END, COEF), IN)
    where = 'signal.py sparse_filterbank_reduce'
    if v is None:
        return R.violate('reduce:raises', 'applying a well-formed filterbank raises %r' % (e,), where)
    R.ob('band sums in Python', where)
    bad = None
    stores = [x for x in ip.events[n0:] if x.kind == 'arrstore']
    f = bare(ip.freeze(v))
    if stores:
        arrs = {x.target.id for x in stores}
        if len(arrs) != 1 or not (isinstance(f, Sym) and f.op == 'arr'):
            bad = 'the sums are not stored in the array that is returned'
        elif bare(f.args[1][0]) is not N or len(f.args[1]) != 1:
            bad = 'there is not one sum per band'
        for x in stores:
            k = x.key
            if bad:
                break
            if isinstance(k, tuple) and len(k) == 1:
                k = k[0]
            if not band_index(k):
                bad = 'a sum is not stored at the number of its band'
                break
            bad = stored(T, ip, x.value, f, k, len(stores))
    else:
        items = f.args if isinstance(f, Sym) and f.op == 'list' else None
        if not items or len(items) != 1 or items[0][0] != 'rep' or bare(items[0][2]) is not N or len(items[0][1]) != 1 or items[0][1][0][0] != 'item':
            bad = 'there is not one sum per band'
        else:
            bad = stored(T, ip, items[0][1][0][1], None, None, 1)
    if bad:
        R.violate('reduce', bad, where)


def stored(T, ip, value, arr, key, n):
    value = bare(ip.freeze(value) if not isinstance(value, Sym) else value)
    ok, bad = sliced(T, value)
    if ok:
        return bad
    if isinstance(value, Sym) and value.op == 'loopvar':
        u, h, w = T.loops[value.args[0]][1][value.args[1]]
        if bare(u) != 0:
            return 'a sum does not begin with 0'
        return accumulated(T, w, h)
    if n != 1:
        return 'more than one value is added to a sum'
    # array[k] = array[k] + product
    if isinstance(value, Sym) and value.op == 'bin' and arr is not None:
        if arr.args[2] != 'zeros':
            return 'the sums do not begin with 0'
        for a in value.args[1:3]:
            if isinstance(a, Sym) and a.op in ('view', 'item') and isinstance(a.args[0], Sym) and a.args[0].op == 'arr' and a.args[0].args[0] == arr.args[0] \
                    and a.args[1] in ((key,), key):
                return accumulated(T, value, a)
    return 'the value stored for a band is not recognised as a sum over the band'


def pick(t, k):
    """alternative k of every choice"""
    if isinstance(t, Choice):
        v = sorted(t.vals, key=lambda x: isinstance(x, Sym))
        return pick(v[0 if k == 0 else -1], k)
    if isinstance(t, Sym):
        if t.op == 'choice':
            v = sorted(t.args, key=lambda x: isinstance(x, Sym))
            return pick(v[0 if k == 0 else -1], k)
        return Sym(t.op, *[pick(a, k) if isinstance(a, (Sym, Choice, tuple)) else a for a in t.args]) if any(isinstance(x, Sym) and x.op == 'choice' or isinstance(x, Choice) for x in subterms(t)) else t
    if isinstance(t, tuple):
        return tuple(pick(a, k) for a in t)
    return t


def haschoice(t):
    return any(isinstance(x, Choice) or isinstance(x, Sym) and x.op == 'choice' for x in [t] + list(subterms(t)))


def nonzero(t):
    """t is the array of positions of nonzero values of the row of the band"""
    t = bare(t)
    row = lambda x: canon(bare(x)) is ROW
    if isinstance(t, Sym) and t.op == 'item' and t.args[1] == 0:
        c = bare(t.args[0])
        if isinstance(c, Sym) and c.op == 'call' and c.args[0] in ('numpy.nonzero', 'numpy.where') and c.args[1]:
            a = c.args[1][0]
            return row(a) or isinstance(a, Sym) and a.op == 'cmp' and a.args[0] in ('!=', '>') and row(a.args[1]) and a.args[2] == 0 and a.args[0] == '!='
        return isinstance(c, Sym) and c.op == 'meth' and c.args[1] == 'nonzero' and row(c.args[0])
    return isinstance(t, Sym) and t.op == 'call' and t.args[0] == 'numpy.flatnonzero' and row(t.args[1][0])


def extreme(t, last):
    t = bare(t)
    if isinstance(t, Sym) and t.op == 'item' and nonzero(t.args[0]):
        return t.args[1] == (-1 if last else 0)
    if isinstance(t, Sym) and t.op == 'call' and t.args[0].split('.')[-1] in (('max', 'amax') if last else ('min', 'amin')) and t.args[1]:
        return nonzero(t.args[1][0])
    if isinstance(t, Sym) and t.op == 'meth' and t.args[1] == ('max' if last else 'min'):
        return nonzero(t.args[0])
    return False


def onelist(f):
    """the element of [element for every band]"""
    f = bare(f)
    items = f.args if isinstance(f, Sym) and f.op == 'list' else None
    if items and len(items) == 1 and items[0][0] == 'rep' and bare(items[0][2]) is N:
        return items[0][1]
    return None


def build(R):
    s = session()
    ip = s.ip
    s.dims(FB, N, M)
    T = Terms(canon)
    global COUNTS
    COUNTS = T.counts
    ip.onloop = T.onloop
    v, e = s.call(s.attr('signal', 'sparse_filterbank'), FB)
    where = 'signal.py sparse_filterbank'
    if v is None:
        return R.violate('build:raises', 'building a filterbank raises %r' % (e,), where)
    f = ip.freeze(v)
    if isinstance(f, Sym) and f.op == 'list':
        f = tuple(x[1] for x in f.args if x[0] == 'item')
    R.ob('filterbank built', where)
    if not isinstance(f, tuple) or len(f) != 3:
        return R.violate('build:shape', 'the filterbank is not the triple of starts, ends and coefficients', where)
    a, b, c = (onelist(x) for x in f)
    one = lambda x: x is not None and len(x) == 1 and x[0][0] == 'item'
    if not one(a) or not one(b):
        return R.violate('build:bands', 'there is not exactly one start and one end for every band (bands without coefficients included)', where)
    if c is None or len(c) != 1:
        return R.violate('build:coefficients', 'the coefficients are not those of every band one after the other', where)
    if not any(haschoice(x[0][1]) for x in (a, b)):
        for x in subterms((a[0][1], b[0][1])):
            if isinstance(x, Sym) and x.op == 'item' and nonzero(x.args[0]):
                return R.violate('build:empty', 'a band without any nonzero coefficient has no start and end', where)
    for k in (0, 1):
        s1, e1 = pick(a[0][1], k), pick(b[0][1], k)
        seg = pick(c[0], k)
        R.ob('layout of a band (%s)' % ('no coefficients' if k == 0 else 'with coefficients'), where)
        bad = segment(T, seg, s1, e1)
        if bad:
            return R.violate('build:layout', bad, where)
        if k == 1 and not (extreme(s1, False) and extreme(e1, True)):
            return R.violate('build:cover', 'a band does not reach from its first to its last nonzero value', where)


def segment(T, seg, s1, e1):
    want = add(add(T.poly(e1), T.poly(s1), -1), const(1))
    if seg[0] == 'rep' and len(seg[1]) == 1 and seg[1][0][0] == 'item':
        x = bare(seg[1][0][1])
        if isinstance(x, Sym) and x.op == 'elem':
            y = bare(x.args[0])
            if isinstance(y, Sym) and y.op in ('item', 'view') and canon(bare(y.args[0])) is ROW:
                sl = y.args[1][0] if isinstance(y.args[1], tuple) else y.args[1]
                if isinstance(sl, Sym) and sl.op == 'slice' and sl.args[2] in (None, 1):
                    if T.same(T.poly(sl.args[0]), T.poly(s1)) and T.same(T.poly(sl.args[1]), add(T.poly(e1), const(1))):
                        return None
                    return 'the coefficients of a band are not those from its start to its end inclusive'
            return 'the coefficients of a band are not all values from its start to its end'
        if isinstance(x, Sym) and x.op == 'item' and canon(bare(x.args[0])) is ROW:
            p = T.steps(T.poly(x.args[1]), seg[3]) if len(seg) > 3 else None
            if p and T.same(p[0], T.poly(s1)) and T.same(p[1], const(1)) and T.same(T.poly(seg[2]), want):
                return None
        return 'the coefficients of a band are not all values from its start to its end'
    return 'the coefficients of a band are not all values from its start to its end'


KEEP = ('int', 'float', 'str', 'repr', 'numpy.int32', 'numpy.int64', 'numpy.intp', 'numpy.float32', 'numpy.float64')
ARRAYS = ('numpy.asarray', 'numpy.array', 'numpy.ascontiguousarray', 'numpy.asanyarray', 'list', 'tuple')


def plain(t):
    """the array whose elements, in order and unchanged, t stands for; t itself otherwise"""
    t0, lossy = t, False

    def strip(t, calls, meths):
        nonlocal lossy
        while isinstance(t, Sym):
            if t.op == 'call' and t.args[1] and t.args[0] in calls:
                rest = (t.args[0],) + tuple(t.args[1][1:]) + t.args[2:]
                t = t.args[1][0]
            elif t.op == 'meth' and t.args[1] in meths:
                rest = t.args[2:]
                t = t.args[0]
            else:
                return t
            if re.search(r'\bu?int|\bbool', repr(rest)):
                lossy = True
            if re.search(r'int8|int16|bool|float16', repr(rest)):
                return None
        return t
    t = strip(t, KEEP, ('item',))
    if not isinstance(t, Sym) or t.op not in ('elem', 'item', 'view'):
        return t0
    a = strip(t.args[0], ARRAYS, ('tolist', 'astype', 'copy'))
    if a not in (START, END, COEF) or lossy and a is COEF:
        return t0
    if t.op == 'item':
        i = t.args[1]
        if not (isinstance(i, Sym) and i.op == 'elem' and isinstance(i.args[0], Sym) and i.args[0].op == 'range' and i.args[0].args[0] == 0 and i.args[0].args[2] == 1):
            return t0
    return a




def serialize(R):
    s = session()
    ip = s.ip
    for x in (START, END):
        s.dims(x, N, typ='array:int')
    s.dims(COEF, NC)
    v, e = s.call(s.attr('signal', 'sparse_filterbank_serialize'), (START, END, COEF), D('NAME'))
    where = 'signal.py sparse_filterbank_serialize'
    if v is None:
        return R.violate('serialize:raises', 'writing a well-formed filterbank raises %r' % (e,), where)
    env = pyinst.Env(ip)
    g = pygen.Gen(ip, v, env)
    arrays = {}
    for n in g.vars:
        els = g.elements(n)
        if els is None:
            continue
        src, num = set(), len(els)
        for x in els:
            for h in g.holes(x):
                src.add(plain(h.value if hasattr(h, 'value') else h))
        arrays[n] = (src, num)
    for suffix, src, count in (('_starts', START, N), ('_ends', END, N), ('_lut', COEF, NC)):
        R.ob('array written', suffix)
        ns = [n for n in arrays if n.endswith(suffix)]
        if not ns:
            R.violate('serialize:' + suffix, 'there is no array %s in the text' % suffix, where)
            continue
        got, num = arrays[ns[0]]
        if got != {src}:
            R.violate('serialize:' + suffix, 'the array %s is not filled with the %s' % (suffix, src.args[0]), where)
        elif num != env.num(count) or g.declared(ns[0]) not in (None, env.num(count)):
            R.violate('serialize:' + suffix, 'the array %s has %d elements, for %s = %d' % (suffix, num, count.args[0], env.num(count)), where)
    for suffix, count in (('_bands', N), ('_length', NC)):
        R.ob('count written', suffix)
        ns = [n for n in g.vars if n.endswith(suffix)]
        i = g.init(ns[0]) if ns else None
        w = g.value(i) if i is not None else None
        if not w or w[0] != 'num' or w[1] != env.num(count):
            R.violate('serialize:' + suffix, 'the constant %s is not the number of %s' % (suffix, 'bands' if count is N else 'coefficients'), where)


# ------------------------------------------------------------------ C
class Con(contracts.Contract):
    pass


def c_function(R):
    m = memsafe.module()
    name = 'eml_sparse_filterbank'
    if name not in m.functions:
        raise Lost(name)
    f = m.functions[name]
    t = contracts.Types(m)
    e = Engine(m, f, contracts.Contract(t, f, {0: lambda a, st=None: 1 << 20, 1: lambda a, st=None: a[2], 3: lambda a, st=None: a[2], 4: lambda a, st=None: a[2], 5: lambda a, st=None: 1 << 20}))
    where = 'eml_audio.h %s' % name
    P = [names[0] for i, ref, names, ir in e.c.args]
    inp, outp, n, st, sp, co = P[:6]
    R.ob('band sums in C', where)
    bad = csum(e, f, inp, outp, n, st, sp, co)
    if bad:
        R.violate('c', bad, where)


def loads(e, f, root):
    out = []
    for i in f.instrs():
        if i.op == 'load':
            ps = e.ptrs(i.ops[0])
            if len(ps) == 1 and ps[0][1] is not None and ps[0][1].root == ('param', root):
                out.append((i, ps[0][1].off))
    return out


def inner_of(f, block):
    hs = [h for h in f.loops if block in f.loops[h]]
    return min(hs, key=lambda h: len(f.loops[h])) if hs else None


def csum(e, f, inp, outp, n, st, sp, co):
    ci, ii = loads(e, f, co), loads(e, f, inp)
    if len(ci) != 1 or len(ii) != 1:
        return 'not exactly one read of the coefficients and one of the input'
    (c, coff), (x, xoff) = ci[0], ii[0]
    h = inner_of(f, c.block)
    if h is None or h != inner_of(f, x.block):
        return 'input and coefficients are not read in the same loop'
    outer = [k for k in f.loops if h in f.loops[k] and k != h]
    if len(outer) != 1:
        return 'the loop over a band is not inside one loop over the bands'
    k = outer[0]
    S, T = loads(e, f, st), loads(e, f, sp)
    wsk = None
    nf = e.lin(n)
    if not S or not T:
        return 'starts or stops are not read'
    # bands: every one, in order
    for lst, what in ((S, 'starts'), (T, 'stops')):
        for i, off in lst:
            r = walk(e, f, k, off, 4)
            if r is None or not all_bands(e, f, k, off, nf):
                return 'the %s are not read for every band in turn' % what
    start, stop = e.lin(S[0][0].res), e.lin(T[0][0].res)
    # the input: from start, by one, while <= stop
    w = walk(e, f, h, xoff, 4)
    if w is None:
        return 'the input is not read one by one'
    first, entry = w
    F = e.edge(entry, h)
    if not zero(e, first - start * 4, F):
        return 'the input of a band is not read from its start on'
    F = e.at(x.block)
    if not e._prove(stop * 4 - xoff, F, 3):
        return 'the input of a band is read past its end'
    for b in f.loops[h]:
        for s in f.blocks[b].succs:
            if s not in f.loops[h] and not e._prove(xoff - stop * 4 - 4, e.edge(b, s), 4):
                return 'the loop over a band may end before its end'
    # coefficients: one per covered value, carried on
    w = walk(e, f, h, coff, 4)
    if w is None:
        return 'the coefficients of a band are not read one by one'
    first, entry = w
    a = list(first.atoms())
    if len(a) == 1 and a[0][0] == 'o' and a[0][1] in e.offphi and any(i.op == 'phi' and i.res == a[0][1] for i in f.blocks[k].instrs):
        return pointer(e, f, k, coff, first, a[0], start, stop) or cvalue(e, f, h, k, x, c, outp, S[0][1])
    ph = [i for i in f.blocks[k].instrs if i.op == 'phi' and a == [('v', i.res)]]
    if not ph or not zero(e, first - atom(a[0]) * 4, Facts()):
        return 'the position of the coefficients is not carried from band to band'
    for o, b in ph[0].incoming:
        if b in f.latches[k]:
            if not carried(e, f, h, k, o, b, coff, atom(a[0]), start, stop):
                return 'the position of the coefficients does not advance by the width of each band'
        elif not zero(e, e.lin(o), e.at(b)):
            return 'the first coefficient is not at position 0'
    # the value
    return cvalue(e, f, h, k, x, c, outp, S[0][1])


def zero(e, form, F):
    return form.const == 0 or e._prove(form, F, 3) and e._prove(-form, F, 3)


def walk(e, f, h, off, elem):
    """(first value, block it comes from) of a byte position that moves by elem in every iteration of loop h"""
    phis = {('v', i.res): i for i in f.blocks[h].instrs if i.op == 'phi'}
    mine = [a for a in off.atoms() if a in phis]
    ptrs = [a for a in off.atoms() if a[0] == 'o' and a[1] in e.offphi and ('v', a[1]) in phis]
    if not mine and not ptrs:
        return None
    ws = ways_in(f, h)
    if not ws:
        return None
    first, entry = off, None
    for a in mine:
        o = [(v, b) for v, b in phis[a].incoming if b not in f.latches[h]]
        if len(o) != 1:
            return None
        first, entry = first.subst(a, e.lin(o[0][0])), o[0][1]
    for a in ptrs:
        o = [b for v, b in phis[('v', a[1])].incoming if b not in f.latches[h]]
        if len(o) != 1:
            return None
        first, entry = first.subst(a, e.offphi[a[1]][0]), o[0]
    for w in ws:
        y = off
        for a in ptrs:
            o = [s for s, b in e.offphi[a[1]][1] if b == w[-1]]
            if not o:
                return None
            y = y.subst(a, atom(a) + o[0])
        for a in mine:
            o = [v for v, b in phis[a].incoming if b == w[-1]]
            if not o:
                return None
            y = y.subst(a, bands.value(e, o[0], w))
        if (y - off).const != elem:
            return None
    return first, entry


def ways_in(f, h):
    """ways through a loop; inner loops are passed over"""
    body = f.loops[h]
    inner = [x for x in f.loops if x != h and x in body]
    out, todo = [], [[h]]
    while todo:
        p = todo.pop()
        for s in f.blocks[p[-1]].succs:
            if s == h:
                out.append(p)
            elif s in body and s not in p:
                todo.append(p + [s])
        if len(out) + len(todo) > 400:
            return None
    # a way that enters an inner loop and comes back to its head is the same way
    return out


def all_bands(e, f, k, off, n):
    w = walk(e, f, k, off, 4)
    if w is None:
        return False
    first, entry = w
    F = e.edge(entry, k)
    if not zero(e, first, F):
        return False
    for b in f.loops[k]:
        for s in f.blocks[b].succs:
            if s not in f.loops[k] and not e._prove(off - n * 4, e.edge(b, s), 4):
                return False
    return True


def pointer(e, f, k, coff, first, a, start, stop):
    """the same for a pointer that moves over the coefficients"""
    init, steps = e.offphi[a[1]]
    if not zero(e, first.subst(a, init), Facts()):
        return 'the first coefficient is not at position 0'
    for s, b in steps:
        new = first.subst(a, atom(a) + s)
        if zero(e, new - coff, Facts()):
            continue
        for side, width in ((Facts([stop - start]), stop - start + 1), (Facts([start - stop - 1]), lift(0))):
            F = e.at(b) + side
            if not e.dead(F) and not zero(e, new - first - width * 4, F):
                return 'the position of the coefficients does not advance by the width of each band'
    return None


def carried(e, f, h, k, o, b, coff, a, start, stop):
    """the value handed to the next band is the position after the last coefficient read"""
    # the variable of the inner loop itself (its value when the loop is left)
    if zero(e, e.lin(o) * 4 - coff, Facts()):
        return True
    # or the position before, plus the width of the band
    ws = [w for w in ways_in(f, k) or () if w[-1] == b]
    for w in ws:
        for g, v in bands.choices(e, o, w):
            for side, width in ((Facts([stop - start]), stop - start + 1), (Facts([start - stop - 1]), lift(0))):
                F = e.at(b) + g + side
                if not e.dead(F) and not zero(e, v - a - width, F):
                    return False
    return bool(ws)


def cvalue(e, f, h, k, x, c, outp, bandoff):
    """out[band] += input * coefficient, from 0"""
    def src(v, depth=0):
        d = f.defs.get(v)
        while d is not None and d.op in ('fpext', 'fptrunc', 'freeze', 'bitcast') and depth < 5:
            d, depth = f.defs.get(d.ops[0]), depth + 1
        return d

    def is_product(v):
        d = src(v)
        if d is None or d.op != 'fmul':
            return False
        return {id(src(d.ops[0])), id(src(d.ops[1]))} == {id(x), id(c)}

    def addend(d):
        """the other operand when d is something + input * coefficient"""
        if d is None:
            return None
        if d.op == 'fadd':
            for p, q in ((0, 1), (1, 0)):
                if is_product(d.ops[p]):
                    return d.ops[q]
        if d.op == 'call' and re.match(r'llvm\.(fmuladd|fma)\.', d.callee or ''):
            if {id(src(d.ops[0])), id(src(d.ops[1]))} == {id(x), id(c)}:
                return d.ops[2]
        return None
    sums = [d for d in f.instrs() if addend(d) is not None]
    if len(sums) != 1 or inner_of(f, sums[0].block) != h:
        return 'the value added to a band is not one input times one coefficient'
    d = sums[0]
    prior = src(addend(d))
    outs = [(i, e.ptrs(i.ops[1])) for i in f.instrs() if i.op == 'store']
    outs = [(i, p[0][1].off) for i, p in outs if len(p) == 1 and p[0][1] is not None and p[0][1].root == ('param', outp)]
    isz = lambda v: re.match(r'^(0\.0+(e\+?0+)?|-?0x0+|0)$', v or '')
    if prior is not None and prior.op == 'load':
        ps = e.ptrs(prior.ops[0])
        if not (len(ps) == 1 and ps[0][1] is not None and ps[0][1].root == ('param', outp) and zero(e, ps[0][1].off - bandoff, Facts())):
            return 'a sum is not continued in the value of its band'
        mine = [i for i, off in outs if src(i.ops[0]) is d]
        if len(mine) != 1 or not zero(e, [off for i, off in outs if i is mine[0]][0] - bandoff, Facts()):
            return 'a sum is not stored at the number of its band'
        ini = [(i, off) for i, off in outs if i is not mine[0]]
        if not ini or not all(isz(i.ops[0]) for i, off in ini):
            return 'the sums do not begin with 0'
        for i, off in ini:
            hz = inner_of(f, i.block)
            if hz is not None and not all(f.dominates(i.block, b) for b in f.latches[hz]):
                continue
            if hz == k and f.dominates(i.block, h) and zero(e, off - bandoff, Facts()):
                return None
            if hz is not None and hz not in (k, h) and k not in f.loops[hz] and f.dominates(hz, k) and all_bands(e, f, hz, off, e.lin(e.c.args[2][2][0])):
                return None
        return 'the sums of some bands do not begin with 0'
    if prior is not None and prior.op == 'phi' and prior.block == h:
        for o, b in prior.incoming:
            if b in f.latches[h]:
                if src(o) is not d:
                    return 'a sum is not continued'
            elif not isz(o):
                return 'a sum does not begin with 0'
        mine = [(i, off) for i, off in outs if src(i.ops[0]) is prior]
        if len(mine) != 1 or inner_of(f, mine[0][0].block) != k or not zero(e, mine[0][1] - bandoff, Facts()):
            return 'a sum is not stored at the number of its band'
        return None
    return 'the value stored for a band is not recognised as a sum over the band'


def run():
    R = Report('S01', 'Terms and recurrences of the Python functions (abstract interpretation with a generic band) and of the LLVM IR of eml_sparse_filterbank: a band covers start to end inclusive, '
               'its coefficients are consecutive, the position advances by the width of every band, sums begin with 0 and go to the number of their band; the text contains the arrays of the triple.',
               ['numpy functions mean what their documentation says', 'floating-point rounding of the sums is out of scope'])
    build(R)
    reduce_(R)
    serialize(R)
    c_function(R)
    R.floor('array written', 3)
    R.floor('band sums in C', 1)
    R.floor('band sums in Python', 1)
    R.floor('layout of a band (with coefficients)', 1)
    return R.finish()
