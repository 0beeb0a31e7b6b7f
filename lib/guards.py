"""What must hold whenever a function reports success: proved at every return whose value can mean success."""
import re
from lin import lift, L, atom
from bounds import Facts, intval
import clib, cspec, memrun
from report import Lost


def returns(eng):
    """(Facts, value or None, where) of every way to a return"""
    f = eng.f
    for b in f.rpo:
        t = f.blocks[b].term
        if t.op != 'ret':
            continue
        v = t.ops[0] if t.ops else None
        yield from ways(eng, b, v, eng.at(b), t, 0)


def ways(eng, b, v, F, t, depth):
    d = eng.f.defs.get(v) if v else None
    if d is not None and d.op == 'phi' and d.block not in eng.f.loops and depth < 6:
        for o, p in d.incoming:
            if p not in eng.f.idom:
                continue
            G = eng.edge(p, d.block)
            if d.block != b:
                # facts between the join and the place of the question
                G = G + Facts([x for x in F.ge if x not in G.ge], F.ne, (), F.nonnull, F.null)
            yield from ways(eng, d.block, o, G, t, depth + 1)
        return
    if d is not None and d.op == 'select' and depth < 6:
        c, x, y = d.ops
        yield from ways(eng, b, x, F + eng.cond(c, True), t, depth + 1)
        yield from ways(eng, b, y, F + eng.cond(c, False), t, depth + 1)
        return
    yield F, v, t


def nan(v):
    return bool(re.match(r'^0x7FF8', v or '')) or (v or '').lower() == 'nan'


def succeeding(eng, how):
    """(Facts, where) of every way to a return that may mean success"""
    for F, v, t in returns(eng):
        if how == 'float':
            if v is not None and nan(v):
                continue
            yield F, t
            continue
        for G, x in values(eng, F, eng.lin(v), 0):
            yield from success(G, x, how, t)


def values(eng, F, x, depth):
    """the constants a merged value (or its negation) can be"""
    ks = [m for m in x.t if m]
    if len(ks) == 1 and len(ks[0]) == 1 and ks[0][0] in eng.cases and depth < 6:
        a = ks[0][0]
        cs = eng.casesof(a)
        if 0 < len(cs) <= 60 and (depth == 0 or any(e.const is not None for g, e in cs)):
            for g, e in cs:
                yield from values(eng, F + g + Facts([atom(a) - e, e - atom(a)]), x.subst(a, e), depth + 1)
            return
    yield F, x


def success(F, x, how, t):
    ok = Facts([x, -x]) if how == 'zero' else Facts([x])
    if x.const is not None:
        if how == 'zero' and x.const != 0 or how == 'nonneg' and x.const < 0:
            return
        ok = Facts()
    yield F + ok, t


def last(eng, pos, field):
    """a field of the last layer of a network"""
    c = eng.c
    n = c.structof(eng, pos)['n_layers']
    ref = c.t.members('EmlNetLayer')
    size = c.t.size(c.t.named['EmlNetLayer'])
    kind = {v[0]: v[1] for v in ref.values()}[field]
    return c.fieldatom(eng, (('arg', pos), 'layers', n * size - size), 'EmlNetLayer', field, kind)


def first(eng, pos, field):
    c = eng.c
    kind = {v[0]: v[1] for v in c.t.members('EmlNetLayer').values()}[field]
    return c.fieldatom(eng, (('arg', pos), 'layers', lift(0)), 'EmlNetLayer', field, kind)


def check(job):
    name = job[0]
    how, conds = cspec.GUARDS[name]
    eng = memrun.engine(name, {**cspec.INFER, **cspec.PARTS, **cspec.SIGNAL})
    out = []
    n = 0
    for F, t in succeeding(eng, how):
        if eng.dead(F):
            continue
        n += 1
        where = clib.where(eng.m, t, eng.f)
        for text, c in conds:
            bad = None
            for g in c(eng):
                alts = g if isinstance(g, list) else [(Facts(), g)]
                for H, goal in alts:
                    if not eng._prove(lift(goal), F + H, 4):
                        bad = 'success does not show %r >= 0' % (goal,)
            out.append(('condition', where, bad, '%s:%s' % (name, text), '%s succeeds although not %s' % (name, text)))
    out.append(('success return', name, None if n else '', '', ''))
    return name, n, out
