"""A decreasing, bounded integer expression for every loop."""
import re
from lin import lift, L, atom
from bounds import Facts, width
import clib, cspec, memrun


def loopwhere(e, h):
    for i in e.f.blocks[h].instrs:
        if i.op != 'phi':
            w = clib.where(e.m, i, e.f)
            if not w.startswith('?'):
                return w, i
    return e.f.name, e.f.blocks[h].term


def stays(e, h):
    """(block, facts) of the tests that every further iteration passes"""
    f, body = e.f, e.f.loops[h]
    out = []
    for b in body:
        t = f.blocks[b].term
        ins = [s for s in f.blocks[b].succs if s in body]
        if len(ins) == len(f.blocks[b].succs) or len(ins) != 1:
            continue
        if all(f.dominates(b, l) for l in f.latches[h]):
            out.append((b, e.branch(b, ins[0])))
    return out


def flat(F):
    ge, ne = list(F.ge), list(F.ne)
    return ge, ne


def decide(e, h):
    """None when a ranking expression is found, else a reason"""
    f = e.f
    vs = {a: (i, n) for a, i, n in e.variables(h)}
    st = stays(e, h)
    if not st:
        return None, 'no test leaves the loop on every iteration'
    head = Facts()
    cands = []
    for b, F in st:
        if b == h:
            head = head + F
        ge, ne = flat(F)
        for alts in F.alt:
            for G in alts:
                ge += G.ge
                ne += G.ne
        for x in ge:
            cands += [x]
        for x in ne:
            cands += [x - 1, -x - 1]
    for x in e.inv.get(h, ()):
        cands.append(x)
    seen = set()
    for b in sorted(f.loops[h], key=lambda x: f.rpo.index(x)):
        for i in f.blocks[b].instrs:
            d = e.compared(i)
            if d is not None:
                cands += [d, -d]
    for d in cands:
        d = L({k: v for k, v in d.t.items()})
        if d in seen or not d.atoms() & set(vs):
            continue
        seen.add(d)
        if not e.inside(h, d) or any(a not in vs and e.varies(h, atom(a)) for a in d.atoms()):
            continue
        if all(falls(e, h, p, d, vs, head) for p in f.latches[h]):
            return d, None
    return None, 'no expression is found that every iteration makes smaller and that stays above a bound'


def step(e, h, p, x, vs):
    env, q = {}, x
    for a in x.atoms():
        if a in vs:
            n = [y for y, b in vs[a][1] if b == p]
            if not n:
                return None
            env[a] = n[0]
    tmp = {}
    for k, a in enumerate(sorted(env, key=repr)):
        tmp[('tmp', k)] = env[a]
        q = q.subst(a, atom(('tmp', k)))
    for k, y in tmp.items():
        q = q.subst(k, y)
    return q


def falls(e, h, p, d, vs, head):
    F = e.edge(p, h)
    n = step(e, h, p, d, vs)
    if n is None:
        return False
    # the next iteration happens
    G = Facts()
    for x in head.ge:
        if e.inside(h, x):
            y = step(e, h, p, x, vs)
            if y is not None:
                G.ge.append(y)
    # a bound: above some constant (an expression over unchanging values)
    if not any(e._prove(d + k, F, 4) for k in (0, 1)):
        return False
    return e._prove(d - n - 1, F + G, 4)


def check(job):
    name = job[0]
    e = memrun.engine(name, {**cspec.INFER, **cspec.PARTS, **cspec.SIGNAL})
    out = []
    for h in e.f.loops:
        where, ins = loopwhere(e, h)
        accs = [i for b in e.f.loops[h] for i in e.f.blocks[b].instrs if i.op in ('icmp', 'fcmp', 'load', 'store')]
        lines = [memrun.line_text(e.m, i) for i in accs]
        if lines and all('QSORT' in x for x in lines):
            out.append(('sort macro', where, None, '', ''))
            continue
        d, bad = decide(e, h)
        out.append(('loop', where, bad, '%s:%s' % (where[where.rfind('(') + 1:-1], re.sub(r'\s+', ' ', memrun.line_text(e.m, ins)).strip()[:70]), repr(d)[:100]))
    return name, out
