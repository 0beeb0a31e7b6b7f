"""Contents checked before a call: a loop over all bands that raises unless each lies inside the input, and an exact count of the coefficients.

The loop is recognised by what it does: a position that starts at one end of the bands and moves by one until it has passed the other end; along every way
through its body the facts of the way have to imply the condition for the band at that position.
"""
from bounds import Facts, intval, width
from lin import lift, atom, L

MAXPATHS = 400


def ways(f, h):
    """block lists from the loop header to the end of each latch, inside the loop; None when there is a loop inside"""
    body = f.loops[h]
    if any(x != h and x in body for x in f.loops):
        return None
    out, todo = [], [[h]]
    while todo:
        p = todo.pop()
        for s in f.blocks[p[-1]].succs:
            if s == h:
                out.append(p)
            elif s in body and s not in p:
                todo.append(p + [s])
        if len(out) + len(todo) > MAXPATHS:
            return None
    return out


def value(e, v, way):
    """the form of a value at the end of one way through the loop: joins on the way are resolved"""
    d = e.f.defs.get(v)
    if d is None or d.block not in way or d.block == way[0] and d.op == 'phi':
        return e.lin(v)
    if d.op == 'phi':
        k = way.index(d.block)
        for o, b in d.incoming:
            if b == way[k - 1]:
                return value(e, o, way)
    if d.op in ('sext', 'freeze'):
        return value(e, d.ops[0], way)
    if d.op in ('add', 'sub') and (width(d.ty) == 64 or 'nsw' in d.flags):
        x, y = value(e, d.ops[0], way), value(e, d.ops[1], way)
        return x + y if d.op == 'add' else x - y
    return e.lin(v)


def choices(e, v, way):
    """[(facts, form)] with the selects at the top resolved"""
    d = e.f.defs.get(v)
    if d is not None and d.op == 'phi' and d.block in way and d.block != way[0]:
        k = way.index(d.block)
        for o, b in d.incoming:
            if b == way[k - 1]:
                return choices(e, o, way)
    if d is not None and d.op in ('add',) and (width(d.ty) == 64 or 'nsw' in d.flags):
        return [(g + h, x + y) for g, x in choices(e, d.ops[0], way) for h, y in choices(e, d.ops[1], way)]
    if d is not None and d.op in ('sext', 'zext', 'freeze'):
        inner = e.f.defs.get(d.ops[0])
        if inner is not None and inner.op in ('select', 'phi', 'add', 'sext', 'freeze') and d.op != 'zext':
            return choices(e, d.ops[0], way)
    if d is not None and d.op == 'select':
        c, x, y = d.ops
        return [(e.cond(c, True) + g, z) for g, z in choices(e, x, way)] + [(e.cond(c, False) + g, z) for g, z in choices(e, y, way)]
    return [(Facts(), value(e, v, way))]


def reaches(f, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            todo += f.blocks[x].succs
    return False


def walks(e, h, block, base, n, elem=4):
    """positions of the elements of the object at base that the loop goes through completely before the block: {form: [loads]}"""
    f = e.f
    body = f.loops[h]
    out = {}
    for i in f.instrs():
        if i.op != 'load' or i.block not in body:
            continue
        ps = e.ptrs(i.ops[0])
        if len(ps) == 1 and ps[0][1] is not None and ps[0][1].root == base.root:
            out.setdefault(ps[0][1].off - base.off, []).append(i)
    return out


def complete(e, h, block, q, n, elem, ws):
    """does the byte position q go through 0, elem, ... elem*(n-1)?"""
    f = e.f
    phis = {('v', i.res): i for i in f.blocks[h].instrs if i.op == 'phi'}
    if not q.atoms() or any(a not in phis for a in q.atoms()):
        return False
    first, steps = q, []
    ini = next(iter(phis.values())).incoming
    for a in q.atoms():
        o = [(v, b) for v, b in phis[a].incoming if b not in f.latches[h]]
        if len(o) != 1:
            return False
        first = first.subst(a, e.lin(o[0][0]))
        entry = o[0][1]
    for w in ws:
        x = q
        for a in q.atoms():
            o = [v for v, b in phis[a].incoming if b == w[-1]]
            x = x.subst(a, value(e, o[0], w))
        steps.append(x - q)
    exits = [(b, s) for b in f.loops[h] for s in f.blocks[b].succs if s not in f.loops[h] and reaches(f, s, block)]
    if not steps or len({repr(s) for s in steps}) != 1 or not exits:
        return False
    st = steps[0].const
    F = e.edge(entry, h)
    zero = lambda x: e.prove(x, F) and e.prove(-x, F)
    if st == elem and zero(first):
        return all(e.prove(q - n * elem, e.edge(b, s), 4) for b, s in exits)
    if st == -elem and zero(first - (n - 1) * elem):
        return all(e.prove(-q - 1, e.edge(b, s), 4) for b, s in exits)
    return False


def check(e, call, sizes):
    """(why the bands may leave the input or None, why the coefficients may not suffice or None)"""
    f = e.f
    pin, pst, psp, pco = (e.ptrs(o)[0][1] for o in call.ops[:4])
    n = e.lin(call.ops[4])
    at = e.at(call.block)
    inside, count = 'no loop before the call looks at every band and raises for one outside the input', 'no loop before the call counts the coefficients of all bands'
    for h in f.loops:
        if not f.dominates(h, call.block) or call.block in f.loops[h]:
            continue
        ws = ways(f, h)
        if not ws:
            continue
        S, T = walks(e, h, call.block, pst, n), walks(e, h, call.block, psp, n)
        for q in S:
            if q not in T or not complete(e, h, call.block, q, n, 4, ws):
                continue
            bad = None
            for w in ws:
                F = way_facts(e, w)
                s, t = [i for i in S[q] if i.block in w], [i for i in T[q] if i.block in w]
                if e.dead(F):
                    continue
                if not s or not t:
                    bad = 'a band is accepted without a look at its limits'
                    continue
                x, y = e.lin(s[0].res), e.lin(t[0].res)
                # empty bands are never applied
                G = F + Facts([y - x])
                if e.dead(G):
                    continue
                if not e._prove(x, G, 3):
                    bad = 'a band may start before the input'
                for g, size in sizes(e, pin.root):
                    if not e._prove(size - pin.off - (y + 1) * 4, G + g, 3) and not e.dead(G + g):
                        bad = 'a band may stop after the input'
            if inside is not None:
                inside = bad
            # counters
            for p in f.blocks[h].instrs:
                if p.op != 'phi' or width(p.ty) != 64 or e.lin(p.res) == q:
                    continue
                a = ('v', p.res)
                ini = [o for o, b in p.incoming if b not in f.latches[h]]
                if len(ini) != 1 or not e.prove(e.lin(ini[0]), h):
                    continue
                good = True
                for w in ws:
                    F = way_facts(e, w)
                    s, t = [i for i in S[q] if i.block in w], [i for i in T[q] if i.block in w]
                    nxt = [o for o, b in p.incoming if b == w[-1]][0]
                    for g, v in choices(e, nxt, w):
                        G = F + g
                        if e.dead(G):
                            continue
                        d = v - e.lin(p.res)
                        if not e._prove(d, G, 3):
                            good = False
                        elif s and t:
                            x, y = e.lin(s[0].res), e.lin(t[0].res)
                            H = G + Facts([y - x])
                            if not e.dead(H) and not e._prove(d - (y - x + 1), H, 3):
                                good = False
                        else:
                            good = False
                if not good:
                    continue
                r = None
                for g, size in sizes(e, pco.root):
                    if not e._prove(size - pco.off - e.lin(p.res) * 4, at + g, 3) and not e.dead(at + g):
                        r = 'the coefficients may be fewer than the bands cover'
                count = r
                if r is None:
                    break
    return inside, count


def way_facts(e, w):
    F = e.at(w[0])
    for a, b in zip(w, w[1:]):
        F = F + e.branch(a, b)
    return F
