"""Runs the bounds analysis over a table of functions, one process per function."""
import os, re
from concurrent.futures import ProcessPoolExecutor
import cc, cir, clib, contracts, cspec, memsafe
from bounds import Engine, Facts
from lin import lift
from report import Lost

_ctx = {}


def context():
    if not _ctx:
        m = memsafe.module()
        _ctx['m'], _ctx['t'] = m, contracts.Types(m)
    return _ctx['m'], _ctx['t']


def line_text(m, ins):
    fil, line, fn = m.loc(ins.dbg)
    p = os.path.join(cc.INC, os.path.basename(fil or ''))
    if p not in _ctx:
        try:
            _ctx[p] = open(p).read().split('\n')
        except OSError:
            _ctx[p] = []
    t = _ctx[p]
    return t[line - 1] if line and 0 < line <= len(t) else ''


def engine(name, table):
    m, t = context()
    f = m.functions[name]
    return Engine(m, f, contracts.Contract(t, f, table.get(name, {}), cspec.PRE.get(name)))


def bounds(job):
    """[(kind, where, None or reason, key)] for one function"""
    name, table = job[0], cspec.TABLES[job[1]]
    m, t = context()
    e = engine(name, table)
    out, sort = [], []
    for i, p, n, w in memsafe.accesses(e):
        where = clib.where(m, i, e.f)
        fn = where[where.rfind('(') + 1:-1]
        if 'QSORT' in line_text(m, i):
            sort.append(i)
            continue
        if where.startswith('eml_fft.h') and name != 'eml_fft_fill' and fn != 'eml_fft_fill' and e.f.loops and any(i.block in b for b in e.f.loops.values()):
            out.append(('trusted FFT access', where, None, ''))
            continue
        r = memsafe.check(e, i, p, n)
        out.append((w, where, r, '%s:%s:%s:%s' % (name, fn, w, re.sub(r'\s+', ' ', line_text(m, i)).strip()[:60])))
    if sort:
        out += sorted_range(e, name, sort)
    out += kept_indices(e, name)
    return name, out, len(e.f.blocks), len(e.f.loops), sum(len(v) for v in e.inv.values())


def sorted_range(e, name, accs):
    """the sort macro works on elements 0 .. q_r of its array: the first value of q_r is inside, and inside what was filled"""
    out = []
    roots = []
    for i in accs:
        p = i.ops[1] if i.op == 'store' else i.ops[0]
        for g, q in e.ptrs(p):
            if q is not None and q.root[0] != 'alloca' and q.root not in roots:
                roots.append(q.root)
    for h in e.f.loops:
        for i in e.f.blocks[h].instrs:
            if i.op != 'phi' or not re.match(r'^%q_r\.', i.res or ''):
                continue
            ini = [(o, b) for o, b in i.incoming if b not in e.f.latches[h]]
            if h != first_loop(e, accs):
                continue
            for o, b in ini:
                hi = e.lin(o)
                for r in roots:
                    for g, size in memsafe.sizes(e, r) or []:
                        F = e.at(b) + g
                        ok = e._prove(size - (hi + 1) * 8, F, 3)
                        out.append(('sorted range', name, None if ok else 'the sort is told %r elements of an array of %r bytes' % (hi + 1, size), name + ':sort'))
                    lim = cspec.FILLED.get(name)
                    if lim:
                        fl = lim(e)
                        ok = e._prove(lift(fl) - hi - 1, e.at(b), 3)
                        out.append(('sorted range', name, None if ok else 'the sort moves %r elements although only %r are filled in' % (hi + 1, fl), name + ':sorted-filled'))
    return out


def first_loop(e, accs):
    hs = [h for h in e.f.loops if any(i.block in e.f.loops[h] for i in accs) and any(i.op == 'phi' and re.match(r'^%q_r\.', i.res or '') for i in e.f.blocks[h].instrs)]
    return max(hs, key=lambda h: len(e.f.loops[h])) if hs else None


def kept_indices(e, name):
    """numbers stored in the index field of a distance are numbers of items"""
    out = []
    if name not in cspec.FILLS:
        return out
    pos, lim = cspec.FILLS[name]
    arg = [names[0] for i, ref, names, ir in e.c.args if i == pos]
    for s in e.stores:
        if s.op != 'store' or 'QSORT' in line_text(e.m, s):
            continue
        for g, p in e.ptrs(s.ops[1]):
            if p is None or p.root != ('param', arg[0]) or e.accesssize(s) != 2 or p.off.t.get((), 0) % 8:
                continue
            v = e.lin(s.ops[0])
            n = lift(lim(e))
            F = e.at(s.block) + g
            ok = e._prove(v, F, 3) and e._prove(n - v - 1, F, 3)
            out.append(('index stored', clib.where(e.m, s, e.f), None if ok else 'the index %r stored with a distance is not shown to be the number of an item' % v, name + ':index'))
    return out


def run(R, table, floor):
    m, t = context()
    names = [n for n in cspec.TABLES[table] if n in m.functions and m.functions[n].order]
    if len(names) < floor:
        raise Lost('only %d of the functions of %s are there' % (len(names), table))
    weight = lambda n: -len(m.functions[n].loops)
    with ProcessPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
        res = list(ex.map(bounds, [(n, table) for n in sorted(names, key=weight)]))
    blocks = loops = inv = 0
    for name, out, b, l, v in res:
        blocks, loops, inv = blocks + b, loops + l, inv + v
        for kind, where, bad, key in out:
            R.ob(kind, where, name)
            if bad:
                R.violate(key, '%s: %s not shown to be inside: %s' % (name, kind, bad[:400]), where)
    R.extra['blocks'], R.extra['loops'], R.extra['loop_invariants'] = blocks, loops, inv
    R.extra['functions_without_contract'] = sorted(f.name for base, f in clib.own(m) if not any(f.name in x for x in cspec.TABLES.values()))[:120]
