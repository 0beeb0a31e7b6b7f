"""C07: every loop of the C library has a ranking expression, and no function calls itself"""
import os
from concurrent.futures import ProcessPoolExecutor
import clib, cspec, memrun, ranking, report
from report import Lost


def run():
    R = report.Report('C07', 'for every loop (in every function into which it is inlined): a linear integer expression over loop variables and values that do not change in the loop, '
                      'taken from its tests and inductive inequalities, is bounded below on every iteration that goes on and becomes smaller on every way back; the call graph '
                      'has no cycle; a loop without such an expression is the violation',
                      ['well-formed models and lengths as in C05', 'int arithmetic does not overflow', 'the loops of the sort macro (eml_qsort.h) end',
                       'stream callbacks and the C standard library return'], 'other')
    m, t = memrun.context()
    names = sorted((f.name for b, f in clib.own(m, skip=('eml_test.h',)) if f.order and f.loops), key=lambda n: -len(m.functions[n].loops))
    if len(names) < 40:
        raise Lost('only %d functions with loops found' % len(names))
    with ProcessPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
        res = list(ex.map(ranking.check, [(n,) for n in names]))
    rank = {}
    for name, out in res:
        for kind, where, bad, key, d in out:
            R.ob(kind, where, name)
            rank.setdefault(key, d)
            if bad:
                R.violate(key, '%s: %s' % (name, bad), where)
    R.extra['expressions'] = dict(sorted(rank.items())[:120])
    cycles(R)
    R.floor('loop', 200)
    R.floor('function without recursion', 60)
    return R.finish()


def cycles(R):
    m = clib.module()
    calls = {f.name: {i.callee for i in f.instrs() if i.op == 'call' and i.callee in m.functions} for f in m.functions.values() if f.order}
    for n in calls:
        seen, work = set(), list(calls[n])
        while work:
            c = work.pop()
            if c not in seen:
                seen.add(c)
                work += calls.get(c, ())
        R.ob('function without recursion', n)
        if n in seen:
            R.violate('recursion:' + n, '%s can call itself' % n, n)
