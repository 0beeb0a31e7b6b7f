"""C09: at every return that may mean success the documented relation between lengths and the model is proved"""
import os
from concurrent.futures import ProcessPoolExecutor
import cspec, guards, memrun, report
from report import Lost


def run():
    R = report.Report('C09', 'for every function of the table (what success looks like, which relations success must imply): at every return whose value can mean success the '
                      'relations follow (Fourier-Motzkin) from the branch conditions and loop inequalities of the fully inlined function; a return without them is the violation',
                      ['the table of documented relations (lib/cspec.py GUARDS)', 'lengths of type size_t are at most 2^31-1', 'int arithmetic does not overflow'], 'other')
    m, t = memrun.context()
    names = [n for n in cspec.GUARDS if n in m.functions and m.functions[n].order]
    if len(names) < 24:
        raise Lost('only %d of the functions with lengths are there' % len(names))
    with ProcessPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
        res = list(ex.map(guards.check, [(n,) for n in sorted(names, key=lambda n: -len(m.functions[n].loops))]))
    for name, n, out in res:
        for kind, where, bad, key, msg in out:
            R.ob(kind, where, name)
            if kind == 'condition' and bad:
                R.violate(key, '%s: %s' % (msg, bad[:200]), where)
    R.floor('condition', 60)
    return R.finish()
