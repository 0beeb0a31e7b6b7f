"""B01: the compiled Python extensions hand only checked arrays to the C code and turn every failure into an exception"""
import os, re
from concurrent.futures import ProcessPoolExecutor
import cc, cir, clib, report, errflow, binding, bands, memsafe
from bounds import Engine
from contracts import Types
from report import Lost

PASSES = 'always-inline,function(sroa,early-cse<memssa>,simplifycfg)'


def where(m, i, f):
    return clib.where(m, i, f)


def entry(job):
    src, fns, name = job
    h, en = binding.harness([x for x in fns if 'emlv_entry_' + x[0] == name])
    m = binding.compiled(src, h, memsafe.PASSES, True)
    t = Types(m)
    f = m.functions[name]
    e = Engine(m, f, binding.Con(t, f, en[name]))
    out = []
    for i, p, n, w in memsafe.accesses(e):
        r = memsafe.check(e, i, p, n)
        wh = where(m, i, f)
        what = {'read': 'read', 'write': 'write'}.get(w, w)
        out.append(('%s inside its array' % what, wh, r and '%s not shown to be inside: %s' % (what, r[:300]), '%s:%s:%s' % (name[11:], wh[wh.rfind('('):], what)))
    for i in f.instrs():
        if i.op == 'call' and (i.callee or '') == 'emlv_bands':
            for kind, r in zip(('bands lie inside the input', 'coefficients suffice for the bands'), bands.check(e, i, memsafe.sizes)):
                out.append((kind, where(m, i, f), r, '%s:%s' % (name[11:], kind)))
        elif i.op == 'call' and (i.callee or '') == 'emlv_kept':
            types = [t for n, t in fns if 'emlv_entry_' + n == name][0]
            pos, at = [], 0
            for t in types:
                pos.append(at)
                at += 4 if (t or '').startswith('array_t') else 1
            for text, forms in binding.relations(name[11:], types, lambda k, part: e.c.safe(e, pos[k] + part)) or ():
                ok = all(e.prove(x, i.block, 4) for x in forms)
                out.append(('relation at the return', name[11:] + ': ' + text, None if ok else 'the function may return although not: %s' % text, '%s:%s' % (name[11:], text)))
        elif i.op == 'call' and (i.callee or '') == 'emlv_push':
            raise Lost('a vector of %s grows step by step' % name)
    return name, out, len(f.blocks), sum(len(v) for v in e.inv.values())


def statuses(R, src, fns):
    """no failing call of the library returns normally"""
    h, en = binding.harness(fns)
    m = binding.compiled(src, h, PASSES, 'own', models=False)
    E = errflow.Engine(m)
    E.classify(clib.own(m, skip=('eml_test.h', 'eml_benchmark.h')))
    for name in en:
        f = m.functions[name]
        for ins in list(f.instrs()):
            if ins.op != 'call' or (ins.callee or '').startswith('llvm.') or ins.callee == 'asm':
                continue
            if not re.match(r'eml_', ins.callee or ''):
                continue
            fl = E.failures(f, ins)
            R.ob('library call', '%s -> %s' % (name[11:], ins.callee), name)
            for label, kind, v in fl or ():
                paths = E.explore(f, ins, v)
                R.ob('failing call followed', '%s -> %s = %s' % (name[11:], ins.callee, label))
                if paths:
                    R.violate('status:%s:%s' % (name[11:], ins.callee), '%s returns a result although %s reported failure (%s)' % (name[11:], ins.callee, label), where(m, ins, f))


def run():
    R = report.Report('B01', 'The sources of both extensions are compiled against stand-ins for pybind11 arrays and std::vector whose sizes are known to the analysis; for arrays of any '
                      'number of dimensions and any lengths and any integer arguments, every access in the binding and in the C code it calls (inlined) is inside its array, band limits and '
                      'coefficient counts are checked before they are used as indices, and every failing call of the C library ends in an exception of a standard type.',
                      ['arrays have fewer than 2^27 elements per dimension', 'shape(k) raises for k >= ndim; std::vector and array_t raise for negative sizes',
                       'inside eml_fft_forward and eml_sparse_filterbank: the obligations are what these need from their caller (index contents, lengths)'])
    srcs = binding.sources()
    if len(srcs) < 2:
        raise Lost('bindings %r' % srcs)
    jobs = []
    for s in srcs:
        try:
            fns = binding.exported(s)
        except cc.CompileError as x:
            if 'emlv_exception_type' in str(x):
                R.violate('exception:%s' % os.path.basename(s), 'something that is not a standard exception is thrown: pybind11 cannot turn it into a Python exception',
                          re.sub(r'\s+', ' ', str(x))[-300:])
                continue
            raise
        for n, t in fns:
            R.ob('exported function', n, os.path.basename(s))
        statuses(R, s, fns)
        jobs += [(s, fns, 'emlv_entry_' + n) for n, t in fns]
    with ProcessPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
        for name, out, b, inv in ex.map(entry, jobs):
            R.ob('block analysed', n=b)
            R.ob('loop invariant', n=inv)
            for kind, wh, bad, key in out:
                R.ob(kind, wh, name)
                if bad:
                    R.violate(key, '%s: %s' % (name[11:], bad), wh)
    R.floor('exported function', 5)
    R.floor('bands lie inside the input', 1)
    R.floor('failing call followed', 6)
    R.floor('relation at the return', 10)
    R.floor('read inside its array', 30)
    R.floor('write inside its array', 15)
    return R.finish()
