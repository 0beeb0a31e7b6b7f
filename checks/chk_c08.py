"""C08: on every path after a failing call (library status, negative result, I/O callback), the caller reports an error"""
import clib, cc, report, errflow, effects

EXPECT_FALLIBLE = 40

def order(mod, fns):
    g = effects.callgraph(mod)
    out, seen = [], set()
    by = {f.name: (b, f) for b, f in fns}
    def go(n, depth=0):
        if n in seen or n not in by:
            return
        seen.add(n)
        for m in sorted(g.get(n, ())):
            go(m, depth + 1)
        out.append(by[n])
    for n in by:
        go(n)
    return out

def analyse(R, config='default', skip=('eml_test.h', 'eml_benchmark.h')):
    mod = clib.module(config, passes=cc.SSA)
    E = errflow.Engine(mod)
    fns = clib.own(mod, skip=skip)
    E.classify(fns)
    R.ob('fallible function (%s)' % config, n=len(E.kinds))
    for base, f in order(mod, fns):
        R.ob('function analysed', f.name, f.name)
        rt = E.ret_type(f)
        helper = f.name not in E.kinds and rt not in errflow.ERR_ENUMS and rt not in ('float', 'double')
        freturns = []
        for ins in list(f.instrs()):
            if ins.op != 'call' or (ins.callee or '').startswith('llvm.') or ins.callee == 'asm':
                continue
            fl = E.failures(f, ins)
            if fl is None:
                R.ob('indirect call not identified', '%s %s' % (f.name, ins.pred))
                continue
            for label, kind, v in fl:
                name = ins.callee or E.callback_kind(f, ins)
                R.ob('failing call followed', '%s -> %s = %s' % (f.name, name, label))
                paths = E.explore(f, ins, v)
                R.ob('path to a return', n=len(paths))
                for rv, ret, trail in paths:
                    if helper:
                        freturns.append((rv, ins, name, label))
                        continue
                    w = E.verdict(f, rv)
                    if w:
                        R.violate('drop:%s:%s' % (f.name, name),
                                  '%s returns %s although %s reported failure (%s)' % (f.name, w, name, label), clib.where(mod, ins, f))
        if helper and freturns:
            vals = set()
            for rv, ins, name, label in freturns:
                if isinstance(rv, tuple) and len(rv) == 2 and rv[0] == rv[1]:
                    vals.add(rv[0])
                else:
                    R.violate('drop:%s:%s' % (f.name, name), '%s cannot report that %s failed (%s): it returns %s'
                              % (f.name, name, label, 'nothing' if rv == 'void' else 'an unrelated value'), clib.where(mod, ins, f))
            if vals:
                # does the helper return the same value without a failure?  then the failure is indistinguishable
                ok, _ = E.returned_consts(f)
                if rt in ('bool', '_Bool') or all(x < 0 for x in vals) or rt.endswith('*'):
                    E.kinds[f.name] = ('status', sorted(vals))
                else:
                    R.violate('drop:%s' % f.name, '%s reports failure of a call as the ordinary value %s' % (f.name, sorted(vals)), f.name)
    return mod, E

def run():
    R = report.Report('C08', 'Every call site of a fallible function or I/O callback: assuming the failure value, constant/interval '
                      'propagation along all control-flow paths of the caller shows that every return reports an error '
                      '(status: nonzero; class/count functions: negative; float: NaN).',
                      ['I/O callbacks report failure as documented in eml_io.h (read/write negative or short, seek nonzero)',
                       'eml_test.h and eml_benchmark.h (test support) are outside'])
    analyse(R)
    R.floor('failing call followed', 60)
    R.floor('fallible function (default)', EXPECT_FALLIBLE)
    return R.finish()
