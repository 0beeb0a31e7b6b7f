"""C01: no heap, no recursion, no runtime-sized stack."""
import re
import clib, libc, cir, effects
from report import Report, Lost

PASSES = 'function(sroa,sccp,instsimplify)'

def addr_taken(mod):
    out = set()
    for g in mod.globals.values():
        for n in re.findall(r'@([\w.$]+)', g.init or ''):
            if n in mod.functions:
                out.add(n)
    for f in mod.functions.values():
        for ins in f.instrs():
            for o in ins.ops:
                for n in re.findall(r'@([\w.$]+)', o):
                    if n in mod.functions:
                        out.add(n)
    return out

def check(r, mod, tag):
    own = clib.own(mod)
    names = {f.name for _, f in own}
    taken = addr_taken(mod)
    g = {}
    for base, f in own:
        r.ob('function analysed', '%s:%s [%s]' % (base, f.name, tag), subject=f.name)
        g[f.name] = set()
        for ins in f.instrs():
            if ins.op == 'alloca':
                r.ob('stack allocation', clib.where(mod, ins, f))
                if ins.ops and not re.match(r'^\d+$', ins.ops[0]):
                    r.violate('vla:%s' % f.name, '%s has a stack allocation of runtime-dependent size' % f.name, clib.where(mod, ins, f))
            elif ins.op == 'call':
                c = ins.callee
                if c is None:
                    r.ob('indirect call', clib.where(mod, ins, f))
                    for t in taken:
                        if t in names and len(mod.functions[t].params) == len(ins.ops) and \
                                [p[1] for p in mod.functions[t].params] == ins.optys:
                            g[f.name].add(t)
                    continue
                if c == 'asm':
                    continue
                if c in mod.functions:
                    g[f.name].add(c)
                    continue
                if c.startswith('llvm.dbg'):
                    continue
                r.ob('call outside the library', '%s -> %s' % (f.name, c))
                if c in libc.ALLOC:
                    r.violate('alloc:%s:%s' % (f.name, c), '%s calls %s, which allocates or frees memory' % (f.name, c), clib.where(mod, ins, f))
                elif not c.startswith('llvm.') and c not in libc.KNOWN:
                    if 'operator new' in c or c.startswith(('_Zn', '_Zd')) or re.search(r'alloc|strdup', c):
                        r.violate('alloc:%s:%s' % (f.name, c), '%s calls %s, which allocates or frees memory' % (f.name, c), clib.where(mod, ins, f))
                    else:
                        raise Lost('unclassified external function %s called by %s' % (c, f.name))
    # bodies pulled from system headers (atoi, bsearch...) count as library code once reached
    for n in list(g):
        for t in list(g[n]):
            if t not in g:
                g[t] = {i.callee for i in mod.functions[t].instrs() if i.op == 'call' and i.callee in mod.functions}
    for c in effects.cycles(g):
        r.violate('recursion:' + '/'.join(sorted(c)), 'recursive call cycle: ' + ' -> '.join(sorted(c)), tag)

def run():
    r = Report('C01', 'every call of every library function is classified: direct library calls form an acyclic call graph, calls leaving the '
               'library go only to functions known not to touch the heap, and every stack allocation has a constant size',
               ['C standard library functions listed as pure/stdio in lib/libc.py do not call back into the library',
                'callbacks supplied by the application are not library code'])
    for cfg in ('default', 'log', 'debug', 'trace'):
        check(r, clib.module(cfg, passes=PASSES), cfg)
    check(r, clib.module('default', lang='cpp', passes=PASSES), 'c++')
    r.floor('function analysed', 400)
    r.floor('call outside the library', 100)
    return r.finish()
