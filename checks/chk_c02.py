"""C02: no writable state behind the library's back."""
import clib, libc, effects
from report import Report

EXEMPT_HIDDEN = {('eml_test.h', 'strtok')}      # test-only helper around strtok, not part of the deployed library

def check(r, mod, tag):
    own = clib.own(mod)
    names = {f.name for _, f in own}
    taken = {}
    for base, f in own:
        pt = effects.get(mod, f)
        r.ob('function analysed', '%s:%s [%s]' % (base, f.name, tag), subject=f.name)
        eff = effects_of(mod)
        for ins in f.instrs():
            targets = []
            if ins.op == 'store':
                targets = [ins.ops[1]]
            elif ins.op == 'call' and ins.callee not in mod.functions and ins.callee != 'asm':
                if ins.callee is None:
                    continue        # a callback may write what it is handed; handing out globals is examined below
                targets = [ins.ops[i] for i in eff.written_args(ins)]
                if ins.callee in libc.HIDDEN and (base, ins.callee) not in EXEMPT_HIDDEN:
                    r.violate('hidden:%s:%s' % (f.name, ins.callee), '%s calls %s, which keeps state between calls' % (f.name, ins.callee), clib.where(mod, ins, f))
            for t in targets:
                r.ob('write examined', clib.where(mod, ins, f))
                for b in pt.bases(t):
                    gcheck(r, mod, f, ins, b)
        # writes through pointers handed to library functions
        for ins in f.instrs():
            if ins.op == 'call' and ins.callee in mod.functions:
                for b, w in eff.sum[ins.callee].items():
                    if b[0][0] == 'param':
                        for c in effects.subst(pt, ins, b):
                            r.ob('write through a callee examined')
                            gcheck(r, mod, f, ins, c, ' through ' + ins.callee)
    for g in mod.globals.values():
        if not g.const and not g.name.startswith('llvm.'):
            r.ob('mutable global', g.name)

_e = {}
def effects_of(mod):
    if id(mod) not in _e:
        _e[id(mod)] = effects.Effects(mod)
    return _e[id(mod)]

def gcheck(r, mod, f, ins, b, via=''):
    root, path, off = b
    if root[0] == 'global':
        g = mod.globals.get(root[1])
        if g is None or (g.const and not path):
            return
        if g.name.startswith('.str') or g.linkage == 'external' and g.init == '':
            if not path:
                return
        if path and g.const:
            pass
        r.violate('write:%s:%s' % (f.name, root[1]), '%s writes %s, which outlives the call%s' % (f.name, root[1], via), clib.where(mod, ins, f))

def run():
    r = Report('C02', 'points-to analysis of every store and every writing library call: no written location is rooted in a global or '
               'static object, and no called C library function keeps state of its own',
               ['pointers loaded from caller memory do not point at the library\'s own globals (those are const)'])
    for cfg in ('default', 'log', 'debug'):
        check(r, clib.module(cfg, passes='function(sroa)'), cfg)
    r.floor('function analysed', 270)
    r.floor('write examined', 380)
    return r.finish()
