"""C04: silent, does not end the process, does not read the environment or the clock."""
import re
import clib, libc, effects
from report import Report, Lost

EXEMPT = {('eml_benchmark.h', 'gettimeofday')}   # measuring time is what this header is for

def check(r, mod, tag):
    for base, f in clib.own(mod, skip=('eml_test.h',)):
        r.ob('function analysed', '%s:%s [%s]' % (base, f.name, tag), subject=f.name)
        pt = effects.get(mod, f)
        for ins in f.instrs():
            for o in ins.ops:
                if o in ('@stdout', '@stderr', '@stdin', '@environ') :
                    r.violate('stream:%s:%s' % (f.name, o), '%s uses the process stream %s' % (f.name, o[1:]), clib.where(mod, ins, f))
            if ins.op == 'unreachable':
                prev = [i for i in f.blocks[ins.block].instrs if i.op == 'call']
                if not prev:
                    continue
            if ins.op != 'call' or ins.callee in (None, 'asm'):
                continue
            c = ins.callee
            if c in mod.functions:
                fil, _ = mod.fn_decl(mod.functions[c])
                if not fil.startswith('/repo') and 'emlearn' not in fil:
                    if c in libc.STDIO or c in ('getchar', 'putchar', 'putchar_unlocked', 'putc_unlocked'):
                        r.violate('stdio:%s:%s' % (f.name, c), '%s calls %s' % (f.name, c), clib.where(mod, ins, f))
                r.ob('library call')
                continue
            if not c.startswith('llvm.dbg'):
                r.ob('external call', '%s -> %s' % (f.name, c))
            if (base, c) in EXEMPT:
                continue
            if c in libc.STDIO:
                k = libc.STDIO_ON_HANDLE.get(c)
                ok = False
                if k is not None and k < len(ins.ops):
                    bs = pt.bases(ins.ops[k])
                    ok = bool(bs) and all(b[0][0] in ('param', 'byval', 'null') for b in bs)
                    r.ob('stdio on a caller-supplied handle', clib.where(mod, ins, f))
                if not ok:
                    r.violate('stdio:%s:%s' % (f.name, c), '%s performs I/O of its own through %s' % (f.name, c), clib.where(mod, ins, f))
            elif c in libc.ENDS:
                r.violate('ends:%s:%s' % (f.name, c), '%s can end the process through %s' % (f.name, c), clib.where(mod, ins, f))
            elif c in libc.ENV or c in libc.TIME:
                r.violate('env:%s:%s' % (f.name, c), '%s depends on the environment or clock through %s' % (f.name, c), clib.where(mod, ins, f))
            elif not c.startswith('llvm.') and c not in libc.KNOWN:
                raise Lost('unclassified external function %s called by %s' % (c, f.name))

def run():
    r = Report('C04', 'every call leaving the library (default configuration, compiled as C and as C++) is classified; none is a stream, '
               'environment, clock or process-ending function, except stdio on a FILE handle that is a parameter of the function',
               ['eml_test.h (test support) and the time source of eml_benchmark.h are outside the property',
                'NDEBUG is not defined: assert() counts as ending the process'])
    check(r, clib.module('default', passes='function(sroa)'), 'c')
    check(r, clib.module('default', lang='cpp', passes='function(sroa)'), 'c++')
    r.floor('function analysed', 180)
    r.floor('external call', 60)
    return r.finish()
