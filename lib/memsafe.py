"""Accesses of one fully inlined function against the sizes its contract gives."""
import re
import cir, clib, cc
import lin
from lin import lift, L
from bounds import Engine, Facts, Ptr, intval

PASSES = 'always-inline,function(sroa,early-cse<memssa>,simplifycfg,instsimplify,jump-threading,simplifycfg,early-cse<memssa>)'


def module(**kw):
    return clib.module(passes=PASSES, inline=True, **kw)


def accesses(eng):
    """(instruction, pointer operand, length form, what)"""
    m = eng.m
    for i in eng.f.instrs():
        if i.op == 'load':
            yield i, i.ops[0], lift(m.sizeof(i.ty)), 'read'
        elif i.op == 'store':
            yield i, i.ops[1], lift(m.sizeof(i.optys[0])), 'write'
        elif i.op == 'call':
            c = i.callee or ''
            if re.match(r'llvm\.mem(cpy|move)', c) or c in ('memcpy', 'memmove'):
                yield i, i.ops[0], eng.lin(i.ops[2]), 'write'
                yield i, i.ops[1], eng.lin(i.ops[2]), 'read'
            elif re.match(r'llvm\.memset', c) or c == 'memset':
                yield i, i.ops[0], eng.lin(i.ops[2]), 'write'
            elif c in ('emlv_read', 'emlv_write'):
                yield i, i.ops[0], eng.lin(i.ops[1]), c[5:]
            elif c == 'snprintf':
                yield i, i.ops[0], eng.lin(i.ops[1]), 'write'
            elif not c.startswith('llvm') and c.startswith('%') and len(i.ops) == 3 and i.optys[1] == 'ptr' and i.optys[2] in ('i64', 'i32'):
                yield i, i.ops[1], eng.lin(i.ops[2]), 'stream'


def sizes(eng, root):
    m = eng.m
    if root[0] == 'alloca':
        d = eng.f.defs[root[1]]
        n = intval(d.ops[0]) if d.ops else 1
        return [(Facts(), lift(m.sizeof(d.mem_ty) * (n or 1)))]
    if root[0] == 'global':
        g = m.globals.get(root[1])
        return [(Facts(), lift(m.sizeof(g.ty)))] if g is not None else None
    return eng.c.size(eng, root) if eng.c else None


def check(eng, ins, ptr, n):
    """None when the access is inside its object, else what cannot be shown"""
    F = eng.at(ins.block)
    for g, p in eng.ptrs(ptr):
        G = F + g
        if p is None:
            if eng.dead(G) or ptr in G.nonnull:
                continue
            return 'the pointer may be null'
        ss = sizes(eng, p.root)
        if ss == 'elsewhere':
            continue
        if ss is None:
            if eng.dead(G):
                continue
            return 'unknown object %s' % (p.root,)
        for h, size in ss:
            H = G + h
            if n.const is None and not eng.prove(n, H):
                return 'the length may be negative'
            if any(eng.prove(p.off, H, k) and eng.prove(size - p.off - n, H, k) for k in (3, 6)):
                continue
            if n.const is None and eng._prove(-n, H, 2, True):
                continue
            if eng.dead(H):
                continue
            return 'offset %r of %r bytes in an object of %r bytes' % (p.off, n, size)
    return None
