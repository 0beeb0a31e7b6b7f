"""Failure-propagation analysis: assume that one fallible call failed, follow every path of the caller forward with
constant/interval propagation of what the failure value decides, and look at what each return reports.

Nothing is executed and no solver is used: a branch whose condition is not decided by the assumed failure value is
explored on both sides."""
import re
import cc, cir, clib, report

ERR_ENUMS = ('EmlError', '_EmlError', 'EmlTreesError', '_EmlTreesError')
# integer functions whose result is a class / decision / count / length: errors are negative
VALUE_FNS = ('eml_trees_predict', 'eml_net_predict', 'eml_net_argmax', 'eml_argmax_fixed32', 'eml_bayes_predict',
             'eml_elliptic_envelope_predict', 'eml_csv_reader_read_data', 'eml_mixture_precisions_length')
# integer functions whose result is a status spelled as a negative error code
NEG_STATUS_FNS = ('eml_mixture_log_proba', 'eml_mixture_predict_log_proba', 'eml_mixture_score', 'eml_vector_set')
CALLBACKS = {'EmlIoReadFunction': 'read', 'EmlIoWriteFunction': 'write', 'EmlIoSeekFunction': 'seek'}
NANS = re.compile(r'^0x7FF8|^0xFFF8')

def bits(t):
    m = re.match(r'^i(\d+)$', t or '')
    return int(m.group(1)) if m else None

def wrap(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v

class Short:
    """a transfer count that differs from the size requested: negative, or between 0 and size-1"""
    def __init__(self, size, neg):
        self.size, self.neg = size, neg
        self.iv = (-2 ** 31, -1) if neg else (0, 2 ** 31 - 2)
    def __repr__(self):
        return 'short(%s,%s)' % (self.size, self.neg)
    def __eq__(self, o):
        return isinstance(o, Short) and (o.size, o.neg) == (self.size, self.neg)
    def __hash__(self):
        return hash(('short', self.size, self.neg))

class Nan:
    def __eq__(self, o):
        return isinstance(o, Nan)
    def __hash__(self):
        return 7
NAN = Nan()

class Engine:
    def __init__(self, mod):
        self.mod = mod
        self.kinds = {}
        self.enum_max = self._enum_max()
        self.watch = None       # called with (function, call, values): ('end', value) ends the path, ('flag', name) marks it
        self.ends = []          # (value, call, trail) of the paths ended by watch
        self.flagged = []       # flags of each path returned by the last exploration, in its order

    def _enum_max(self):
        out = {}
        for mid, t in self.mod.meta.items():
            if 'DW_TAG_enumeration_type' in t:
                n = self.mod._mfield(t, 'name')
                if n in ERR_ENUMS:
                    el = self.mod._mfield(t, 'elements')
                    vals = []
                    for r in re.findall(r'!(\d+)', self.mod.meta.get(el, '')):
                        vals.append(int(self.mod._mfield(self.mod.meta[r], 'value')))
                    out[n.lstrip('_')] = max(vals)
        return out

    def ret_type(self, f):
        t = self.mod.fn_types(f)
        return t[0] if t else 'void'

    # ---------------------------------------------------------------- values
    def root(self, f, v):
        """strip integer casts and freeze"""
        k = 0
        while k < 20:
            d = f.defs.get(v)
            if d is not None and d.op in ('zext', 'sext', 'trunc', 'freeze'):
                v = d.ops[0]
            else:
                return v
            k += 1
        return v

    def const(self, v, ty):
        if v in ('true', 'false'):
            return (1, 1) if v == 'true' else (0, 0)
        if re.match(r'^-?\d+$', v) and bits(ty):
            w = bits(ty)
            x = wrap(int(v), w) if w > 1 else int(v) & 1
            return (x, x)
        if v == 'null':
            return (0, 0)
        if NANS.match(v):
            return NAN
        return None

    def val(self, env, v, ty):
        if v.startswith('%'):
            return env.get(v)
        return self.const(v, ty)

    def step(self, f, env, ins):
        """abstract result of one instruction, None when the failure does not decide it"""
        op = ins.op
        g = lambda k: self.val(env, ins.ops[k], ins.optys[k])
        tainted = any(o in env for o in ins.ops)
        if op == 'freeze':
            return g(0)
        if not tainted:
            return None
        a = g(0)
        if op in ('zext', 'sext', 'trunc'):
            if a is None or isinstance(a, (Short, Nan)):
                return a
            w, w2 = bits(ins.optys[0]), bits(ins.ty)
            if op == 'zext':
                if w == 1:
                    return a
                if a[0] < 0 <= a[1]:
                    return (0, (1 << w) - 1)
                return tuple(x & ((1 << w) - 1) for x in a)
            if op == 'sext':
                return tuple(-x for x in a)[::-1] if w == 1 else a
            if w2 == 1:
                return (a[0] & 1, a[0] & 1) if a[0] == a[1] else None
            lim = 1 << (w2 - 1)
            if -lim <= a[0] and a[1] < lim:
                return a
            if a[0] == a[1]:
                x = wrap(a[0], w2)
                return (x, x)
            return None
        if op in ('fpext', 'fptrunc', 'fneg'):
            if isinstance(a, tuple) and len(a) == 2:
                return tuple(-x for x in a)[::-1] if op == 'fneg' else a
            return a if isinstance(a, Nan) else None
        if op == 'sitofp':
            return a if isinstance(a, tuple) and len(a) == 2 else None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return NAN if isinstance(a, Nan) or isinstance(g(1), Nan) else None
        if op == 'fptosi':
            return a if isinstance(a, tuple) and len(a) == 2 else None
        if op == 'fcmp':
            return self.fcmp(env, ins)
        if op in ('add', 'sub', 'mul', 'xor', 'and', 'or'):
            b = g(1)
            w = bits(ins.ty)
            if isinstance(a, (Short, Nan)) or isinstance(b, (Short, Nan)) or w is None:
                return None
            if w == 1:
                if a and b:
                    x, y = a[0], b[0]
                    if a[0] != a[1] or b[0] != b[1]:
                        return None
                    r = {'and': x & y, 'or': x | y, 'xor': x ^ y, 'add': x ^ y, 'sub': x ^ y, 'mul': x & y}[op]
                    return (r, r)
                for x in (a, b):
                    if x == (0, 0) and op in ('and', 'mul'):
                        return (0, 0)
                    if x == (1, 1) and op == 'or':
                        return (1, 1)
                return None
            if op == 'or' and (a is None or b is None):
                x = a or b     # or-ing something nonzero in stays nonzero
                if x and (x[0] > 0):
                    return ('nz',)
                return None
            if a is None or b is None or len(a) == 1 or len(b) == 1:
                return None
            if op == 'add':
                r = (a[0] + b[0], a[1] + b[1])
            elif op == 'sub':
                r = (a[0] - b[1], a[1] - b[0])
            elif op == 'mul':
                c = [x * y for x in a for y in b]
                r = (min(c), max(c))
            else:
                if a[0] != a[1] or b[0] != b[1]:
                    return ('nz',) if op == 'or' and (a[0] > 0 or b[0] > 0) else None
                r = {'xor': a[0] ^ b[0], 'and': a[0] & b[0], 'or': a[0] | b[0]}[op]
                r = (r, r)
            lim = 1 << (w - 1)
            if -lim <= r[0] and r[1] < lim:
                return r
            if op == 'sub' and ins.ops[0] == '0' and a == (0, 0) and r[1] == lim:
                return (r[0], lim - 1)     # negating the most negative value: not a reachable error code
            return None
        if op == 'icmp':
            return self.icmp(f, env, ins)
        if op == 'select':
            c = g(0)
            x, y = g(1), g(2)
            if c == (1, 1):
                return x
            if c == (0, 0):
                return y
            return self.join(x, y)
        return None

    def join(self, x, y):
        if x is None or y is None:
            return None
        if x == y:
            return x
        if isinstance(x, (Short, Nan)) or isinstance(y, (Short, Nan)):
            return None
        if len(x) == 1 or len(y) == 1:
            z = lambda v: len(v) == 1 or v[0] > 0 or v[1] < 0
            return ('nz',) if z(x) and z(y) else None
        if (x[0] > 0 and y[1] < 0) or (y[0] > 0 and x[1] < 0):
            return ('nz',)
        return (min(x[0], y[0]), max(x[1], y[1]))

    def fcmp(self, env, ins):
        def get(k):
            v = ins.ops[k]
            if v.startswith('%'):
                return env.get(v)
            if re.match(r'^-?\d+\.\d+e[+-]\d+$', v):
                return (float(v), float(v))
            return self.const(v, ins.optys[k])
        a, b = get(0), get(1)
        p = ins.pred
        if p in ('true', 'false'):
            return (1, 1) if p == 'true' else (0, 0)
        if isinstance(a, Nan) or isinstance(b, Nan):
            return (1, 1) if p[0] == 'u' else (0, 0)
        if p in ('ord', 'uno') or not (a and b) or isinstance(a, Short) or isinstance(b, Short) or len(a) == 1 or len(b) == 1:
            return None
        q = p[1:]
        T, F = (1, 1), (0, 0)
        if q in ('eq', 'ne'):
            if a[1] < b[0] or b[1] < a[0]:
                return F if q == 'eq' else T
            return (T if q == 'eq' else F) if a[0] == a[1] == b[0] == b[1] else None
        if q in ('gt', 'ge'):
            a, b, q = b, a, 'lt' if q == 'gt' else 'le'
        if q == 'lt':
            return T if a[1] < b[0] else F if a[0] >= b[1] else None
        return T if a[1] <= b[0] else F if a[0] > b[1] else None

    def icmp(self, f, env, ins):
        p = ins.pred
        a, b = (self.val(env, ins.ops[k], ins.optys[k]) for k in (0, 1))
        T, F = (1, 1), (0, 0)
        for x, other, sw in ((a, 1, False), (b, 0, True)):
            if isinstance(x, Short):
                if self.root(f, ins.ops[other]) == x.size:
                    q = p
                    if sw:
                        q = p.replace('gt', 'L').replace('lt', 'gt').replace('L', 'lt') if p[-2:] in ('gt', 'lt') else \
                            p.replace('ge', 'L').replace('le', 'ge').replace('L', 'le')
                    if q in ('eq', 'ne'):
                        return F if q == 'eq' else T
                    less = not (q[0] == 'u' and x.neg)       # a negative count is a huge unsigned one
                    return T if (q[1:] in ('lt', 'le')) == less else F
        a, b = (x.iv if isinstance(x, Short) else x for x in (a, b))
        if isinstance(a, (Short, Nan)) or isinstance(b, (Short, Nan)):
            return None
        if a is None or b is None:
            return None
        for x, y in ((a, b), (b, a)):
            if len(x) == 1:
                if y == (0, 0) and p in ('eq', 'ne'):
                    return F if p == 'eq' else T
                return None
        if p in ('eq', 'ne'):
            if a[1] < b[0] or b[1] < a[0]:
                return F if p == 'eq' else T
            if a[0] == a[1] == b[0] == b[1]:
                return T if p == 'eq' else F
            return None
        if p[0] == 'u':
            w = bits(ins.optys[0]) or 64
            def uns(v):
                if v[0] < 0 <= v[1]:
                    return None
                return tuple(x & ((1 << w) - 1) for x in v)
            a, b = uns(a), uns(b)
            if a is None or b is None:
                return None
        q = p[1:]
        if q == 'lt':
            return T if a[1] < b[0] else F if a[0] >= b[1] else None
        if q == 'le':
            return T if a[1] <= b[0] else F if a[0] > b[1] else None
        if q == 'gt':
            return T if a[0] > b[1] else F if a[1] <= b[0] else None
        if q == 'ge':
            return T if a[0] >= b[1] else F if a[1] < b[0] else None
        return None

    # ---------------------------------------------------------------- exploration
    def explore(self, f, call, value, limit=20000):
        """yield (value returned or None, return instruction, block trail) for every path on which call gave value"""
        for b in f.order:
            for k, i in enumerate(f.blocks[b].instrs):
                if i is call:
                    return self.paths(f, b, k + 1, {call.res: value} if call.res else {}, limit)
        raise report.Lost('call not found in ' + f.name)

    def paths(self, f, b0, k0, start, limit=20000):
        seen = set()
        n = 0
        out = []
        hist = {}
        self.flagged = []
        live = self.liveness(f)
        work = [(b0, k0, start, {}, (b0,))]
        while work:
            b, k, env, mem, trail = work.pop()
            n += 1
            if n > limit:
                raise report.Lost('too many paths in ' + f.name)
            env, mem = dict(env), dict(mem)
            blk = f.blocks[b]
            done = False
            for ins in blk.instrs[k:]:
                if ins.op == 'phi':
                    continue        # handled on the edge
                if ins.op == 'ret':
                    v = self.val(env, ins.ops[0], ins.optys[0]) if ins.ops else 'void'
                    out.append((v, ins, trail))
                    self.flagged.append({x[1:] for x in env if x[0] == '!'})
                    done = True
                    break
                if ins.op == 'unreachable':
                    done = True
                    break
                if ins.op in ('br', 'switch'):
                    break
                if ins.op == 'store':
                    p = ins.ops[1]
                    d = f.defs.get(p)
                    if not (d is not None and d.op == 'alloca'):
                        for q in list(mem):
                            dq = f.defs.get(q)
                            if not (dq is not None and dq.op == 'alloca'):
                                del mem[q]
                    v = self.val(env, ins.ops[0], ins.optys[0])
                    if v is None:
                        mem.pop(p, None)
                    else:
                        mem[p] = v
                    continue
                if ins.op == 'load':
                    v = mem.get(ins.ops[0])
                elif ins.op == 'call':
                    if ins.callee and ins.callee.startswith('llvm.dbg'):
                        continue
                    if not (ins.callee and ins.callee.startswith('llvm.')):
                        for q in list(mem):
                            dq = f.defs.get(q)
                            if q in ins.ops or not (dq is not None and dq.op == 'alloca'):
                                del mem[q]
                    if self.watch:
                        w = self.watch(f, ins, [self.val(env, o, ty) for o, ty in zip(ins.ops, ins.optys)])
                        if w and w[0] == 'end':
                            self.ends.append((w[1], ins, trail))
                            done = True
                            break
                        if w and w[0] == 'flag':
                            env['!' + w[1]] = (1, 1)
                    v = None
                    if ins.callee and ins.res and any(o in env for o in ins.ops):
                        v = self.call_through(ins, env)
                else:
                    v = self.step(f, env, ins)
                if ins.res:
                    if v is None:
                        env.pop(ins.res, None)
                    else:
                        env[ins.res] = v
            if done:
                continue
            t = blk.term
            if t.op == 'br':
                if len(t.targets) == 1:
                    succ = list(t.targets)
                else:
                    c = self.val(env, t.ops[0], 'i1')
                    succ = [t.targets[0]] if c == (1, 1) else [t.targets[1]] if c == (0, 0) else list(dict.fromkeys(t.targets))
            elif t.op == 'switch':
                c = self.val(env, t.ops[0], t.optys[0])
                if c is not None and not isinstance(c, (Short, Nan)) and len(c) == 2 and c[0] == c[1]:
                    hit = [tt for cv, tt in self.cases(t) if cv == c[0]]
                    succ = hit or [t.targets[0]]
                else:
                    succ = list(dict.fromkeys(t.targets))
            else:
                continue
            for s in succ:
                e2 = dict(env)
                new = {}
                for ins in f.blocks[s].instrs:
                    if ins.op != 'phi':
                        break
                    for v, pb in ins.incoming:
                        if pb == b:
                            new[ins.res] = self.val(env, v, ins.ty)
                for r, v in new.items():
                    if v is not None:
                        h = hist.setdefault(r, set())
                        h.add(v)
                        if len(h) > 8:
                            v = None
                    if v is None:
                        e2.pop(r, None)
                    else:
                        e2[r] = v
                e2 = {x: y for x, y in e2.items() if x in live[s] or x[0] == '!'}
                key = (s, tuple(sorted((x, repr(y)) for x, y in e2.items())), tuple(sorted((x, repr(y)) for x, y in mem.items())))
                if key in seen:
                    continue
                seen.add(key)
                work.append((s, 0, e2, mem, trail + (s,) if len(trail) < 60 else trail))
        return out

    def cases(self, t):
        return [(int(v), tg) for v, tg in re.findall(r'i\d+ (-?\d+), label %([\w.$-]+|"[^"]*")', t.raw)]

    def call_through(self, ins, env):
        """pure helpers on statuses: interpret eml_*-style predicates with a constant argument"""
        g = self.mod.functions.get(ins.callee)
        if g is None or len(g.order) > 12:
            if ins.callee in ('abs', 'labs') or (ins.callee or '').startswith('llvm.abs'):
                a = self.val(env, ins.ops[0], ins.optys[0])
                if a and not isinstance(a, (Short, Nan)) and len(a) == 2:
                    return a if a[0] >= 0 else (-a[1], -a[0]) if a[1] <= 0 else None
            return None
        if any(i.op in ('store', 'load', 'call') and not (i.callee or '').startswith('llvm.') for i in g.instrs()):
            return None
        e = {}
        for (pn, pt, _), o, t in zip(g.params, ins.ops, ins.optys):
            v = self.val(env, o, t)
            if v is not None:
                e[pn] = v
        rets = self.run(g, e)
        r = None
        for k, x in enumerate(rets):
            r = x if k == 0 else self.join(r, x)
        return r

    def run(self, g, env, limit=2000):
        """returns of a pure function under env"""
        out, work, n, seen = [], [(g.order[0], env)], 0, set()
        while work:
            b, env = work.pop()
            n += 1
            if n > limit:
                return [None]
            env = dict(env)
            for ins in g.blocks[b].instrs:
                if ins.op == 'phi' or not ins.res:
                    continue
                v = self.step(g, env, ins) if ins.op not in ('call', 'load') else None
                if v is None:
                    env.pop(ins.res, None)
                else:
                    env[ins.res] = v
            t = g.blocks[b].term
            if t.op == 'ret':
                out.append(self.val(env, t.ops[0], t.optys[0]) if t.ops else None)
                continue
            succ = list(dict.fromkeys(t.targets))
            if t.op == 'br' and len(t.targets) == 2:
                c = self.val(env, t.ops[0], 'i1')
                succ = [t.targets[0]] if c == (1, 1) else [t.targets[1]] if c == (0, 0) else succ
            elif t.op == 'switch':
                c = self.val(env, t.ops[0], t.optys[0])
                if c is not None and not isinstance(c, (Short, Nan)) and len(c) == 2 and c[0] == c[1]:
                    succ = [tt for cv, tt in self.cases(t) if cv == c[0]] or [t.targets[0]]
            for s in succ:
                e2 = dict(env)
                for ins in g.blocks[s].instrs:
                    if ins.op != 'phi':
                        break
                    for v, pb in ins.incoming:
                        if pb == b:
                            x = self.val(env, v, ins.ty)
                            if x is None:
                                e2.pop(ins.res, None)
                            else:
                                e2[ins.res] = x
                key = (s, tuple(sorted((x, repr(y)) for x, y in e2.items())))
                if key not in seen:
                    seen.add(key)
                    work.append((s, e2))
        return out or [None]

    def liveness(self, f):
        """names that can still be used in or after a block (including its phis)"""
        use = {}
        for b in f.order:
            use[b] = {o for i in f.blocks[b].instrs for o in i.ops if o.startswith('%')} | \
                     {i.res for i in f.blocks[b].instrs if i.op == 'phi'}
        out = {b: set(use[b]) for b in f.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                for s in f.blocks[b].succs:
                    if not out[s] <= out[b]:
                        out[b] |= out[s]
                        ch = True
        return out

    # ---------------------------------------------------------------- classification
    def returned_consts(self, f):
        """constants a function can return directly; None in the set when something else can be returned; calls listed"""
        out, calls = set(), []
        seen = set()
        def walk(v, ty):
            if v in seen:
                return
            seen.add(v)
            c = self.const(v, ty) if not v.startswith('%') else None
            if c is not None:
                out.add(c[0] if isinstance(c, tuple) else 'nan')
                return
            d = f.defs.get(v)
            if d is None:
                out.add(None)
            elif d.op == 'phi':
                for x, _ in d.incoming:
                    walk(x, d.ty)
            elif d.op == 'select':
                walk(d.ops[1], d.ty)
                walk(d.ops[2], d.ty)
            elif d.op in ('zext', 'sext', 'trunc', 'freeze') and bits(d.optys[0]) != 1:
                walk(d.ops[0], d.optys[0])
            elif d.op == 'call' and d.callee in self.mod.functions:
                calls.append(d)
            else:
                out.add(None)
        for i in f.instrs():
            if i.op == 'ret' and i.ops:
                walk(i.ops[0], i.optys[0])
        return out, calls

    def classify(self, fns):
        """kinds[name] = ('status', values) | ('value', values) | ('float', NAN); functions that cannot fail are left out"""
        for base, f in fns:
            rt = self.ret_type(f)
            if rt in ERR_ENUMS:
                self.kinds[f.name] = ('status', range(1, self.enum_max.get(rt.lstrip('_'), 5) + 1))
            elif f.name in VALUE_FNS:
                self.kinds[f.name] = ('value', range(-5, 0))
            elif f.name in NEG_STATUS_FNS:
                self.kinds[f.name] = ('status', range(-5, 0))
            elif rt in ('int', 'int32_t', 'int16_t', 'int8_t'):
                c, calls = self.returned_consts(f)
                if None not in c and 0 in c and len(c) > 1 and all(-6 < x <= 0 for x in c):
                    self.kinds[f.name] = ('status', sorted(x for x in c if x))
        # a status function all of whose returns are 0 cannot fail
        changed = True
        while changed:
            changed = False
            for n in list(self.kinds):
                k, vals = self.kinds[n]
                if k != 'status' or n not in self.mod.functions:
                    continue
                c, calls = self.returned_consts(self.mod.functions[n])
                if c <= {0} and all(x.callee not in self.kinds for x in calls) and not any(x.callee not in self.mod.functions for x in calls):
                    del self.kinds[n]
                    changed = True

    def callback_kind(self, f, ins):
        """the I/O callback type of an indirect call, from the type of the field or parameter it is loaded from"""
        d = f.defs.get(ins.pred)
        k = 0
        while d is not None and d.op in ('bitcast', 'freeze') and k < 5:
            d = f.defs.get(d.ops[0])
            k += 1
        if d is None:
            for j, (pn, pt, _) in enumerate(f.params):
                if pn == ins.pred:
                    t = self.mod.fn_types(f)
                    return t[j + 1] if j + 1 < len(t) else None
            return None
        if d.op != 'load':
            return None
        p = f.defs.get(d.ops[0])
        if p is not None and p.op == 'getelementptr' and p.srcty.startswith('%struct.') and len(p.ops) >= 3:
            return self.field_type(p.srcty[len('%struct.'):], int(p.ops[2]))
        if p is None and d.ops[0].startswith('%'):
            # first field of a struct parameter: offset 0
            for j, (pn, pt, _) in enumerate(f.params):
                if pn == d.ops[0]:
                    t = self.mod.fn_types(f)[j + 1].replace('const ', '').strip('*')
                    return self.field_type(t, 0)
        return None

    def field_type(self, sname, idx):
        sname = re.sub(r'\.\d+$', '', sname)
        for mid, t in self.mod.meta.items():
            if 'DW_TAG_structure_type' in t and self.mod._mfield(t, 'name') == sname or \
                    ('DW_TAG_typedef' in t and self.mod._mfield(t, 'name') == sname):
                cur = t
                while 'DW_TAG_structure_type' not in cur:
                    b = self.mod._mfield(cur, 'baseType')
                    if b not in self.mod.meta:
                        break
                    cur = self.mod.meta[b]
                el = self.mod._mfield(cur, 'elements')
                ms = [self.mod.meta[r] for r in re.findall(r'!(\d+)', self.mod.meta.get(el, '')) if 'DW_TAG_member' in self.mod.meta[r]]
                if idx < len(ms):
                    return self.mod.ditype(self.mod._mfield(ms[idx], 'baseType'))
        return None

    def failures(self, f, ins):
        """[(label, kind, failure value)] of one call instruction, [] if it is not a fallible call; None if it is not identified"""
        if ins.callee:
            if ins.callee in self.kinds:
                kind, vals = self.kinds[ins.callee]
                if kind == 'float':
                    return [('NaN', kind, NAN)]
                return [(str(v), kind, (v, v)) for v in vals]
            if ins.callee == 'snprintf':
                return [('negative', 'status', (-2 ** 31, -1))]
            return []
        t = self.callback_kind(f, ins)
        if t is None:
            return None
        k = CALLBACKS.get(t)
        if k == 'read':
            return [('negative', 'callback', Short(self.root(f, ins.ops[2]), True))]
        if k == 'seek':
            return [('nonzero', 'callback', (1, 1)), ('negative', 'callback', (-1, -1))]
        if k == 'write':
            return [('negative', 'callback', Short(self.root(f, ins.ops[2]), True)), ('short', 'callback', Short(self.root(f, ins.ops[2]), False))]
        return []

    def zero(self, v):
        return isinstance(v, tuple) and len(v) == 2 and v[0] <= 0 <= v[1]

    def verdict(self, f, v):
        """None if returning v reports a failure; else a text"""
        kind = self.kinds.get(f.name, (None,))[0]
        rt = self.ret_type(f)
        if rt in ERR_ENUMS:
            kind = 'status'
        if rt in ('float', 'double'):
            return None if isinstance(v, Nan) else 'a value other than NaN'
        if kind == 'status':
            if v is None:
                return 'a value that can be EmlOk'
            if isinstance(v, Short) and v.neg:
                return None
            if isinstance(v, (Short, Nan)):
                return 'the raw transfer count'
            return 'EmlOk' if self.zero(v) else None
        if kind == 'value':
            if v is None:
                return 'a value that is not known to be negative'
            if isinstance(v, tuple) and len(v) == 2 and v[1] < 0:
                return None
            if isinstance(v, tuple) and len(v) == 2 and v[0] == v[1]:
                return 'the non-negative value %d' % v[0]
            return 'a value that can be non-negative'
        return 'unclassified'
