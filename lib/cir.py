"""Parser for the textual LLVM IR that clang-18/opt-18 print, plus the CFG facts the checks need.

Only the subset clang emits for the emlearn headers is modelled; an instruction the parser does not know
is kept with its raw text and operands so that a rule can refuse to reason about it (never silently skip it).
"""
import re

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
def read_type(s, i):
    """Return (type_string, next_index)."""
    n = len(s)
    while i < n and s[i] == ' ':
        i += 1
    st = i
    if s[i] in '[{<':
        depth = 0
        while i < n:
            c = s[i]
            if c in '[{<(':
                depth += 1
            elif c in ']}>)':
                depth -= 1
                if depth == 0:
                    i += 1
                    break
            i += 1
    elif s[i] == '%':
        m = re.compile(r'%("[^"]*"|[\w.$-]+)').match(s, i)
        i = m.end()
    else:
        m = re.compile(r'[a-z]\w*').match(s, i)
        if not m:
            raise IRError('type? %r at %d' % (s, i))
        i = m.end()
    t = s[st:i]
    # function types:  "i32 (ptr, ...)"
    j = i
    while j < n and s[j] == ' ':
        j += 1
    if j < n and s[j] == '(' and t != 'ptr' or (j < n and s[j] == '(' and t == 'ptr' and False):
        depth = 0
        k = j
        while k < n:
            if s[k] == '(':
                depth += 1
            elif s[k] == ')':
                depth -= 1
                if depth == 0:
                    k += 1
                    break
            k += 1
        # only treat as a function type if followed by space + something
        return s[st:k], k
    return t, i


def split_top(s):
    out = []
    depth = 0
    cur = []
    instr = False
    for c in s:
        if instr:
            cur.append(c)
            if c == '"':
                instr = False
            continue
        if c == '"':
            instr = True
            cur.append(c)
        elif c in '([{<':
            depth += 1
            cur.append(c)
        elif c in ')]}>':
            depth -= 1
            cur.append(c)
        elif c == ',' and depth == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(c)
    if ''.join(cur).strip():
        out.append(''.join(cur).strip())
    return out

PARAM_ATTR = re.compile(
    r'^(noundef|signext|zeroext|nocapture|readonly|readnone|writeonly|nonnull|returned|noalias|immarg|inreg|nofree|'
    r'dead_on_unwind|writable|'
    r'nest|allocptr|range\([^)]*\)|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|'
    r'byval\([^)]*\)|sret\([^)]*\)|captures\([^)]*\)|initializes\([^)]*\))\s+')


class Instr:
    __slots__ = ('res', 'op', 'ty', 'ops', 'optys', 'raw', 'dbg', 'block', 'pred', 'callee', 'flags', 'targets',
                 'idx', 'srcty', 'mem_ty', 'incoming', 'uid', 'argattrs')

    def __init__(self):
        self.res = None
        self.op = None
        self.ty = None
        self.ops = []
        self.optys = []
        self.raw = ''
        self.dbg = None
        self.block = None
        self.pred = None
        self.callee = None
        self.flags = set()
        self.targets = []
        self.idx = 0
        self.srcty = None
        self.mem_ty = None
        self.incoming = []
        self.uid = 0
        self.argattrs = []

    def __repr__(self):
        return self.raw


class Block:
    def __init__(self, name):
        self.name = name
        self.instrs = []
        self.preds = []
        self.succs = []

    @property
    def term(self):
        return self.instrs[-1]


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []      # (name, type, attrs)
        self.retty = None
        self.blocks = {}
        self.order = []
        self.attrs = ''
        self.dbg = None
        self.linkage = ''
        self.defs = {}        # ssa name -> Instr
        self.varargs = False

    @property
    def entry(self):
        return self.blocks[self.order[0]]

    def instrs(self):
        for b in self.order:
            for i in self.blocks[b].instrs:
                yield i

    # ---- CFG
    def build_cfg(self):
        for b in self.blocks.values():
            b.preds = []
            b.succs = []
        for name in self.order:
            b = self.blocks[name]
            if not b.instrs:
                raise IRError('empty block %s in %s' % (name, self.name))
            for t in b.term.targets:
                if t not in b.succs:
                    b.succs.append(t)
                self.blocks[t].preds.append(name)
        self.rpo = []
        seen = set()
        st = [(self.order[0], iter(self.blocks[self.order[0]].succs))]
        seen.add(self.order[0])
        post = []
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.blocks[s].succs)))
                    break
            else:
                post.append(n)
                st.pop()
        self.rpo = post[::-1]
        self._dom()
        self._loops()

    def _dom(self):
        idx = {b: i for i, b in enumerate(self.rpo)}
        idom = {self.rpo[0]: self.rpo[0]}

        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]:
                    a = idom[a]
                while idx[b] > idx[a]:
                    b = idom[b]
            return a
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                ps = [p for p in self.blocks[b].preds if p in idom]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    new = inter(new, p)
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom

    def dominates(self, a, b):
        """block a dominates block b"""
        if b not in self.idom:
            return True
        while True:
            if a == b:
                return True
            if b == self.rpo[0]:
                return False
            b = self.idom[b]

    def _loops(self):
        """natural loops: header -> set(blocks)"""
        self.loops = {}
        self.latches = {}
        for b in self.rpo:
            for s in self.blocks[b].succs:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    self.latches.setdefault(s, []).append(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in self.blocks[x].preds if p in self.idom)
        # irreducible edges: retreating edges whose target does not dominate the source
        idx = {b: i for i, b in enumerate(self.rpo)}
        self.irreducible = []
        for b in self.rpo:
            for s in self.blocks[b].succs:
                if idx[s] <= idx[b] and not self.dominates(s, b):
                    self.irreducible.append((b, s))

    def loop_of(self, b):
        """innermost loop header containing b, or None"""
        best = None
        for h, body in self.loops.items():
            if b in body and (best is None or len(body) < len(self.loops[best])):
                best = h
        return best


class Global:
    def __init__(self, name, const, ty, init, linkage, raw, dbg=None):
        self.name, self.const, self.ty, self.init, self.linkage, self.raw = name, const, ty, init, linkage, raw
        self.dbg = dbg


LINKAGE = {'private', 'internal', 'external', 'common', 'weak', 'linkonce', 'linkonce_odr', 'weak_odr', 'appending',
           'available_externally', 'extern_weak'}
GATTR = {'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'hidden', 'protected', 'default', 'thread_local'}
CASTS = {'zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}
BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = {'nsw', 'nuw', 'exact', 'nneg', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
         'reassoc', 'inbounds', 'volatile', 'tail', 'musttail', 'notail', 'samesign', 'nusw'}


def typed(s):
    """'<ty> [attrs] <value>' -> (ty, value, attrs)"""
    t, i = read_type(s, 0)
    rest = s[i:].strip()
    attrs = []
    while True:
        m = PARAM_ATTR.match(rest)
        if not m:
            break
        attrs.append(m.group(1))
        rest = rest[m.end():]
    # trailing attribute without value (declarations)
    return t, rest, attrs


class Module:
    def __init__(self, text):
        self.structs = {}
        self.globals = {}
        self.functions = {}
        self.declares = {}
        self.meta = {}
        self._parse(text)

    # ------------------------------------------------------------ parse
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        uid = 0
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, body = l.split(' = type ', 1)
                self.structs[nm] = body.strip()
            elif l.startswith('@'):
                self._global(l)
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[\w.$]+)\(', l)
                self.declares[m.group(1).strip('"')] = l
            elif l.startswith('define'):
                body = [l]
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                f = self._function(body)
                self.functions[f.name] = f
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', l)
                if m:
                    self.meta[m.group(1)] = m.group(2)
            i += 1

    def _global(self, l):
        m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$', l)
        name, rest = m.group(1).strip('"'), m.group(2)
        link = 'external'
        toks = rest
        while True:
            w = toks.split(' ', 1)[0]
            if w in LINKAGE:
                link = w
            elif w in GATTR or w.startswith('thread_local') or w.startswith('addrspace'):
                pass
            else:
                break
            toks = toks.split(' ', 1)[1]
        kind = toks.split(' ', 1)[0]
        rest2 = toks.split(' ', 1)[1]
        dm = re.search(r'!dbg !(\d+)', rest2)
        ty, j = read_type(rest2, 0)
        init = rest2[j:].strip()
        self.globals[name] = Global(name, kind == 'constant', ty, init, link, l, dm.group(1) if dm else None)

    def _function(self, body):
        l = body[0]
        m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
        f = Function(m.group(1).strip('"'))
        pre = l[len('define'):m.start()].strip().split()
        f.linkage = 'internal' if 'internal' in pre else 'external'
        # params
        depth = 1
        j = m.end()
        st = j
        while depth:
            if l[j] == '(':
                depth += 1
            elif l[j] == ')':
                depth -= 1
            j += 1
        for k, p in enumerate(split_top(l[st:j-1])):
            if p == '...':
                f.varargs = True
                continue
            t, v, attrs = typed(p)
            f.params.append((v or '%' + str(k), t, attrs))
        dm = re.search(r'!dbg !(\d+)', l[j:])
        f.dbg = dm.group(1) if dm else None
        # return type: last type token before @
        rt = l[len('define'):m.start()]
        rt = re.sub(r'\b(dso_local|internal|noundef|signext|zeroext|hidden|local_unnamed_addr|linkonce_odr|weak|weak_odr|'
                    r'available_externally|nonnull|noalias|mustprogress|fastcc)\b', '', rt)
        f.retty = rt.strip()
        cur = None
        uid = 0
        for raw in body[1:]:
            s = raw.strip()
            if not s or s.startswith(';'):
                continue
            bm = re.match(r'^("[^"]*"|[\w.$-]+):', raw)
            if bm:
                cur = Block(bm.group(1).strip('"'))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                # unnamed entry block
                cur = Block('0')
                f.blocks['0'] = cur
                f.order.append('0')
            if s.startswith(']') or (cur.instrs and cur.instrs[-1].op == 'switch' and not cur.instrs[-1].raw.rstrip().endswith(']') and '[' in cur.instrs[-1].raw and ']' not in cur.instrs[-1].raw):
                ins = cur.instrs[-1]
                ins.raw += ' ' + s
                if ']' in s:
                    self._finish_switch(ins)
                continue
            ins = self._instr(s)
            if ins is None:
                continue
            ins.block = cur.name
            ins.idx = len(cur.instrs)
            uid += 1
            ins.uid = uid
            cur.instrs.append(ins)
            if ins.res:
                f.defs[ins.res] = ins
        f.build_cfg()
        return f

    def _finish_switch(self, ins):
        raw = ins.raw
        m = re.match(r'switch (.*?), label %("[^"]*"|[\w.$-]+) \[(.*)\]', raw)
        t, v, _ = typed(m.group(1))
        ins.ops = [v]
        ins.optys = [t]
        ins.targets = [m.group(2).strip('"')]
        ins.incoming = [(None, m.group(2).strip('"'))]
        for cm in re.finditer(r'i\d+ (-?\d+), label %("[^"]*"|[\w.$-]+)', m.group(3)):
            ins.targets.append(cm.group(2).strip('"'))
            ins.incoming.append((int(cm.group(1)), cm.group(2).strip('"')))

    def _instr(self, s):
        ins = Instr()
        ins.raw = s
        dm = re.search(r', !dbg !(\d+)', s)
        if dm:
            ins.dbg = dm.group(1)
        core = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', s)
        core = re.sub(r'(, ![\w.]+ !\d+)+', '', core)
        m = re.match(r'^(%(?:"[^"]*"|[\w.$-]+)) = (.*)$', core)
        if m:
            ins.res = m.group(1)
            core = m.group(2)
        words = core.split(' ', 1)
        op = words[0]
        rest = words[1] if len(words) > 1 else ''
        while op in ('tail', 'musttail', 'notail'):
            op, rest = rest.split(' ', 1)
        ins.op = op

        def flags(r):
            while True:
                w = r.split(' ', 1)
                if w[0] in FLAGS:
                    ins.flags.add(w[0])
                    r = w[1]
                else:
                    return r
        if op == 'call' or op == 'invoke':
            return self._call(ins, rest)
        if op in BIN:
            rest = flags(rest)
            parts = split_top(rest)
            t, a, _ = typed(parts[0])
            ins.ty = t
            ins.ops = [a, parts[1]]
            ins.optys = [t, t]
        elif op == 'fneg' or op == 'freeze':
            rest = flags(rest)
            t, a, _ = typed(rest)
            ins.ty, ins.ops, ins.optys = t, [a], [t]
        elif op in CASTS:
            rest = flags(rest)
            a, to = rest.rsplit(' to ', 1)
            t, v, _ = typed(a)
            ins.ty, ins.ops, ins.optys = to.strip(), [v], [t]
        elif op in ('icmp', 'fcmp'):
            rest = flags(rest)
            ins.pred, rest = rest.split(' ', 1)
            parts = split_top(rest)
            t, a, _ = typed(parts[0])
            ins.ty = 'i1'
            ins.ops = [a, parts[1]]
            ins.optys = [t, t]
        elif op == 'load':
            rest = flags(rest)
            parts = split_top(rest)
            ins.ty = ins.mem_ty = parts[0]
            t, v, _ = typed(parts[1])
            ins.ops, ins.optys = [v], [t]
        elif op == 'store':
            rest = flags(rest)
            parts = split_top(rest)
            t, v, _ = typed(parts[0])
            pt, p, _ = typed(parts[1])
            ins.mem_ty = t
            ins.ops, ins.optys = [v, p], [t, pt]
        elif op == 'getelementptr':
            rest = flags(rest)
            parts = split_top(rest)
            ins.srcty = parts[0]
            ins.ty = 'ptr'
            for p in parts[1:]:
                t, v, _ = typed(p)
                ins.ops.append(v)
                ins.optys.append(t)
        elif op == 'alloca':
            parts = split_top(rest)
            ins.mem_ty = parts[0]
            ins.ty = 'ptr'
            for p in parts[1:]:
                if p.startswith('align') or p.startswith('addrspace'):
                    continue
                t, v, _ = typed(p)
                ins.ops.append(v)
                ins.optys.append(t)
        elif op == 'phi':
            rest = flags(rest)
            t, j = read_type(rest, 0)
            ins.ty = t
            for m2 in split_top(rest[j:].strip()):
                m3 = re.match(r'\[ (.*), %("[^"]*"|[\w.$-]+) \]', m2)
                ins.incoming.append((m3.group(1).strip(), m3.group(2).strip('"')))
                ins.ops.append(m3.group(1).strip())
                ins.optys.append(t)
        elif op == 'select':
            rest = flags(rest)
            for p in split_top(rest):
                t, v, _ = typed(p)
                ins.ops.append(v)
                ins.optys.append(t)
            ins.ty = ins.optys[1]
        elif op == 'br':
            if rest.startswith('label'):
                ins.targets = [rest.split('%', 1)[1].strip('"')]
            else:
                parts = split_top(rest)
                t, v, _ = typed(parts[0])
                ins.ops, ins.optys = [v], [t]
                ins.targets = [p.split('%', 1)[1].strip('"') for p in parts[1:]]
        elif op == 'switch':
            if ']' in core:
                self._finish_switch(ins)
        elif op == 'ret':
            if rest.strip() != 'void':
                t, v, _ = typed(rest)
                ins.ops, ins.optys = [v], [t]
        elif op == 'unreachable':
            pass
        elif op in ('extractvalue', 'insertvalue'):
            parts = split_top(rest)
            t, v, _ = typed(parts[0])
            ins.ops, ins.optys = [v], [t]
            if op == 'insertvalue':
                t2, v2, _ = typed(parts[1])
                ins.ops.append(v2)
                ins.optys.append(t2)
                ins.flags = tuple(int(x) for x in parts[2:])
            else:
                ins.flags = tuple(int(x) for x in parts[1:])
        else:
            ins.op = 'unknown:' + op
        return ins

    def _call(self, ins, rest):
        m = re.search(r'(@("[^"]*"|[\w.$-]+)|%("[^"]*"|[\w.$-]+))\(', rest)
        # skip function types "i32 (ptr, ...) @printf("
        mm = None
        for cand in re.finditer(r'(@(?:"[^"]*"|[\w.$-]+)|%(?:"[^"]*"|[\w.$-]+)|asm )\(?', rest):
            if cand.group(0).endswith('(') and not cand.group(1).startswith('%struct'):
                mm = cand
                break
        if 'asm ' in rest.split('(')[0]:
            ins.callee = 'asm'
            ins.op = 'call'
            return ins
        if mm is None:
            raise IRError('call? ' + rest)
        callee = mm.group(1)
        pre = rest[:mm.start()]
        pre = re.sub(r'\b(fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|noundef|signext|zeroext|nonnull|noalias)\b', '', pre)
        ins.ty = pre.strip().split(' (')[0].strip()
        ins.callee = callee[1:].strip('"') if callee.startswith('@') else None
        if ins.callee is None:
            ins.flags.add('indirect')
            ins.pred = callee
        j = mm.end()
        depth = 1
        st = j
        q = False
        while depth:
            c = rest[j]
            if c == '"':
                q = not q
            if not q:
                if c == '(':
                    depth += 1
                elif c == ')':
                    depth -= 1
            j += 1
        for p in split_top(rest[st:j-1]):
            if p.startswith('metadata'):
                ins.ops.append(p)
                ins.optys.append('metadata')
                continue
            t, v, a = typed(p)
            ins.ops.append(v)
            ins.optys.append(t)
            ins.argattrs.append(a)
        return ins

    # ------------------------------------------------------------ layout (x86-64)
    def sizeof(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        """(size, align)"""
        t = t.strip()
        if t == 'ptr':
            return 8, 8
        if t == 'float':
            return 4, 4
        if t == 'double':
            return 8, 8
        m = re.match(r'^i(\d+)$', t)
        if m:
            b = int(m.group(1))
            s = max(1, (b + 7) // 8)
            p = 1
            while p < s:
                p *= 2
            return p, p
        m = re.match(r'^\[(\d+) x (.*)\]$', t)
        if m:
            s, a = self.layout(m.group(2))
            return s * int(m.group(1)), a
        if t.startswith('%'):
            return self.layout(self.structs[t])
        if t.startswith('<{'):
            raise IRError('packed ' + t)
        m = re.match(r'^<(\d+) x (.*)>$', t)
        if m:
            s, a = self.layout(m.group(2))
            return s * int(m.group(1)), s * int(m.group(1))
        if t.startswith('{'):
            off, al = 0, 1
            for e in split_top(t[1:-1]):
                s, a = self.layout(e)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise IRError('layout ' + t)

    def fields(self, t):
        body = self.structs[t] if t.startswith('%') else t
        return split_top(body.strip()[1:-1])

    def field_offset(self, t, k):
        off = 0
        for j, e in enumerate(self.fields(t)):
            s, a = self.layout(e)
            off = (off + a - 1) // a * a
            if j == k:
                return off, e
            off += s
        raise IRError('field')

    # ------------------------------------------------------------ debug info
    def _mfield(self, s, key):
        m = re.search(r'\b%s: (?:"([^"]*)"|!(\d+)|([^,)]+))' % key, s)
        if not m:
            return None
        return m.group(1) if m.group(1) is not None else (m.group(2) or m.group(3))

    def loc(self, dbg):
        """(file, line, function) of a !DILocation (innermost, i.e. where the text is)"""
        if dbg is None or dbg not in self.meta:
            return ('?', 0, '?')
        s = self.meta[dbg]
        line = int(self._mfield(s, 'line') or 0)
        sc = self._mfield(s, 'scope')
        fn = '?'
        fil = '?'
        k = 0
        cur = sc
        while cur and cur in self.meta and k < 50:
            t = self.meta[cur]
            if fil == '?':
                ff = self._mfield(t, 'file')
                if ff and ff in self.meta:
                    fil = self._mfield(self.meta[ff], 'filename')
            if 'DISubprogram' in t:
                fn = self._mfield(t, 'name')
                break
            cur = self._mfield(t, 'scope')
            k += 1
        return (fil, line, fn)

    def fn_decl(self, f):
        """(file, line) where function f is defined"""
        s = self.meta.get(f.dbg or '', '')
        ff = self._mfield(s, 'file')
        fil = self._mfield(self.meta[ff], 'filename') if ff in self.meta else '?'
        return fil, int(self._mfield(s, 'line') or 0)

    def ditype(self, ref):
        """readable type name from a debug-info type reference"""
        quals = []
        k = 0
        cur = ref
        out = ''
        while cur and cur in self.meta and k < 30:
            t = self.meta[cur]
            k += 1
            if 'DIBasicType' in t:
                return out + self._mfield(t, 'name')
            if 'DW_TAG_typedef' in t or 'DICompositeType' in t:
                return out + (self._mfield(t, 'name') or 'anon')
            if 'DW_TAG_pointer_type' in t:
                out += '*'
                cur = self._mfield(t, 'baseType')
                if cur is None:
                    return out + 'void'
            elif 'DW_TAG_const_type' in t:
                out += 'const '
                cur = self._mfield(t, 'baseType')
                if cur is None:
                    return out + 'void'
            elif 'DISubroutineType' in t:
                return out + 'fn'
            else:
                cur = self._mfield(t, 'baseType')
        return out + 'void'

    def fn_types(self, f):
        """[return, param types...] as debug-info type names"""
        s = self.meta.get(f.dbg or '', '')
        ty = self._mfield(s, 'type')
        st = self.meta.get(ty or '', '')
        m = re.search(r'types: !(\d+)', st)
        if not m:
            return []
        lst = self.meta[m.group(1)]
        out = []
        for e in re.findall(r'!(\d+)|null', lst):
            out.append(self.ditype(e) if e else 'void')
        return out
