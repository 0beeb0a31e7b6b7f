"""What callers of the library promise: how many elements every pointer has, and what well-formed models contain.

Counts are written in terms of the fields of the same structure or the other arguments, by the name of the field (part of the public structure) or
the position of the argument.
"""
import re
from lin import L, atom, lift
from bounds import Facts, Ptr, BIG, width
from report import Lost


class Types:
    """structures and types from the debug information"""

    def __init__(self, mod):
        self.m = mod
        self.named = {}
        for k, t in mod.meta.items():
            if 'DW_TAG_typedef' in t or 'DW_TAG_structure_type' in t:
                n = mod._mfield(t, 'name')
                if n:
                    self.named.setdefault(n, k)
        self._info = {}

    def strip(self, ref):
        k = 0
        while ref in self.m.meta and k < 30:
            t = self.m.meta[ref]
            if 'DW_TAG_typedef' in t or 'DW_TAG_const_type' in t or 'DW_TAG_member' in t or 'DW_TAG_volatile_type' in t:
                ref = self.m._mfield(t, 'baseType')
                k += 1
            else:
                return ref
        return ref

    def size(self, ref):
        ref = self.strip(ref)
        if ref is None or ref not in self.m.meta:
            return 1
        return int(self.m._mfield(self.m.meta[ref], 'size') or 8) // 8

    def kind(self, ref):
        """('int', bytes, signed) | ('ptr', pointee ref) | ('struct', ref) | ('other', bytes)"""
        ref = self.strip(ref)
        t = self.m.meta.get(ref, '')
        if 'DIBasicType' in t:
            enc = self.m._mfield(t, 'encoding') or ''
            n = int(self.m._mfield(t, 'size') or 8) // 8
            if 'float' in enc:
                return ('other', n)
            return ('int', n, 'unsigned' not in enc and 'boolean' not in enc)
        if 'DW_TAG_pointer_type' in t:
            return ('ptr', self.m._mfield(t, 'baseType'))
        if 'DW_TAG_enumeration_type' in t:
            return ('int', int(self.m._mfield(t, 'size') or 32) // 8, False)
        if 'DW_TAG_structure_type' in t:
            return ('struct', ref)
        return ('other', self.size(ref))

    def tname(self, ref):
        """name of the structure a reference (through const and typedef) means"""
        k = 0
        while ref in self.m.meta and k < 30:
            t = self.m.meta[ref]
            if 'DW_TAG_typedef' in t:
                n = self.m._mfield(t, 'name')
                if n in STRUCTS:
                    return n
            if 'DW_TAG_structure_type' in t:
                return (self.m._mfield(t, 'name') or '').strip('_')
            ref = self.m._mfield(t, 'baseType')
            k += 1
        return None

    def members(self, name):
        """{offset: (field, kind)}"""
        if name not in self._info:
            out = {}
            ref = self.strip(self.named.get(name, ''))
            t = self.m.meta.get(ref, '')
            el = self.m._mfield(t, 'elements') if t else None
            for k in re.findall(r'!(\d+)', self.m.meta.get(el, '') if el else ''):
                e = self.m.meta[k]
                if 'DW_TAG_member' in e:
                    arr = self.m.meta.get(self.strip(self.m._mfield(e, 'baseType')) or '', '')
                    if 'DW_TAG_array_type' in arr:
                        ek = self.kind(self.m._mfield(arr, 'baseType'))
                        es = ek[1] if ek[0] in ('int', 'other') else 8
                        base = int(self.m._mfield(e, 'offset') or 0) // 8
                        for q in range(int(self.m._mfield(arr, 'size') or 0) // 8 // es):
                            out[base + q * es] = ('%s[%d]' % (self.m._mfield(e, 'name'), q), ek)
                        continue
                    out[int(self.m._mfield(e, 'offset') or 0) // 8] = (self.m._mfield(e, 'name'), self.kind(self.m._mfield(e, 'baseType')))
            self._info[name] = out
        return self._info[name]

    def params(self, f):
        s = self.m.meta.get(f.dbg or '', '')
        st = self.m.meta.get(self.m._mfield(s, 'type') or '', '')
        m = re.search(r'types: !(\d+)', st)
        lst = re.findall(r'!(\d+)|null', self.m.meta[m.group(1)]) if m else []
        return lst[1:]


class S:
    """fields of one structure instance as forms"""

    def __init__(self, con, eng, where):
        self.con, self.eng, self.where = con, eng, where

    def __getitem__(self, field):
        return self.con.named(self.eng, self.where, field)


class Contract:
    def __init__(self, types, f, counts=None, pre=None):
        """counts: {argument position: function(list of argument forms) -> number of elements, or (…) alternatives}"""
        self.t, self.f = types, f
        self.counts = counts or {}
        self.pre = pre
        self.args = []          # (position, debug type ref, [ir names])
        refs = types.params(f)
        ir = [p for p in f.params]
        k = 0
        if ir and 'sret' in ' '.join(ir[0][2]):
            k = 1
        for i, ref in enumerate(refs):
            if k >= len(ir):
                break
            names = [ir[k][0]]
            m = re.match(r'(%.*)\.coerce(\d*)$', ir[k][0])
            if m:
                while k + 1 < len(ir) and ir[k + 1][0].startswith(m.group(1) + '.coerce'):
                    k += 1
                    names.append(ir[k][0])
            self.args.append((i, ref, names, ir[k]))
            k += 1
        self.byname = {}
        for i, ref, names, p in self.args:
            for j, n in enumerate(names):
                self.byname[n] = (i, ref, j, len(names), p)

    # ---- binding to an engine (its tables are rebuilt in every round)
    def bind(self, eng):
        pass

    def fieldatom(self, eng, where, name, fname, kind):
        a = ('f',) + where + (fname,)
        if a not in eng.always:
            n, signed = kind[1], kind[2]
            fs = eng.always.setdefault(a, [])
            x = atom(a)
            lo, hi = (-2 ** (8 * n - 1), 2 ** (8 * n - 1) - 1) if signed else (0, 2 ** (8 * n) - 1)
            if n == 8:
                lo, hi = max(lo, -BIG), BIG
            fs += [x - lo, lift(hi) - x]
            for g in STRUCTS.get(name, {}).get('facts', lambda s: ())(S(self, eng, (name,) + where)) if name in STRUCTS else ():
                if isinstance(g, L):
                    if a in g.atoms():
                        fs.append(g)
                elif a in {k for alt in g.alt for G in alt for x in G.ge for k in x.atoms()}:
                    eng.rely.setdefault(a, []).append(g)
        return atom(a)

    def named(self, eng, where, field):
        name, where = where[0], where[1:]
        for off, (fn, kind) in self.t.members(name).items():
            if fn == field:
                return self.fieldatom(eng, where, name, fn, kind)
        raise Lost('structure %s has no field %s' % (name, field))

    # ---- the engine asks
    def param(self, eng, v):
        p = self.byname.get(v)
        if p is None:
            return None
        i, ref, j, n, ir = p
        k = self.t.kind(ref)
        if k[0] == 'struct':
            name = self.t.tname(ref)
            offs = sorted(self.t.members(name))
            if n == len(offs):
                fn, kind = self.t.members(name)[offs[j]]
                if kind[0] == 'int':
                    return self.fieldatom(eng, (('arg', i),), name, fn, kind)
            return None
        if k[0] == 'int':
            a = ('arg', i)
            if a not in eng.always:
                nb, signed = k[1], k[2]
                lo, hi = (-2 ** (8 * nb - 1), 2 ** (8 * nb - 1) - 1) if signed else (0, 2 ** (8 * nb) - 1)
                if nb == 8:
                    lo, hi = max(lo, -BIG), BIG
                eng.always[a] = [atom(a) - lo, lift(hi) - atom(a)]
            return atom(a)
        return None

    def argform(self, eng, i):
        for k, ref, names, ir in self.args:
            if k == i and len(names) == 1:
                return eng.lin(names[0])
        raise Lost('%s has no argument %d' % (self.f.name, i))

    def struct_at(self, root):
        """(structure name, instance path) of an object that is a structure or an array of structures"""
        if root[0] == 'param':
            p = self.byname.get(root[1])
            if p is None:
                return None
            i, ref, j, n, ir = p
            k = self.t.kind(ref)
            if k[0] == 'ptr':
                name = self.t.tname(k[1])
                return (name, (('arg', i),)) if name in STRUCTS else None
            if k[0] == 'struct':
                name = self.t.tname(ref)
                if 'byval' in ' '.join(ir[2]):
                    return (name, (('arg', i),))
            return None
        if root[0] == 'mem':
            o = self.pointee(root)
            if o is not None and o[0] in STRUCTS:
                return (o[0], o[1])
        return None

    def pointee(self, root):
        """(element type name or size, instance path, owner, field) of a pointer loaded from a field"""
        par = self.struct_at(root[1])
        if par is None:
            return None
        name, where = par
        mem = self.t.members(name)
        k, o = divmod(root[2], self.t.size(self.t.named.get(name)))
        if o not in mem:
            return None
        if root[1][0] == 'mem' or k:
            where = where + (lift(root[2] - o),)
        fn, kind = mem[o]
        if kind[0] != 'ptr':
            return None
        return (self.t.tname(kind[1]) or '', where + (fn,), (name,) + where, fn, self.t.size(kind[1]))

    def field(self, eng, root, off, w):
        s = self.struct_at(root)
        if s is None:
            return None
        name, where = s
        mem = self.t.members(name)
        size = self.t.size(self.t.named.get(name))
        k, o = divmod(off, size)
        if o in mem and mem[o][1][0] == 'int' and (8 * mem[o][1][1] == w):
            if root[0] == 'mem' or k:
                where = where + (lift(k * size),)
            fn, kind = mem[o]
            x = self.fieldatom(eng, where, name, fn, kind)
            # an unsigned field is loaded as a signed number of the same width
            if not kind[2] and kind[1] < 8:
                a = ('s', x_atom(x))
                return self.resign(eng, a, x, w)
            return x
        return None

    def resign(self, eng, a, x, w):
        """the value of an unsigned field, read as signed: its zero extension is the field"""
        pass
        eng.unsigned[a] = x
        if a not in eng.always:
            eng.ranged(a, -2 ** (w - 1), 2 ** (w - 1) - 1)
            eng.cases[a] = lambda: [(Facts([lift(2 ** (w - 1) - 1) - x]), x), (Facts([x - 2 ** (w - 1)]), x - 2 ** w)]
        return atom(a)

    def elemfield(self, eng, p, w):
        """a field of element k of an array of structures, k not constant"""
        s = self.struct_at(p.root)
        if s is None or p.root[0] != 'mem':
            return None
        name, where = s
        size = self.t.size(self.t.named.get(name))
        c = p.off.t.get((), 0)
        k, o = divmod(c, size)
        mem = self.t.members(name)
        if o not in mem or any(v % size for m, v in p.off.t.items() if m):
            return None
        return name, where + (p.off - o,), mem[o]

    def hascontent(self, p, el):
        o = self.pointee(p.root)
        return bool(o) and o[3] + '.' + el[2][0] in STRUCTS.get(o[2][0], {}).get('content', {})

    def content(self, eng, p, a, w):
        """facts about a loaded element"""
        out = []
        owner = None
        if p.root[0] == 'mem':
            o = self.pointee(p.root)
            if o is not None:
                owner = o
                st = STRUCTS.get(o[2][0], {})
                el = self.elemfield(eng, p, w)
                fn = o[3] + ('.' + el[2][0] if el else '')
                c = st.get('content', {}).get(fn)
                if c:
                    size = o[4]
                    out += list(c(S(self, eng, o[2]), atom(a), p.off if size == 1 else p.off, size))
        elif p.root[0] == 'param' and p.root[1] in self.byname:
            c = (self.pre or {}).get('content', {}).get(self.byname[p.root[1]][0])
            if c:
                out += list(c([self.safe(eng, i) for i, *_ in self.args], lambda q: self.structof(eng, q), atom(a), p.off, w))
        return out

    def structof(self, eng, q):
        for i, ref, names, ir in self.args:
            if i == q:
                k = self.t.kind(ref)
                return S(self, eng, (self.t.tname(k[1] if k[0] == 'ptr' else ref), ('arg', i)))

    def safe(self, eng, i):
        try:
            return self.argform(eng, i)
        except Lost:
            return None

    def facts(self, eng):
        out = []
        if self.pre and 'facts' in self.pre:
            out += list(self.pre['facts']([self.safe(eng, i) for i, *_ in self.args], lambda q: self.structof(eng, q)))
        return out

    def size(self, eng, root):
        """[(Facts, bytes)] alternatives, or None when the contract does not know the object"""
        if root[0] == 'param':
            p = self.byname.get(root[1])
            if p is None:
                return None
            i, ref, j, n, ir = p
            k = self.t.kind(ref)
            if k[0] == 'struct':
                name = self.t.tname(ref)
                if 'byval' in ' '.join(ir[2]):
                    return [(Facts(), lift(self.t.size(ref)))]
                offs = sorted(self.t.members(name))
                if n == len(offs):
                    fn, kind = self.t.members(name)[offs[j]]
                    return self.fieldsize(eng, (name, ('arg', i)), fn, kind)
                return None
            if k[0] == 'ptr':
                if i in self.counts:
                    if self.counts[i] is None:
                        return 'elsewhere'
                    return self.bytes(self.counts[i]([self.safe(eng, q) for q, *_ in self.args], lambda q: self.structof(eng, q)), self.t.size(k[1]))
                if self.t.tname(k[1]) in STRUCTS:
                    return [(Facts(), lift(self.t.size(k[1])))]
            return None
        if root[0] == 'mem':
            o = self.pointee(root)
            if o is None:
                return None
            kind = dict((v[0], v[1]) for v in self.t.members(o[2][0]).values())[o[3]]
            return self.fieldsize(eng, o[2], o[3], kind)
        if root[0] == 'elem':
            d = eng.f.defs[root[2]]
            p = eng.ptrs(d.ops[0])[0][1]
            el = self.elemfield(eng, p, None)
            if el and el[2][1][0] == 'ptr':
                return self.fieldsize(eng, (el[0],) + el[1], el[2][0], el[2][1])
        return None

    def fieldsize(self, eng, owner, fn, kind):
        c = STRUCTS.get(owner[0], {}).get('count', {}).get(fn)
        if c is None or kind[0] != 'ptr':
            return None
        return self.bytes(c(S(self, eng, owner)), self.t.size(kind[1]))

    def bytes(self, c, esize):
        if isinstance(c, list):
            return [(g, lift(n) * esize) for g, n in c]
        return [(Facts(), lift(c) * esize)]


def x_atom(x):
    return next(iter(x.t))[0]


def nonneg(*fields):
    return lambda s: [s[f] for f in fields]


def alts(*a):
    return Facts(alt=[list(a)])


def eq(x, y):
    return [x - y, y - x]


def between(lo, x, hi):
    """lo <= x < hi"""
    return [x - lo, hi - x - 1]


def nodes_child(s, x, off, size):
    # a child is given by its distance, which is positive, or is the number of a leaf
    base = off - off.t.get((), 0) % size
    return [alts(Facts([-x - 1, x + s['n_leaves']]), Facts([x - 1, s['n_nodes'] * size - size - base - x * size]))]


STRUCTS = {
    'EmlVector': {'facts': lambda s: [s['length']], 'count': {'data': lambda s: s['length']}},
    'EmlFFT': {'facts': lambda s: [s['length']], 'count': {'sin': lambda s: s['length'], 'cos': lambda s: s['length']}},
    'EmlAudioMel': {},
    'EmlIIR': {'count': {'states': lambda s: s['states_length'], 'coefficients': lambda s: s['coefficients_length']}},
    'EmlTrees': {
        'facts': lambda s: [s['n_nodes'], s['n_trees'], s['n_leaves'], s['n_classes'], s['n_features']],
        'count': {'nodes': lambda s: s['n_nodes'], 'tree_roots': lambda s: s['n_trees'],
                  'leaves': lambda s: [(Facts(eq(s['leaf_bits'], 0)), s['n_leaves']), (Facts(eq(s['leaf_bits'], 8)), s['n_leaves'] * s['n_classes']),
                                       (Facts(eq(s['leaf_bits'], 32)), s['n_leaves'] * 4)]},
        'content': {'tree_roots': lambda s, x, off, size: [s['n_nodes'] - x - 1, x + s['n_leaves'], x + 2 ** 15],
                    'leaves': lambda s, x, off, size: [alts(Facts(eq(s['leaf_bits'], 8)), Facts(eq(s['leaf_bits'], 32)), Facts(eq(s['leaf_bits'], 0) + between(0, x, s['n_classes'])))],
                    'nodes.left': lambda s, x, off, size: nodes_child(s, x, off, size),
                    'nodes.right': lambda s, x, off, size: nodes_child(s, x, off, size),
                    'nodes.feature': lambda s, x, off, size: between(0, x, s['n_features'])},
    },
    'EmlTreesNode': {},
    'EmlNetLayer': {
        'facts': lambda s: [s['n_outputs'], s['n_inputs']],
        'count': {'weights': lambda s: s['n_outputs'] * s['n_inputs'], 'biases': lambda s: s['n_outputs']}},
    'EmlNet': {
        'facts': lambda s: [s['n_layers'], s['activations_length']],
        'count': {'layers': lambda s: s['n_layers'], 'activations1': lambda s: s['activations_length'], 'activations2': lambda s: s['activations_length']}},
    'EmlBayesSummary': {},
    'EmlBayesModel': {
        'facts': lambda s: [s['n_features'], s['n_classes']],
        'count': {'summaries': lambda s: s['n_features'] * s['n_classes']}},
    'EmlEllipticEnvelope': {
        'facts': lambda s: [s['n_features']],
        'count': {'means': lambda s: s['n_features'], 'precision': lambda s: s['n_features'] * s['n_features']}},
    'EmlMixtureModel': {
        'facts': lambda s: [s['n_components'], s['n_features']],
        'count': {'means': lambda s: s['n_components'] * s['n_features'], 'log_dets': lambda s: s['n_components'], 'log_weights': lambda s: s['n_components'],
                  'precisions': lambda s: [(Facts(eq(s['covariance_type'], 0)), s['n_components'] * s['n_features'] * s['n_features'])]}},
    'EmlNeighborsModel': {
        'facts': lambda s: [s['n_items'], s['max_items'] - s['n_items']],
        'count': {'data': lambda s: s['max_items'] * s['n_features'], 'labels': lambda s: s['max_items']}},
    'EmlNeighborsDistanceItem': {},
    'EmlArray': {
        'facts': lambda s: [s['dims[0]'], s['dims[1]'], s['dims[2]'], s['value_size'] - 1, s['n_dims'] - 1, lift(3) - s['n_dims']],
        'count': {'data': lambda s: [(Facts(eq(s['n_dims'], 1)), s['value_size'] * s['dims[0]']),
                                     (Facts(eq(s['n_dims'], 2)), s['value_size'] * s['dims[0]'] * s['dims[1]']),
                                     (Facts(eq(s['n_dims'], 3)), s['value_size'] * s['dims[0]'] * s['dims[1]'] * s['dims[2]'])]}},
    'EmlCsvReader': {},
    'EmlCsvWriter': {},
    'EmlQuantizer': {},
}
