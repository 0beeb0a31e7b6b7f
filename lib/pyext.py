"""Models of builtins, the standard library and numpy for the abstract interpreter."""
import ast
import os
import re
import string

from pyval import *

NUM = (int, float, bool)
IINFO = {}
for _b in (8, 16, 32, 64):
    IINFO['int%d' % _b] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
    IINFO['uint%d' % _b] = (0, (1 << _b) - 1)
IINFO['int'] = IINFO['int64']
FLOATS = {'float32', 'float64', 'float16', 'float', 'double', 'single', 'half'}
EXCEPTIONS = {n for n in dir(__import__('builtins')) if isinstance(getattr(__import__('builtins'), n), type) and issubclass(getattr(__import__('builtins'), n), BaseException)}
# numpy functions whose result has the shape of their first argument
SAMESHAPE = {'numpy.' + n for n in ('abs', 'absolute', 'float32', 'float64', 'double', 'single', 'round', 'rint', 'floor', 'ceil', 'trunc', 'clip', 'array', 'asarray',
             'ascontiguousarray', 'asfortranarray', 'sqrt', 'log', 'log2', 'exp', 'negative', 'copy', 'nan_to_num', 'zeros_like', 'ones_like', 'empty_like', 'sort', 'cumsum', 'where3',
             'asanyarray', 'square', 'log1p', 'log10', 'fix', 'around', 'isfinite', 'isnan', 'int32', 'int16', 'uint8')} | {'check_array', 'sklearn.utils.check_array', 'sorted', 'list', 'tuple'}
SAMEMETH = {'astype', 'copy', 'round', 'clip', 'cumsum', 'view', '__neg__', 'conj'}
MUTATING = {'sort', 'fill', 'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'update', 'setdefault', 'popitem', 'resize', 'put', 'itemset',
            'partition', 'setflags', 'byteswap', 'add', 'discard', 'fit', 'partial_fit', 'fit_transform', 'set_params', 'fit_predict', '__setitem__', '__delitem__', 'setfield',
            'drop_duplicates_inplace', 'set_weights', 'load_weights', 'compile', 'train_on_batch'}
INPLACE_FUNCS = {'numpy.copyto': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.putmask': 0, 'numpy.fill_diagonal': 0, 'numpy.random.shuffle': 0,
                 'random.shuffle': 0, 'numpy.put_along_axis': 0, 'heapq.heapify': 0, 'heapq.heappush': 0, 'numpy.add.at': 0, 'numpy.subtract.at': 0, 'numpy.multiply.at': 0,
                 'numpy.ndarray.sort': 0, 'numpy.ndarray.fill': 0, 'setattr': 0, 'delattr': 0, 'object.__setattr__': 0, 'bisect.insort': 0}
BOOLMETH = {'startswith', 'endswith', 'isdigit', 'isidentifier', 'isalpha', 'isalnum', 'exists'}


def ispath(t):
    return isinstance(t, Sym) and (t.op == 'call' and str(t.args[0]).startswith('pathlib.')
                                   or t.op == 'bin' and t.args[0] == '/' and ispath(t.args[1])
                                   or t.op == 'meth' and t.args[1] in ('resolve', 'absolute', 'joinpath', 'with_suffix', 'with_name', 'expanduser') and ispath(t.args[0])
                                   or t.op == 'attr' and t.args[1] == 'parent' and ispath(t.args[0]))


def unpath(t):
    """the file name behind a path object"""
    while isinstance(t, Sym) and t.op == 'call' and t.args[0] in ('pathlib.Path', 'pathlib.PurePath', 'pathlib.PosixPath', 'str', 'os.fspath', 'os.path.abspath', 'os.path.normpath', 'os.path.realpath') and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


class Ext:
    def __init__(self, ip):
        self.ip = ip
        self.shapes = {}          # Sym -> tuple of dims (for inputs)
        self.typehint = {}
        self.overrides = {}       # external name -> callable(args, kw) or value
        self.depth = 0

    # ------------------------------------------------------------ decisions
    def notnone(self, s):
        if s in self.shapes or s in self.typehint:
            return True
        if s.op in ('bin', 'un', 'cmp', 'dim', 'call', 'elem', 'list', 'dict', 'unique', 'shape', 'loopvar', 'obj', 'view', 'arr'):
            if s.op == 'call' and s.args[0] in ('re.match', 're.fullmatch', 're.search', 'shutil.which', 'os.environ.get', 'os.getenv', 'getattr'):
                return False
            return True
        if s.op == 'meth' and s.args[1] in ('copy', 'astype', 'flatten', 'ravel', 'reshape', 'tolist', 'get_precision', 'decode', 'read', 'split', 'strip', 'format'):
            return True
        if s.op == 'attr' or s.op == 'item':
            return s in self.shapes
        return False

    def kind(self, v):
        """'int' 'float' 'str' 'bool' 'array' or None"""
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, int):
            return 'int'
        if isinstance(v, float):
            return 'float'
        if isinstance(v, (str, Str)):
            return 'str'
        if not isinstance(v, Sym):
            return None
        if v.op in ('dim', 'rank', 'count'):
            return 'int'
        if v.op == 'cmp':
            return 'bool'
        if v.op == 'call':
            n = v.args[0]
            if n in ('len', 'int', 'math.floor', 'math.ceil', 'numpy.argmax', 'round', 'ord', 'hash', 'id', 'numpy.int32', 'numpy.int64', 'math.prod', 'index'):
                return 'int' if not (n == 'round' and len(v.args[1]) > 1) else 'float'
            if n in ('float', 'numpy.float32', 'numpy.float64', 'math.sqrt', 'math.log', 'math.log2', 'numpy.nextafter'):
                return 'float'
            if n in ('str', 'repr', 'os.path.join', 'os.path.dirname', 'os.path.basename', 'os.path.abspath'):
                return 'str'
            if n in ('abs', 'max', 'min', 'sum') and v.args[1]:
                return self.kind(v.args[1][0])
        if v.op == 'bin':
            a, b = self.kind(v.args[1]), self.kind(v.args[2])
            if v.args[0] == '/':
                return 'float' if 'array' not in (a, b) else 'array'
            if a == 'int' and b == 'int':
                return 'int'
            if 'float' in (a, b) and {a, b} <= {'float', 'int'}:
                return 'float'
        if v.op == 'un':
            return self.kind(v.args[1])
        if v.op == 'elem':
            b = v.args[0]
            if isinstance(b, Sym) and b.op == 'range':
                return 'int'
            return self.dtype_kind(b, True)
        if v.op == 'item':
            return self.dtype_kind(v.args[0], False)
        if v.op == 'loopvar':
            return None
        return self.typehint.get(v)
    def dtype_kind(self, b, elem):
        if isinstance(b, Sym):
            if b.op == 'call' and b.args[0] in ('numpy.float32', 'numpy.float64') or b.op == 'meth' and b.args[1] == 'astype' and b.args[2] and 'float' in show(b.args[2][0]):
                return 'float'
            if b.op == 'meth' and b.args[1] == 'astype' and b.args[2] and 'int' in show(b.args[2][0]):
                return 'int'
            t = self.typehint.get(b)
            if isinstance(t, str) and t.startswith('array:'):
                return t[6:]
            if b.op == 'meth' and b.args[1] in ('flatten', 'ravel', 'copy', 'reshape', 'tolist'):
                return self.dtype_kind(b.args[0], elem)
            if b.op in ('attr',) and b.args[1] == 'T':
                return self.dtype_kind(b.args[0], elem)
            if b.op == 'call' and b.args[0] in ('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray') and b.args[1]:
                return self.dtype_kind(b.args[1][0], elem)
            if b.op in ('elem', 'item'):
                return self.dtype_kind(b.args[0], elem)
        return None

    def decide(self, c):
        """truth of a condition from the facts, or None"""
        if not isinstance(c, Sym) or c.op != 'cmp':
            return None
        op, a, b = c.args
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if isinstance(a, Sym) and isinstance(b, NUM):
                lo, hi = self.bounds(a)
                if op == '<':
                    return True if hi < b else False if lo >= b else None
                if op == '<=':
                    return True if hi <= b else False if lo > b else None
                if op == '>':
                    return True if lo > b else False if hi <= b else None
                if op == '>=':
                    return True if lo >= b else False if hi < b else None
                if op == '==':
                    return False if b < lo or b > hi else None
                if op == '!=':
                    return True if b < lo or b > hi else None
            if isinstance(a, Sym) and a is b:
                return op in ('<=', '>=', '==')
        return None

    def bounds(self, a):
        lo, hi = float('-inf'), float('inf')
        if a.op in ('dim', 'rank') or a.op == 'call' and a.args[0] in ('len', 'abs') or a.op == 'count':
            lo = 0
        if a.op == 'elem' and isinstance(a.args[0], Sym) and a.args[0].op == 'range' and isinstance(a.args[0].args[0], int):
            lo = a.args[0].args[0]
        if a.op == 'bin' and a.args[0] == '+':
            x = self.bounds(a.args[1]) if isinstance(a.args[1], Sym) else (a.args[1], a.args[1])
            y = self.bounds(a.args[2]) if isinstance(a.args[2], Sym) else (a.args[2], a.args[2])
            if all(isinstance(q, (int, float)) for q in x + y):
                lo, hi = x[0] + y[0], x[1] + y[1]
        for f in self.ip.S.pc:
            if f.op == 'cmp' and f.args[1] is a and isinstance(f.args[2], NUM):
                o, k = f.args[0], f.args[2]
                if o == '<=':
                    hi = min(hi, k)
                elif o == '<':
                    hi = min(hi, k)
                elif o == '>=':
                    lo = max(lo, k)
                elif o == '>':
                    lo = max(lo, k)
                elif o == '==':
                    lo, hi = k, k
        return lo, hi

    def equal(self, a, b):
        from pyabs import isconst
        if isinstance(a, Other) or isinstance(b, Other):
            if a is b:
                return True
            x = b if isinstance(a, Other) else a
            if isinstance(x, (Sym,)):
                return None
            return False
        if isconst(a) and isconst(b):
            return a == b
        if isinstance(a, (Obj, Func, Cls, Mod, External)) and isinstance(b, (Func, Cls, Mod, External, type(None), int, str)) and not (isinstance(a, Obj) and a.kind == 'inst'):
            return a == b
        if isinstance(b, (Func, Cls, Mod, External)) and isinstance(a, (type(None), int, str)):
            return False
        if isinstance(a, Str) and isinstance(b, Str):
            return True if a == b else None
        if isinstance(a, (str, Str)) and b is None or a is None and isinstance(b, (str, Str)):
            return False
        if isinstance(a, (str, Str)) and isinstance(b, NUM) or isinstance(a, NUM) and isinstance(b, (str, Str)):
            return False
        if isinstance(a, Sym) and b is None and self.notnone(a) or a is None and isinstance(b, Sym) and self.notnone(b):
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            rs = [self.equal(x, y) for x, y in zip(a, b)]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return None
        if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind and a.kind in ('list', 'set'):
            ip = self.ip
            sa, sb = ip.segs(a), ip.segs(b)
            if all(s[0] == 'item' for s in sa + sb):
                va, vb = [s[1] for s in sa], [s[1] for s in sb]
                if a.kind == 'set' and all(isconst(x) for x in va + vb):
                    return set(va) == set(vb)
                if a.kind == 'set' and (not va) != (not vb):
                    return False
                if a.kind == 'list':
                    return self.equal(tuple(va), tuple(vb))
        if isinstance(a, Sym) and a is b:
            return True
        if isinstance(a, Sym) and isinstance(b, (NUM[0], float, Sym)):
            return self.ip.decide(Sym('cmp', '==', a, b)) if self.depth == 0 else None
        return None

    def contains(self, cont, x):
        ip = self.ip
        from pyabs import isconst
        if isinstance(x, Other):
            x_other = True
        else:
            x_other = False
        if isinstance(cont, str):
            if isinstance(x, str):
                return x in cont
            if x_other:
                return None if cont else False
            if isinstance(x, (int, type(None))):
                ip.event('raise', exc='TypeError', cond=None)
                raise PyRaise(Exc('TypeError'))
            return None
        if isinstance(cont, Str):
            if isinstance(x, str):
                return True if any(isinstance(p, str) and x in p for p in cont.parts) else None
            return None
        if isinstance(cont, Other):
            return False
        items = None
        if isinstance(cont, tuple):
            items = list(cont)
        elif isinstance(cont, Obj) and cont.kind in ('list', 'set'):
            segs = ip.segs(cont)
            if all(s[0] == 'item' for s in segs):
                items = [s[1] for s in segs]
            elif isconst(x):
                for s in segs:
                    if s[0] == 'item' and isconst(s[1]) and s[1] == x:
                        return True
        elif isinstance(cont, Obj) and cont.kind == 'dict':
            if not ip.get(cont.id, 'rest', ()):
                its = ip.get(cont.id, 'items', ())
                items = [k for k, v in its if not (isinstance(v, Choice) and any(w is UNDEF for w in v.vals))]
                if len(items) != len(its):
                    if any(isconst(k) and same(k, x) for k in items):
                        return True
                    return None
            elif isconst(x):
                for k, v in ip.get(cont.id, 'items', ()):
                    if same(k, x):
                        return True
        elif isinstance(cont, Obj) and cont.kind == 'inst':
            m = ip.find_method(cont, '__contains__')
            if isinstance(m, Func):
                return ip.truth(ip.call(Bound(m, cont), [x], {}))[0]
        elif isinstance(cont, Sym) and cont.op == 'range' and isinstance(x, int) and all(isinstance(a, int) for a in cont.args):
            return x in range(*cont.args)
        if items is not None:
            rs = [self.equal(x, i) if not (isinstance(x, Sym) and isinstance(i, (str, bool))) else None for i in items]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        return None

    # ------------------------------------------------------------ shapes
    def dim(self, x, i):
        if not isinstance(x, Sym):
            if isinstance(x, (str,)) and i == 0:
                return len(x)
            return Sym('dim', x, i)
        if x in self.shapes:
            sh = self.shapes[x]
            if isinstance(i, int) and -len(sh) <= i < len(sh):
                return sh[i]
        if x.op == 'meth' and x.args[1] in SAMEMETH and not (x.args[1] == 'reshape'):
            return self.dim(x.args[0], i)
        if x.op == 'call' and x.args[0] in SAMESHAPE and x.args[1]:
            y = x.args[1][0]
            if isinstance(y, Sym) and y.op in ('list',):
                return self.listdim(y, i)
            if isinstance(y, tuple):
                return len(y) if i == 0 else Sym('dim', y[0], i - 1) if y else 0
            return self.dim(y, i)
        if x.op in ('list', 'set'):
            return self.listdim(x, i)
        if x.op == 'bin' and x.args[0] in ('*', '+', '-', '/', '//', '%', '**', '&', '|'):
            a, b = x.args[1], x.args[2]
            if self.scalar(b):
                return self.dim(a, i)
            if self.scalar(a):
                return self.dim(b, i)
            if i == 0:
                return self.dim(a, i)
        if x.op == 'un':
            return self.dim(x.args[1], i)
        if x.op in ('elem',) and isinstance(i, int) and i >= 0 and isinstance(x.args[0], Sym) and x.args[0].op != 'range':
            return self.dim(x.args[0], i + 1)
        if x.op == 'item' and not isinstance(x.args[1], tuple) and not (isinstance(x.args[1], Sym) and x.args[1].op == 'slice') and isinstance(i, int) and i >= 0 and self.scalar(x.args[1]):
            return self.dim(x.args[0], i + 1)
        if x.op == 'arr':
            sh = x.args[1]
            if isinstance(sh, tuple) and isinstance(i, int) and -len(sh) <= i < len(sh):
                return sh[i]
        if x.op == 'meth' and x.args[1] in ('flatten', 'ravel') and i in (0, -1):
            return Sym('size', x.args[0])
        if x.op == 'range' and i == 0:
            return self.range_len(x)
        return Sym('dim', x, i)

    def listdim(self, y, i):
        # frozen list
        o = self.ip.new_list(y.args, 'list')
        if i == 0:
            return self.ip.list_len(o)
        es = self.ip.elems_of(o)
        if es and isinstance(es[0], Sym):
            return self.dim(es[0], i - 1)
        return Sym('dim', y, i)

    def scalar(self, v):
        if isinstance(v, NUM):
            return True
        if isinstance(v, Sym):
            k = self.kind(v)
            if k in ('int', 'float', 'bool'):
                return True
            if v.op == 'call' and v.args[0] in ('max', 'min', 'len', 'math.log2', 'numpy.max', 'numpy.min', 'numpy.finfo'):
                return True
        return False

    def range_len(self, r):
        a, b, s = r.args
        if s == 1:
            if a == 0:
                return b
            return self.ip.binop('-', b, a)
        return Sym('call', 'len', (r,), ())

    def view_content(self, v):
        """the tuple stored at a generic index of an array created in the package"""
        arr, idx = v.args
        if arr.op != 'arr':
            return None
        sh, stores = arr.args[1], arr.args[3]
        for k, val in stores:
            kk = k if isinstance(k, tuple) else (k,)
            if len(kk) == len(idx) and isinstance(val, tuple) and all(isinstance(a, Sym) and a.op in ('elem', 'idx') for a in kk):
                return val
        return None

    # ------------------------------------------------------------ text
    def percent(self, fmt, arg):
        ip = self.ip
        parts = []
        args = list(arg) if isinstance(arg, tuple) else [arg]
        if isinstance(fmt, Str):
            return mkstr([OpS('%', fmt), ])
        pos = 0
        for m in re.finditer(r'%(\((\w+)\))?([-#0 +]*)(\d+|\*)?(\.\d+)?[hlL]?([diouxXeEfFgGcrsa%])', fmt):
            parts.append(fmt[pos:m.start()])
            pos = m.end()
            c = m.group(6)
            if c == '%':
                parts.append('%')
                continue
            if m.group(2):
                v = ip.getitem(args[0], m.group(2))
            else:
                if not args:
                    raise PyRaise(Exc('TypeError'))
                v = args.pop(0)
            flags = m.group(3).replace('-', '<') if m.group(3) else ''
            spec = flags + (m.group(4) or '') + (m.group(5) or '')
            conv = ''
            if c in 'rsa':
                conv = c
            elif c in 'diu':
                spec += 'd'
            else:
                spec += c
            if isinstance(v, float) and c in 'diu':
                v = int(v)
            if isinstance(v, Sym) and c in 'diu':
                v = Sym('call', 'int', (v,), ())
            parts.append(ip.fmt_field(v, conv, spec))
        parts.append(fmt[pos:])
        return mkstr(parts)

    def format(self, fmt, args, kw):
        ip = self.ip
        parts = []
        auto = [0]

        def piece(text):
            out = []
            for lit, field, spec, conv in string.Formatter().parse(text):
                out.append(lit)
                if field is None:
                    continue
                m = re.match(r'[^.\[]*', field)
                name = m.group(0)
                rest = field[m.end():]
                if name == '' or name.isdigit():
                    if name == '':
                        i = auto[0]
                        auto[0] += 1
                    else:
                        i = int(name)
                    if i >= len(args):
                        ip.event('raise', exc='IndexError', cond=None)
                        raise PyRaise(Exc('IndexError'))
                    v = args[i]
                elif name in kw:
                    v = kw[name]
                elif '**' in kw:
                    v = Sym('item', kw['**'], name)
                else:
                    ip.event('raise', exc='KeyError', cond=None)
                    raise PyRaise(Exc('KeyError', (name,)))
                for a in re.findall(r'\.(\w+)|\[([^\]]*)\]', rest):
                    if a[0]:
                        v = ip.getattr(v, a[0])
                    else:
                        v = ip.getitem(v, int(a[1]) if a[1].isdigit() else a[1])
                if spec and '{' in spec:
                    spec = mkstr(piece(spec))
                out.append(ip.fmt_field(v, conv or '', spec or ''))
            return out
        for p in parts_of(fmt):
            if isinstance(p, str):
                parts += piece(p)
            else:
                parts.append(p)
        return mkstr(parts)

    def join(self, sep, it):
        ip = self.ip
        if sep == '' and isinstance(it, Sym) and it.op == 'meth' and it.args[1] == 'splitlines' and isinstance(it.args[0], (str, Str)) \
                and (it.args[2] == (True,) or dict(it.args[3]).get('keepends') is True if len(it.args) > 3 else it.args[2] == (True,)):
            return it.args[0]

        def walk(segs):
            """list of (element parts)"""
            out = []
            for s in segs:
                if s[0] == 'item':
                    v = s[1]
                    if isinstance(v, (str, Str)):
                        out.append(v)
                    elif isinstance(v, (int, float)) or v is None:
                        ip.event('raise', exc='TypeError', cond=None)
                        raise PyRaise(Exc('TypeError'))
                    else:
                        out.append(ip.tostr(v))
                elif s[0] == 'rep':
                    body = walk(s[1])
                    out.append(mkstr([RepS(interleave(body), sep, s[2], s[3])]))
                elif s[0] == 'alt':
                    alts = [interleave(walk(a)) for a in s[1]]
                    out.append(mkstr([AltS(alts)]))
                else:
                    out.append(mkstr([OpS('elements', s[1] if isinstance(s[1], Sym) else str(s))]))
            return out

        def interleave(items):
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts += parts_of(sep)
                parts += parts_of(x)
            return mkstr(parts)
        return interleave(walk(ip.iter_segs(it)))

    # ------------------------------------------------------------ collections
    def set_op(self, op, a, b):
        ip = self.ip
        from pyabs import isconst
        A = ip.elems_of(a) if isinstance(a, Obj) else None
        segs_b = ip.segs(b) if isinstance(b, Obj) and b.kind == 'set' else ip.iter_segs(b)
        sa = ip.segs(a)
        if all(s[0] == 'item' for s in list(sa) + list(segs_b)):
            va, vb = [s[1] for s in sa], [s[1] for s in segs_b]
            if all(isconst(x) or isinstance(x, Other) for x in va + vb):
                def inn(x, l):
                    return any(same(x, y) for y in l)
                r = {'|': va + [x for x in vb if not inn(x, va)], '-': [x for x in va if not inn(x, vb)],
                     '&': [x for x in va if inn(x, vb)], '^': [x for x in va if not inn(x, vb)] + [x for x in vb if not inn(x, va)]}[op]
                return ip.mklist(r, 'set')
        if op == '|':
            return ip.new_list(list(sa) + list(segs_b), 'set')
        if op == '-' and not sa:
            return ip.new_list([], 'set')
        f = Sym('bin', op, ip.freeze(a), ip.freeze(b))
        es = []
        for s in sa:
            es += ip.seg_elems(s)
        return ip.new_list([('rep', (('item', choice(es) if es else Sym('elem', f, 0)),), Sym('call', 'len', (f,), ()), 0)], 'set')

    def dict_from_segs(self, segs):
        ip = self.ip
        from pyabs import isconst
        items, rest = [], []
        for s in segs:
            if s[0] == 'item':
                kv = s[1]
                k, v = ip.unpack(kv, 2)
                if isconst(k):
                    items = [(a, b) for a, b in items if not same(a, k)] + [(k, v)]
                else:
                    rest.append((k, v))
            else:
                for kv in ip.seg_elems(s):
                    k, v = ip.unpack(kv, 2)
                    rest.append((k, v))
        return ip.new_dict(items, rest)

    class Super:
        def __init__(self, obj, cls):
            self.obj, self.cls = obj, cls

    # ------------------------------------------------------------ attributes
    def ext_attr(self, e, name):
        full = e.name + '.' + name
        if full in self.overrides and not callable(self.overrides[full]):
            return self.overrides[full]
        import math
        consts = {'math.pi': math.pi, 'numpy.pi': math.pi, 'math.inf': float('inf'), 'numpy.inf': float('inf'), 'os.sep': '/', 'os.linesep': '\n',
                  'string.ascii_letters': string.ascii_letters, 'string.digits': string.digits, 'string.ascii_lowercase': string.ascii_lowercase,
                  'string.ascii_uppercase': string.ascii_uppercase, 'sys.platform': 'linux', 'sys.maxsize': 2**63 - 1}
        if full in consts:
            return consts[full]
        if name == '__name__':
            return e.name.rsplit('.', 1)[-1]
        if name == '__file__':
            return Sym('in', '__file__:' + e.name)
        return External(full)

    def input_attr(self, o, name):
        if name in o.meta.get('absent', ()):
            self.ip.event('raise', exc='AttributeError', cond=None)
            raise PyRaise(Exc('AttributeError', (name,)))
        f = o.meta.get('attrs')
        t = Sym('attr', o.meta['term'], name)
        return t

    def sym_attr(self, o, name):
        if name == 'shape':
            if o in self.shapes:
                return tuple(self.shapes[o])
            if o.op == 'meth' and o.args[1] in SAMEMETH or o.op == 'call' and o.args[0] in SAMESHAPE and o.args[1]:
                inner = o.args[0] if o.op == 'meth' else o.args[1][0]
                if isinstance(inner, Sym):
                    return self.sym_attr(inner, 'shape')
            if o.op == 'arr' and isinstance(o.args[1], tuple):
                return o.args[1]
            return Sym('shape', o)
        if name == 'size':
            return Sym('size', o)
        if name == 'ndim':
            if o in self.shapes:
                return len(self.shapes[o])
            return Sym('rank', o)
        if name == '__class__':
            return Sym('call', 'type', (o,), ())
        if o.op == 'dict' :
            pass
        return Sym('attr', o, name)

    # ------------------------------------------------------------ context managers
    def enter(self, v):
        ip = self.ip
        if isinstance(v, Sym) and v.op == 'unique' and v.args[0] == 'tempfile.TemporaryDirectory':
            return Sym('unique', 'tempdir', v.args[1], v.args[2])
        if isinstance(v, Obj) and v.kind == 'inst':
            f = ip.find_method(v, '__enter__')
            if isinstance(f, Func):
                return ip.call(Bound(f, v), [], {})
        return v

    # ------------------------------------------------------------ construction of package classes
    def construct(self, cls, args, kw):
        ip = self.ip
        o = Obj('inst', ip.cur, cls=cls)
        o.meta['epoch'] = ip.epoch
        o.meta['extbase'] = any(isinstance(b, External) and b.name not in ('object',) for b in pybases(cls))
        if any(isinstance(b, External) and (b.name in EXCEPTIONS) for b in pybases(cls)):
            return Exc(cls.name, tuple(args))
        if any(isinstance(b, External) and b.name.split('.')[-1] in ('Enum', 'IntEnum', 'NamedTuple') for b in pybases(cls)):
            return Sym('call', cls.qual, tuple(ip.freeze(a) for a in args), tuple(sorted((k, ip.freeze(v)) for k, v in kw.items())))
        ip.event('construct', cls=cls, obj=o)
        if any(d.split('.')[-1] == 'dataclass' for d in getattr(cls, 'decor', [])):
            fields = [s for s in cls.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            args = list(args)
            kw = dict(kw)
            for s in fields:
                n = s.target.id
                if args:
                    v = args.pop(0)
                elif n in kw:
                    v = kw.pop(n)
                elif s.value is not None:
                    v = ip.get(cls.frame.id, n)
                    if isinstance(v, Sym) and v.op == 'call' and v.args[0].endswith('field'):
                        fac = dict(v.args[2]).get('default_factory')
                        v = ip.call(fac, [], {}) if fac is not None else dict(v.args[2]).get('default')
                else:
                    ip.event('raise', exc='TypeError', cond=None)
                    raise PyRaise(Exc('TypeError', ('missing', n)))
                ip.put(o.id, '.' + n, v)
            if args or kw:
                ip.event('raise', exc='TypeError', cond=None)
                raise PyRaise(Exc('TypeError'))
            f = ip.find_method(o, '__post_init__')
            if isinstance(f, Func):
                ip.call(Bound(f, o), [], {})
            return o
        f = ip.find_method(cls, '__init__')
        if isinstance(f, Func):
            ip.call(Bound(f, o), args, kw)
        return o

    # ------------------------------------------------------------ calls
    def call_other(self, f, args, kw):
        return Sym('top', 'call')

    def term(self, name, args, kw):
        ip = self.ip
        return Sym('call', name, tuple(ip.freeze(a) for a in args), tuple(sorted((k, ip.freeze(v)) for k, v in kw.items())))

    def fail(self, exc, *a):
        self.ip.event('raise', exc=exc, cond=None)
        raise PyRaise(Exc(exc, a))

    def call_ext(self, name, args, kw):
        ip = self.ip
        name = CANON.get(name, name)
        if name in self.overrides and callable(self.overrides[name]):
            return self.overrides[name](args, kw)
        if name in EXCEPTIONS:
            return Exc(name, tuple(args))
        short = name.split('.')[-1]
        ip.event('extcall', name=name, args=list(args), kw=dict(kw))
        f = getattr(self, 'x_' + name.replace('.', '_'), None)
        if f is not None:
            r = f(args, kw)
            if r is not NotImplemented:
                return r
        for k, v in kw.items():
            if k == 'out':
                ip.event('mutate', target=v, how=name + '(out=)', via='call')
            if k == 'inplace' and v is True and args:
                ip.event('mutate', target=args[0], how=name + '(inplace=True)', via='call')
            if k == 'copy' and v is False and name == 'numpy.nan_to_num' and args:
                ip.event('mutate', target=args[0], how=name + '(copy=False)', via='call')
            if k in ('overwrite_a', 'overwrite_input', 'overwrite_x') and v is True and args:
                ip.event('mutate', target=args[0], how='%s(%s=True)' % (name, k), via='call')
        if name in INPLACE_FUNCS and len(args) > INPLACE_FUNCS[name]:
            ip.event('mutate', target=args[INPLACE_FUNCS[name]], how=name, via='call')
        # choices in arguments of pure functions are kept apart
        if any(isinstance(a, Choice) for a in args) and name.split('.')[0] in ('numpy', 'math', 'str', 'int', 'float'):
            i = next(i for i, a in enumerate(args) if isinstance(a, Choice))
            if len(args[i].vals) <= 8:
                return choice([self.call_ext(name, args[:i] + [v] + args[i + 1:], kw) for v in args[i].vals])
        r = self.term(name, args, kw)
        ip.event('extresult', name=name, result=r, args=list(args), kw=dict(kw))
        return r

    # -- builtins
    def x_len(self, a, kw):
        v = a[0]
        ip = self.ip
        if isinstance(v, (str, tuple, bytes)):
            return len(v)
        if isinstance(v, Obj) and v.kind in ('list', 'set'):
            return ip.list_len(v)
        if isinstance(v, Obj) and v.kind == 'dict' and not ip.get(v.id, 'rest', ()):
            return len(ip.get(v.id, 'items', ()))
        if isinstance(v, Obj) and v.kind == 'arr':
            sh = ip.get(v.id, 'shape')
            return sh[0] if isinstance(sh, tuple) and sh else self.dim(ip.freeze(v), 0)
        if isinstance(v, Choice):
            return choice([self.x_len([x], {}) for x in v.vals])
        if v is None or isinstance(v, (int, float)):
            self.fail('TypeError')
        if isinstance(v, Obj) and v.kind == 'inst':
            m = ip.find_method(v, '__len__')
            if isinstance(m, Func):
                return ip.call(Bound(m, v), [], {})
        if isinstance(v, Sym) and v.op == 'shape':
            return Sym('rank', v.args[0])
        if isinstance(v, Sym) and v.op == 'dict':
            return self.term('len', a, kw)
        return self.dim(ip.freeze(v), 0) if isinstance(v, (Sym, Obj)) else self.term('len', a, kw)

    def x_str(self, a, kw):
        if not a:
            return ''
        return self.ip.tostr(a[0])

    def x_repr(self, a, kw):
        return mkstr([self.ip.fmt_field(a[0], 'r', '')])

    def x_format(self, a, kw):
        return mkstr([self.ip.fmt_field(a[0], '', a[1] if len(a) > 1 else '')])

    def x_int(self, a, kw):
        if not a:
            return 0
        v = a[0]
        if isinstance(v, NUM) and len(a) == 1:
            try:
                return int(v)
            except (ValueError, OverflowError):
                self.fail('ValueError')
        if isinstance(v, str) and all(isinstance(x, (int, str)) for x in a):
            try:
                return int(*a)
            except ValueError:
                self.fail('ValueError')
        if isinstance(v, Sym) and len(a) == 1:
            if self.kind(v) == 'int':
                return v
            return Sym('call', 'int', (v,), ())
        if isinstance(v, Other):
            self.fail('ValueError')
        return NotImplemented

    def x_float(self, a, kw):
        if a and isinstance(a[0], (int, float, str)):
            try:
                return float(a[0])
            except ValueError:
                self.fail('ValueError')
        if a and isinstance(a[0], Other):
            self.fail('ValueError')
        return NotImplemented

    def x_bool(self, a, kw):
        t, c = self.ip.truth(a[0]) if a else (False, None)
        return c if t is None else t

    def x_abs(self, a, kw):
        return abs(a[0]) if isinstance(a[0], NUM) else NotImplemented

    def x_range(self, a, kw):
        if all(isinstance(x, int) for x in a):
            r = range(*a)
            if len(r) <= 400:
                return self.ip.mklist(list(r))
        fa = [self.ip.freeze(x) for x in a]
        if len(fa) == 1:
            return Sym('range', 0, fa[0], 1)
        return Sym('range', fa[0], fa[1], fa[2] if len(fa) > 2 else 1)

    def x_enumerate(self, a, kw):
        ip = self.ip
        start = a[1] if len(a) > 1 else kw.get('start', 0)
        segs = ip.iter_segs(a[0])
        out = []
        if all(s[0] == 'item' for s in segs):
            return ip.new_list([('item', (ip.binop('+', i, start), s[1])) for i, s in enumerate(segs)])

        def walk(s):
            if s[0] == 'item':
                idx = Sym('idx', ip.nloop)
                return ('item', (ip.binop('+', idx, start), s[1]))
            if s[0] == 'rep':
                body = []
                for x in s[1]:
                    if x[0] == 'item':
                        body.append(('item', (ip.binop('+', Sym('idx', s[3]), start), x[1])))
                    else:
                        body.append(walk(x))
                return ('rep', tuple(body), s[2], s[3])
            if s[0] == 'alt':
                return ('alt', tuple(tuple(walk(x) for x in al) for al in s[1]))
            return s
        for s in segs:
            out.append(walk(s))
        return ip.new_list(out)

    def x_zip(self, a, kw):
        ip = self.ip
        ss = [ip.iter_segs(x) for x in a]
        if all(all(s[0] == 'item' for s in x) for x in ss):
            if kw.get('strict') is True and len(set(map(len, ss))) > 1:
                self.fail('ValueError')
            return ip.new_list([('item', tuple(s[1] for s in row)) for row in zip(*ss)])
        if all(len(x) == 1 and x[0][0] == 'rep' and len(x[0][1]) == 1 and x[0][1][0][0] == 'item' for x in ss):
            lid = ss[0][0][3]
            # the same position in all of them
            vals = tuple(relabel(x[0][1][0][1], x[0][3], lid) for x in ss)
            return ip.new_list([('rep', (('item', vals),), ss[0][0][2], lid)])
        # align item prefix when one side is unknown
        vals = []
        for x in ss:
            es = []
            for s in x:
                es += ip.seg_elems(s)
            vals.append(es)
        n = [len(x) for x in ss if all(s[0] == 'item' for s in x)]
        if n:
            rows = []
            for i in range(min(n)):
                row = []
                for x, es, orig in zip(ss, vals, a):
                    if all(s[0] == 'item' for s in x):
                        row.append(x[i][1])
                    else:
                        row.append(ip.getitem(orig, i))
                rows.append(('item', tuple(row)))
            return ip.new_list(rows)
        if all(vals):
            return ip.new_list([('rep', (('item', tuple(choice(v) for v in vals)),), Sym('count', ip.nloop), ip.nloop)])
        return ip.new_list([])

    def x_list(self, a, kw):
        if not a:
            o = self.ip.new_list([])
        elif isinstance(a[0], Choice):
            return choice([self.x_list([x], kw) for x in a[0].vals])
        else:
            o = self.ip.new_list(self.ip.iter_segs(a[0]))
        o.meta['epoch'] = self.ip.epoch
        return o

    def x_tuple(self, a, kw):
        if not a:
            return ()
        segs = self.ip.iter_segs(a[0])
        if all(s[0] == 'item' for s in segs):
            return tuple(s[1] for s in segs)
        return self.ip.new_list(segs)

    def x_set(self, a, kw):
        ip = self.ip
        if not a:
            return ip.new_list([], 'set')
        segs = ip.iter_segs(a[0])
        out = []
        for s in segs:
            if s[0] == 'item' and any(same(s, t) for t in out):
                continue
            out.append(s)
        return ip.new_list(out, 'set')

    x_frozenset = x_set

    def x_dict(self, a, kw):
        ip = self.ip
        items, rest = [], ()
        if a:
            v = a[0]
            if isinstance(v, Obj) and v.kind == 'dict':
                items, rest = list(ip.get(v.id, 'items', ())), ip.get(v.id, 'rest', ())
            elif isinstance(v, (Obj, tuple)) and not (isinstance(v, Obj) and v.kind in ('inst', 'arr')):
                d = self.dict_from_segs(ip.iter_segs(v))
                items, rest = list(ip.get(d.id, 'items', ())), ip.get(d.id, 'rest', ())
            else:
                rest = ((Sym('elem', ip.freeze(v), 0), Sym('item', ip.freeze(v), Sym('elem', ip.freeze(v), 0))),)
        for k, v in kw.items():
            if k == '**':
                rest += ((Sym('top', 'key'), v),)
            else:
                items = [(x, y) for x, y in items if x != k] + [(k, v)]
        o = ip.new_dict(items, rest)
        o.meta['epoch'] = ip.epoch
        return o

    def minmax(self, name, a, kw):
        vals = a
        if len(a) == 1:
            if isinstance(a[0], Sym):
                return NotImplemented
            segs = self.ip.iter_segs(a[0])
            if not all(s[0] == 'item' for s in segs):
                return NotImplemented
            vals = [s[1] for s in segs]
        if kw.get('key') is not None:
            return NotImplemented
        if vals and all(isinstance(v, NUM) for v in vals):
            return (max if name == 'max' else min)(vals)
        flat = []
        for v in vals:
            f = self.ip.freeze(v)
            if f not in flat:
                flat.append(f)
        if len(flat) == 1:
            return flat[0]
        return Sym('call', name, tuple(flat), ())

    def x_max(self, a, kw):
        return self.minmax('max', a, kw)

    def x_min(self, a, kw):
        return self.minmax('min', a, kw)

    def x_sum(self, a, kw):
        ip = self.ip
        segs = ip.iter_segs(a[0])
        if all(s[0] == 'item' for s in segs):
            v = a[1] if len(a) > 1 else 0
            for s in segs:
                v = ip.binop('+', v, s[1])
            return v
        if isinstance(a[0], Obj) and a[0].kind == 'list' and len(a) > 1 and isinstance(a[1], Obj):
            out = list(ip.segs(a[1]))
            for s in segs:
                for e in ip.seg_elems(s):
                    if isinstance(e, Obj) and e.kind == 'list':
                        out += [s if s[0] != 'item' else x for x in ip.segs(e)] if s[0] == 'item' else [('rep', ip.segs(e), s[2], s[3])]
            return ip.new_list(out)
        return NotImplemented

    def anyall(self, name, a):
        ip = self.ip
        v = a[0]
        if isinstance(v, Sym) and v.op not in ('list',):
            return Sym('call', 'numpy.' + name, (v,), ())
        conds = []
        for s in ip.iter_segs(v):
            for e in ip.seg_elems(s):
                t, c = ip.truth(e)
                if s[0] == 'item':
                    if t is (name == 'any'):
                        return name == 'any'
                    if t is None:
                        conds.append(c)
                elif t is None:
                    conds.append(c)
                elif t is (name == 'any'):
                    conds.append(Sym('top', 'nonempty'))
        if not conds:
            return name == 'all'
        if name == 'any':
            return Sym('any', Sym('or', *conds) if len(conds) > 1 else conds[0])
        return Sym('all', Sym('and', *conds) if len(conds) > 1 else conds[0])

    def x_any(self, a, kw):
        return self.anyall('any', a)

    def x_all(self, a, kw):
        return self.anyall('all', a)

    def x_sorted(self, a, kw):
        from pyabs import isconst
        ip = self.ip
        v = a[0]
        if isinstance(v, Obj) and v.kind in ('list', 'set', 'dict'):
            es = [s for s in (ip.segs(v) if v.kind != 'dict' else ip.iter_segs(v))]
            if all(s[0] == 'item' and isconst(s[1]) for s in es) and not kw:
                try:
                    return ip.mklist(sorted(s[1] for s in es))
                except TypeError:
                    pass
            if len(es) <= 1 and all(s[0] == 'item' for s in es):
                return ip.new_list(es)
        t = Sym('call', 'sorted', (ip.freeze(v),), tuple(sorted((k, ip.freeze(x)) for k, x in kw.items())))
        es = ip.elems_of(v) if not isinstance(v, Sym) else []
        ip.nloop += 1
        if es:
            n = ip.list_len(v) if isinstance(v, Obj) and v.kind != 'dict' else Sym('count', ip.nloop)
            return ip.new_list([('rep', (('item', choice(es)),), n, ip.nloop)])
        return t

    def x_reversed(self, a, kw):
        ip = self.ip
        segs = ip.iter_segs(a[0])
        return ip.new_list([s for s in reversed(segs)]) if all(s[0] == 'item' for s in segs) else ip.new_list([(s if s[0] != 'rep' else ('rep', s[1], s[2], s[3])) for s in reversed(segs)])

    def x_map(self, a, kw):
        ip = self.ip
        f = a[0]
        it = a[1] if len(a) == 2 else self.x_zip(a[1:], {})

        def app(v):
            return ip.call(f, [v] if len(a) == 2 else list(v), {})

        def walk(s):
            if s[0] == 'item':
                return ('item', app(s[1]))
            if s[0] == 'rep':
                return ('rep', tuple(walk(x) for x in s[1]), s[2], s[3])
            if s[0] == 'alt':
                return ('alt', tuple(tuple(walk(x) for x in al) for al in s[1]))
            return s
        return ip.new_list([walk(s) for s in ip.iter_segs(it)])

    def x_filter(self, a, kw):
        ip = self.ip
        out = []
        for s in ip.iter_segs(a[1]):
            if s[0] == 'item':
                t, c = ip.truth(ip.call(a[0], [s[1]], {}) if a[0] is not None else s[1])
                if t is True:
                    out.append(s)
                elif t is None:
                    out.append(('alt', ((), (s,))))
            else:
                out.append(s)
        return ip.new_list(out)

    def x_isinstance(self, a, kw):
        v, t = a
        names = [x.name if isinstance(x, External) else getattr(x, 'name', '?') for x in (t if isinstance(t, tuple) else (t,))]
        if isinstance(v, Choice):
            rs = [self.x_isinstance([x, t], {}) for x in v.vals]
            if all(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return Sym('isinstance', self.ip.freeze(v), tuple(names))
        k = {bool: ['bool', 'int'], int: ['int'], float: ['float'], str: ['str'], Str: ['str'], tuple: ['tuple'], bytes: ['bytes'], type(None): ['NoneType']}.get(type(v))
        if k is not None:
            return any(n.split('.')[-1] in k for n in names)
        if isinstance(v, Other):
            return any(n == 'str' for n in names) if isinstance(v.what, str) else False
        if isinstance(v, Obj) and v.kind in ('list', 'dict', 'set'):
            return any(n.split('.')[-1] in (v.kind, 'Iterable', 'Sequence', 'Mapping', 'Collection') for n in names)
        if isinstance(v, Obj) and v.kind == 'inst' and isinstance(v.meta.get('cls'), Cls):
            c = v.meta['cls']
            cs = [c] + pybases(c)
            for x in (t if isinstance(t, tuple) else (t,)):
                if x in cs or isinstance(x, External) and x.name == 'object':
                    return True
            if all(isinstance(x, Cls) for x in (t if isinstance(t, tuple) else (t,))):
                return False
        if isinstance(v, Sym):
            kd = self.kind(v)
            if kd == 'int' and any(n in ('int', 'numbers.Integral', 'numbers.Number') for n in names):
                return True if v.op in ('dim', 'rank') else Sym('isinstance', v, tuple(names))
            if v in self.shapes and all(n in ('str', 'int', 'float', 'bool', 'dict', 'NoneType') for n in names):
                return False
        return Sym('isinstance', self.ip.freeze(v), tuple(names))

    def x_callable(self, a, kw):
        v = a[0]
        if isinstance(v, (Func, Bound, Meth, Cls, External)):
            return True
        if isinstance(v, (str, int, float, tuple, type(None))):
            return False
        return NotImplemented

    def x_type(self, a, kw):
        v = a[0]
        ip = self.ip
        if isinstance(v, Obj) and v.kind == 'inst':
            if 'typename' in v.meta:
                t = Obj('inst', ip.cur, cls=None)
                t.meta['term'] = Sym('call', 'type', (v.meta['term'],), ())
                ip.put(t.id, '.__name__', v.meta['typename'])
                ip.put(t.id, '.__qualname__', v.meta['typename'])
                ip.put(t.id, '.__module__', Sym('attr', t.meta['term'], '__module__'))
                ip.put(t.id, '.__mro__', Sym('attr', t.meta['term'], '__mro__'))
                return t
            if v.meta.get('cls') is not None:
                return v.meta['cls']
        if isinstance(v, Choice):
            return choice([self.x_type([x], {}) for x in v.vals])
        k = {bool: 'bool', int: 'int', float: 'float', str: 'str', Str: 'str', tuple: 'tuple'}.get(type(v))
        if k:
            return External(k)
        return self.term('type', a, {})

    def x_hasattr(self, a, kw):
        v, n = a
        ip = self.ip
        if isinstance(v, Obj) and v.kind == 'inst':
            if ip.get(v.id, '.' + n) is not UNDEF:
                return True
            if n in v.meta.get('absent', ()):
                return False
            if isinstance(v.meta.get('cls'), Cls):
                if ip.find_method(v, n) is not None:
                    return True
                if not v.meta.get('extbase'):
                    return False
        if isinstance(v, Choice):
            rs = [self.x_hasattr([x, n], {}) for x in v.vals]
            if all(r is True for r in rs) or all(r is False for r in rs):
                return rs[0]
        return Sym('hasattr', ip.freeze(v), n)

    def x_getattr(self, a, kw):
        v, n = a[0], a[1]
        ip = self.ip
        if isinstance(n, str):
            if len(a) > 2:
                h = self.x_hasattr([v, n], {})
                if h is False:
                    return a[2]
                if h is True:
                    return ip.getattr(v, n)
                if isinstance(v, Mod):
                    x = ip.get(v.frame.id, n)
                    return a[2] if x is UNDEF else x
                return choice([ip.getattr(v, n), a[2]])
            return ip.getattr(v, n)
        return NotImplemented

    def x_vars(self, a, kw):
        return self.ip.getattr(a[0], '__dict__') if a else Sym('top', 'vars')

    def x_setattr(self, a, kw):
        if isinstance(a[1], str):
            self.ip.setattr(a[0], a[1], a[2])
            return None
        self.ip.event('mutate', target=a[0], how='setattr', via='call')
        return None

    def x_print(self, a, kw):
        fo = kw.get('file')
        if isinstance(fo, Obj) and fo.kind == 'file':
            sep, end = kw.get('sep'), kw.get('end')
            parts = []
            for i, x in enumerate(a):
                if i:
                    parts += parts_of(' ' if sep is None else sep)
                parts += parts_of(self.ip.tostr(x))
            parts += parts_of('\n' if end is None else end)
            self.ip.event('write', path=fo.meta['path'], mode=fo.meta['mode'], value=mkstr(parts), file=fo)
            return None
        self.ip.event('print', args=list(a), kw=dict(kw))
        return None

    def x_open(self, a, kw):
        ip = self.ip
        path = a[0] if a else kw.get('file')
        mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
        o = Obj('file', ip.cur, cls=None)
        path = unpath(ip.freeze(path))
        o.meta['path'] = path
        o.meta['mode'] = mode
        ip.event('open', path=path, mode=mode, file=o)
        return o

    x_io_open = x_open

    def x_iter(self, a, kw):
        return a[0]

    def x_next(self, a, kw):
        ip = self.ip
        if isinstance(a[0], Obj) and a[0].kind == 'list':
            segs = ip.segs(a[0])
            if segs and segs[0][0] == 'item':
                return segs[0][1]
            es = ip.elems_of(a[0])
            if len(a) > 1:
                es = es + [a[1]]
            if es:
                return choice(es)
            self.fail('StopIteration')
        return NotImplemented

    def x_property(self, a, kw):
        return NotImplemented

    def x_round(self, a, kw):
        if all(isinstance(x, NUM) for x in a):
            return round(*a)
        return NotImplemented

    def x_pow(self, a, kw):
        return self.ip.binop('**', a[0], a[1]) if len(a) == 2 else NotImplemented

    def x_chr(self, a, kw):
        return chr(a[0]) if isinstance(a[0], int) else NotImplemented

    def x_ord(self, a, kw):
        return ord(a[0]) if isinstance(a[0], str) and len(a[0]) == 1 else NotImplemented

    def x_divmod(self, a, kw):
        return (self.ip.binop('//', a[0], a[1]), self.ip.binop('%', a[0], a[1]))

    # -- math, numpy
    def x_math_floor(self, a, kw):
        import math
        return math.floor(a[0]) if isinstance(a[0], NUM) else NotImplemented

    def x_math_ceil(self, a, kw):
        import math
        return math.ceil(a[0]) if isinstance(a[0], NUM) else NotImplemented

    def x_math_log2(self, a, kw):
        import math
        return math.log2(a[0]) if isinstance(a[0], NUM) and a[0] > 0 else NotImplemented

    def dtype_name(self, d):
        if isinstance(d, str):
            return d
        if isinstance(d, External):
            n = d.name.split('.')[-1]
            return {'int': 'int64', 'float': 'float64', 'bool': 'bool'}.get(n, n)
        if isinstance(d, Sym) and d.op == 'call' and d.args[0] == 'numpy.dtype' and d.args[1]:
            return self.dtype_name(d.args[1][0])
        return None

    def x_numpy_iinfo(self, a, kw):
        ip = self.ip
        d = a[0]
        if isinstance(d, Other):
            self.fail('TypeError')
        n = self.dtype_name(d)
        if n is not None:
            if n not in IINFO:
                self.fail('ValueError')
            o = Obj('inst', ip.cur, cls=None)
            o.meta['term'] = self.term('numpy.iinfo', a, {})
            ip.put(o.id, '.min', IINFO[n][0])
            ip.put(o.id, '.max', IINFO[n][1])
            ip.put(o.id, '.bits', int(re.sub(r'\D', '', n) or 64))
            return o
        return NotImplemented

    def x_numpy_dtype(self, a, kw):
        if isinstance(a[0], Other):
            self.fail('TypeError')
        return NotImplemented

    def mkarr(self, name, shape, kw, args):
        ip = self.ip
        if isinstance(shape, (int,)) or isinstance(shape, Sym) and self.kind(shape) == 'int':
            shape = (shape,)
        o = Obj('arr', ip.cur, init=name)
        if isinstance(shape, Obj) and shape.kind == 'list':
            shape = self.x_tuple([shape], {})
        ip.put(o.id, 'shape', shape if isinstance(shape, tuple) else ip.freeze(shape))
        ip.put(o.id, 'stores', ())
        return o

    def x_numpy_ndarray(self, a, kw):
        return self.mkarr('ndarray', a[0] if a else kw.get('shape'), kw, a)

    def x_numpy_zeros(self, a, kw):
        return self.mkarr('zeros', a[0] if a else kw.get('shape'), kw, a)

    def x_numpy_empty(self, a, kw):
        return self.mkarr('empty', a[0] if a else kw.get('shape'), kw, a)

    def x_numpy_ones(self, a, kw):
        return self.mkarr('ones', a[0] if a else kw.get('shape'), kw, a)

    def x_numpy_full(self, a, kw):
        return self.mkarr('full', a[0] if a else kw.get('shape'), kw, a)

    def x_numpy_shape(self, a, kw):
        return self.ip.getattr(a[0], 'shape')

    def x_numpy_size(self, a, kw):
        return self.ip.getattr(a[0], 'size')

    def x_numpy_ndim(self, a, kw):
        return self.ip.getattr(a[0], 'ndim')

    def x_numpy_ravel(self, a, kw):
        return self.call_meth(a[0], 'ravel', a[1:], kw)

    def x_numpy_reshape(self, a, kw):
        return self.call_meth(a[0], 'reshape', a[1:], kw)

    def x_numpy_transpose(self, a, kw):
        f = self.ip.freeze(a[0])
        return Sym('attr', f, 'T') if len(a) == 1 and not kw and isinstance(f, Sym) else NotImplemented

    # -- files, processes, temporary directories
    def x_tempfile_mkdtemp(self, a, kw):
        return self.ip.unique('tempfile.mkdtemp')

    def x_tempfile_TemporaryDirectory(self, a, kw):
        return self.ip.unique('tempfile.TemporaryDirectory')

    def x_tempfile_NamedTemporaryFile(self, a, kw):
        ip = self.ip
        o = Obj('file', ip.cur, cls=None)
        o.meta['path'] = ip.unique('tempfile.NamedTemporaryFile')
        o.meta['mode'] = kw.get('mode', 'w+')
        ip.put(o.id, '.name', o.meta['path'])
        return o

    def x_tempfile_mkstemp(self, a, kw):
        return (Sym('call', 'fd', (), ()), self.ip.unique('tempfile.mkstemp'))

    def x_uuid_uuid4(self, a, kw):
        return self.ip.unique('uuid.uuid4')

    def x_os_path_join(self, a, kw):
        if all(isinstance(x, str) for x in a):
            return os.path.join(*a)
        return NotImplemented

    def x_os_path_splitext(self, a, kw):
        if isinstance(a[0], str):
            return os.path.splitext(a[0])
        f = self.term('os.path.splitext', a, kw)
        return (Sym('item', f, 0), Sym('item', f, 1))

    def x_os_path_basename(self, a, kw):
        return os.path.basename(a[0]) if isinstance(a[0], str) else NotImplemented

    def x_os_path_dirname(self, a, kw):
        return os.path.dirname(a[0]) if isinstance(a[0], str) else NotImplemented

    def x_re_compile(self, a, kw):
        return self.term('re.compile', a, kw)

    def x_re_fullmatch(self, a, kw):
        return self.rematch('fullmatch', a, kw)

    def x_re_match(self, a, kw):
        return self.rematch('match', a, kw)

    def x_re_search(self, a, kw):
        return self.rematch('search', a, kw)

    def rematch(self, how, a, kw):
        pat, s = a[0], a[1]
        if isinstance(pat, Sym) and pat.op == 'call' and pat.args[0] == 're.compile':
            pat = pat.args[1][0]
        if isinstance(pat, str) and isinstance(s, str) and len(a) == 2 and not kw:
            m = getattr(re, how)(pat, s)
            return None if m is None else Sym('rematch', how, pat, s, m.group(0))
        return NotImplemented

    # -- methods of abstract values
    def call_meth(self, o, name, args, kw):
        ip = self.ip
        if isinstance(o, Choice):
            out, res, S0, err = [], None, ip.S, None
            for x in o.vals:
                if x is UNDEF:
                    continue
                ip.S = S0.copy()
                try:
                    out.append(ip.call(ip.getattr(x, name), args, kw))
                except PyRaise as e:
                    err = e
                    continue
                res = ip.merge(res, ip.S)
            if res is None:
                ip.S = S0
                raise err
            ip.S = res
            return choice(out)
        if isinstance(o, (str, Str)):
            return self.str_meth(o, name, args, kw)
        if isinstance(o, self.Super):
            if isinstance(o.cls, Cls):
                for b in pybases(o.cls):
                    if isinstance(b, Cls):
                        m = ip.find_method(b, name)
                        if isinstance(m, Func):
                            return ip.call(Bound(m, o.obj), args, kw)
            return Sym('meth', 'super', name, tuple(ip.freeze(a) for a in args), ())
        if isinstance(o, Obj):
            if o.kind == 'list' or o.kind == 'set':
                return self.list_meth(o, name, args, kw)
            if o.kind == 'dict':
                return self.dict_meth(o, name, args, kw)
            if o.kind == 'file':
                return self.file_meth(o, name, args, kw)
            if o.kind == 'arr':
                if name in ('fill', 'sort', 'put'):
                    ip.put(o.id, 'stores', ip.get(o.id, 'stores', ()) + ((Sym('top', name), Sym('top', name)),))
                    return None
                if name in ('astype', 'copy'):
                    f = ip.freeze(o)
                    return Sym('meth', f, name, tuple(ip.freeze(a) for a in args), ())
        if isinstance(o, Sym) and o.op in ('list',) and name in ('copy',):
            return ip.new_list(o.args)
        if isinstance(o, tuple) and name in ('index', 'count'):
            from pyabs import isconst
            if isconst(o) and isconst(args[0]):
                try:
                    return getattr(o, name)(args[0])
                except ValueError:
                    self.fail('ValueError')
        if isinstance(o, NUM):
            if name == 'is_integer':
                return float(o).is_integer()
            if name in ('bit_length', 'conjugate') and not args:
                return getattr(o, name)()
        if isinstance(o, Other):
            ip.event('extcall', name='str.' + name, args=[o] + list(args), kw=dict(kw))
            return Other(o.what) if name in ('lower', 'upper', 'strip', 'title') else Sym('meth', Sym('other', o.what), name, tuple(ip.freeze(a) for a in args), ())
        if isinstance(o, Func):
            return Sym('meth', Sym('func', o.qual), name, tuple(ip.freeze(a) for a in args), ())
        f = ip.freeze(o)
        ip.event('methcall', target=o, name=name, args=list(args), kw=dict(kw))
        if isinstance(f, Sym):
            if name in ('write_text', 'write_bytes') and (args or 'data' in kw):
                fo = self.x_open([f, 'w' if name == 'write_text' else 'wb'], {})
                ip.event('write', path=fo.meta['path'], mode=fo.meta['mode'], value=args[0] if args else kw['data'], file=fo)
                return Sym('call', 'nwritten', (), ())
            if name == 'open' and ispath(f):
                return self.x_open([f] + list(args), kw)
            if f.op == 'call' and f.args[0] == 're.compile' and name in ('match', 'fullmatch', 'search') and args:
                return self.call_ext('re.' + name, [f.args[1][0]] + list(args), kw)
            if name in MUTATING and not (name in ('pop', 'add', 'update', 'remove', 'insert') and isinstance(o, Obj) and o.kind == 'inst' and not o.meta.get('input')):
                ip.event('mutate', target=o, how='.%s()' % name, via='method')
            if kw.get('inplace') is True:
                ip.event('mutate', target=o, how='.%s(inplace=True)' % name, via='method')
            if 'out' in kw:
                ip.event('mutate', target=kw['out'], how='.%s(out=)' % name, via='method')
            if name == 'render' and (f.op in ('meth', 'call')):
                r = self.render(f, args, kw)
                if r is not None:
                    return r
            if name == 'cleanup':
                return None
            if name in ('item',) and not args:
                return f
            if name == 'tolist' and not args:
                return f
        r = Sym('meth', f, name, tuple(ip.freeze(a) for a in args), tuple(sorted((k, ip.freeze(v)) for k, v in kw.items())))
        if name == 'astype' and not ip.muted:
            # what was known where it was converted
            ip.atconv[r] = ip.S.pc if r not in ip.atconv else ip.atconv[r] & ip.S.pc
        ip.event('methresult', target=o, name=name, result=r, args=list(args), kw=dict(kw))
        return r

    def str_meth(self, s, name, args, kw):
        ip = self.ip
        if name == 'format':
            return self.format(s, args, kw)
        if name == 'format_map':
            d = {}
            if isinstance(args[0], Obj) and args[0].kind == 'dict':
                d = {k: v for k, v in ip.get(args[0].id, 'items', ()) if isinstance(k, str)}
            return self.format(s, [], d)
        if name == 'join':
            return self.join(s, args[0])
        from pyabs import isconst
        if isinstance(s, str) and all(isconst(a) for a in args) and all(isconst(v) for v in kw.values()):
            try:
                r = getattr(s, name)(*args, **kw)
            except (ValueError, TypeError, AttributeError, IndexError, LookupError) as e:
                self.fail(type(e).__name__)
            if isinstance(r, list):
                return ip.mklist(r)
            return r
        if isinstance(s, str) and name in ('startswith', 'endswith') and len(args) == 1 and isinstance(args[0], (Obj, tuple)):
            vals = tuple(x for x in ip.elems_of(args[0]))
            if all(isinstance(x, str) for x in vals):
                return getattr(s, name)(vals)
        if isinstance(s, Str):
            if name == 'replace' and all(isinstance(a, str) for a in args[:2]):
                return mkstr([p.replace(args[0], args[1]) if isinstance(p, str) else p for p in s.parts])
            if name in ('strip', 'rstrip', 'lstrip'):
                parts = list(s.parts)
                if parts and isinstance(parts[0], str) and name in ('strip', 'lstrip'):
                    parts[0] = parts[0].lstrip(*args)
                if parts and isinstance(parts[-1], str) and name in ('strip', 'rstrip'):
                    parts[-1] = parts[-1].rstrip(*args)
                return mkstr(parts)
            if name in ('startswith',) and isinstance(args[0], str) and isinstance(s.parts[0], str) and len(s.parts[0]) >= len(args[0]):
                return s.parts[0].startswith(args[0])
            if name in ('endswith',) and isinstance(args[0], str) and isinstance(s.parts[-1], str) and len(s.parts[-1]) >= len(args[0]):
                return s.parts[-1].endswith(args[0])
            if name in ('split', 'splitlines', 'rsplit', 'partition'):
                return Sym('meth', s, name, tuple(ip.freeze(a) for a in args), ())
            if name in ('encode', 'find', 'index', 'count', 'isidentifier', 'isdigit'):
                return Sym('meth', s, name, tuple(ip.freeze(a) for a in args), ())
            if name in ('lower', 'upper', 'title', 'expandtabs', 'ljust', 'rjust', 'center', 'zfill', 'removesuffix', 'removeprefix', 'capitalize', 'casefold', 'swapcase', 'translate', 'replace'):
                return mkstr([OpS(name, s)])
        return Sym('meth', ip.freeze(s), name, tuple(ip.freeze(a) for a in args), tuple(sorted((k, ip.freeze(v)) for k, v in kw.items())))

    def list_meth(self, o, name, args, kw):
        ip = self.ip
        segs = ip.segs(o)
        if name in ('append', 'add', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', 'update', 'discard'):
            ip.mutated(o, '.%s()' % name)
            if o.meta.get('epoch') == 'import' and ip.epoch != 'import':
                ip.event('setglobal', name='list', value=None, mod=str(o.site))
        if name == 'append':
            ip.put(o.id, 'segs', segs + (('item', args[0]),))
            return None
        if name == 'add':
            if not any(s[0] == 'item' and same(s[1], args[0]) for s in segs):
                ip.put(o.id, 'segs', segs + (('item', args[0]),))
            return None
        if name in ('extend', 'update'):
            for a in args:
                segs = segs + tuple(ip.iter_segs(a))
            ip.put(o.id, 'segs', segs)
            return None
        if name == 'insert':
            if isinstance(args[0], int) and all(s[0] == 'item' for s in segs):
                i = args[0]
                ip.put(o.id, 'segs', segs[:i] + (('item', args[1]),) + segs[i:])
            elif args[0] == 0:
                ip.put(o.id, 'segs', (('item', args[1]),) + segs)
            else:
                es = ip.elems_of(o) + [args[1]]
                ip.nloop += 1
                ip.put(o.id, 'segs', (('rep', (('item', choice(es)),), Sym('count', ip.nloop), ip.nloop),))
            return None
        if name == 'copy':
            return ip.new_list(segs, o.kind)
        if name == 'pop':
            i = args[0] if args else -1
            if all(s[0] == 'item' for s in segs) and isinstance(i, int) and segs:
                if not -len(segs) <= i < len(segs):
                    self.fail('IndexError')
                i %= len(segs)
                ip.put(o.id, 'segs', segs[:i] + segs[i + 1:])
                return segs[i][1]
            es = ip.elems_of(o)
            return choice(es) if es else self.fail('IndexError')
        if name == 'clear':
            ip.put(o.id, 'segs', ())
            return None
        if name == 'reverse':
            ip.put(o.id, 'segs', tuple(reversed(segs)))
            return None
        if name in ('remove', 'discard'):
            if all(s[0] == 'item' for s in segs):
                for i, s in enumerate(segs):
                    if same(s[1], args[0]):
                        ip.put(o.id, 'segs', segs[:i] + segs[i + 1:])
                        break
            return None
        if name == 'sort':
            from pyabs import isconst
            if all(s[0] == 'item' and isconst(s[1]) for s in segs) and not kw:
                ip.put(o.id, 'segs', tuple(('item', v) for v in sorted(s[1] for s in segs)))
            else:
                es = ip.elems_of(o)
                if es:
                    ip.nloop += 1
                    ip.put(o.id, 'segs', (('rep', (('item', choice(es)),), ip.list_len(o), ip.nloop),))
            return None
        if name in ('union', 'difference', 'intersection', 'symmetric_difference') and o.kind == 'set':
            r = o
            for a in args:
                r = self.set_op({'union': '|', 'difference': '-', 'intersection': '&', 'symmetric_difference': '^'}[name], r, a)
            return r
        if name == 'issubset' and o.kind == 'set':
            d = self.set_op('-', o, args[0])
            t, c = ip.truth(d)
            return negate(c) if t is None else not t
        if name == 'issuperset' and o.kind == 'set':
            return self.list_meth(self.x_set([args[0]], {}), 'issubset', [o], {})
        if name == 'isdisjoint' and o.kind == 'set':
            t, c = ip.truth(self.set_op('&', o, args[0]))
            return negate(c) if t is None else not t
        if name == 'index':
            from pyabs import isconst
            if all(s[0] == 'item' and isconst(s[1]) for s in segs) and isconst(args[0]):
                vals = [s[1] for s in segs]
                if args[0] not in vals:
                    self.fail('ValueError')
                return vals.index(args[0])
            if isinstance(args[0], Other) and all(s[0] == 'item' and isconst(s[1]) for s in segs):
                self.fail('ValueError')
            if isinstance(args[0], Sym) and all(s[0] == 'item' for s in segs):
                return Sym('meth', ip.freeze(o), 'index', (args[0],), ())
        if name == 'count':
            pass
        return Sym('meth', ip.freeze(o), name, tuple(ip.freeze(a) for a in args), ())

    def dict_meth(self, o, name, args, kw):
        ip = self.ip
        from pyabs import isconst
        items, rest = ip.get(o.id, 'items', ()), ip.get(o.id, 'rest', ())
        if name == 'get':
            k = args[0]
            d = args[1] if len(args) > 1 else kw.get('default')
            if isinstance(k, Choice):
                return choice([self.dict_meth(o, 'get', [x] + list(args[1:]), kw) for x in k.vals])
            if isconst(k):
                for a, b in items:
                    if same(a, k):
                        if isinstance(b, Choice) and any(x is UNDEF for x in b.vals):
                            return choice([x for x in b.vals if x is not UNDEF] + [d])
                        return b
                if not rest:
                    return d
            if isinstance(k, Other) and not rest:
                return d
            vals = [b for a, b in items + rest]
            return choice(vals + [d]) if vals else d
        if name == 'keys':
            return ip.new_list(ip.iter_segs(o))
        if name in ('values', 'items'):
            ip.nloop += 1
            segs = [('item', (k, v) if name == 'items' else v) for k, v in items]
            if rest:
                segs.append(('rep', tuple(('item', (k, v) if name == 'items' else v) for k, v in rest), Sym('count', ip.nloop), ip.nloop))
            return ip.new_list(segs)
        if name == 'copy':
            return ip.new_dict(items, rest)
        if name in ('update', 'setdefault', 'pop', 'clear', 'popitem'):
            ip.mutated(o, '.%s()' % name)
            if o.meta.get('epoch') == 'import' and ip.epoch != 'import':
                ip.event('setglobal', name='dict', value=None, mod=str(o.site))
        if name == 'update':
            d = self.x_dict(args, kw)
            for k, v in ip.get(d.id, 'items', ()):
                ip.setitem(o, k, v)
            r = ip.get(d.id, 'rest', ())
            if r:
                ip.put(o.id, 'rest', ip.get(o.id, 'rest', ()) + r)
            return None
        if name == 'setdefault':
            k = args[0]
            if isconst(k):
                for a, b in items:
                    if same(a, k):
                        return b
            ip.setitem(o, k, args[1] if len(args) > 1 else None)
            return args[1] if len(args) > 1 else None
        if name == 'pop':
            k = args[0]
            if isconst(k):
                for a, b in items:
                    if same(a, k):
                        ip.put(o.id, 'items', tuple((x, y) for x, y in items if not same(x, k)))
                        return b
                if not rest:
                    if len(args) > 1:
                        return args[1]
                    self.fail('KeyError', k)
            vals = [b for a, b in items + rest] + list(args[1:])
            return choice(vals) if vals else Sym('top', 'pop')
        if name == 'clear':
            ip.put(o.id, 'items', ())
            ip.put(o.id, 'rest', ())
            return None
        return Sym('meth', ip.freeze(o), name, tuple(ip.freeze(a) for a in args), ())

    def file_meth(self, o, name, args, kw):
        ip = self.ip
        if name == 'write':
            ip.event('write', path=o.meta['path'], mode=o.meta['mode'], value=args[0], file=o)
            return Sym('call', 'nwritten', (), ())
        if name == 'writelines':
            ip.event('write', path=o.meta['path'], mode=o.meta['mode'], value=self.join('', args[0]), file=o)
            return None
        if name in ('read', 'readline', 'readlines'):
            return Sym('meth', Sym('call', 'open', (o.meta['path'],), ()), name, (), ())
        if name in ('close', 'flush', '__exit__', '__enter__', 'seek', 'truncate', 'fileno'):
            ip.event('filemeth', name=name, file=o)
            return o if name == '__enter__' else None
        return Sym('top', name)

    # ------------------------------------------------------------ templates
    def fs_path(self, t):
        """file system path below the repository for a path term"""
        ip = self.ip
        if isinstance(t, str):
            return t
        if isinstance(t, Str):
            ps = [p if isinstance(p, str) else self.fs_path(p.value) if isinstance(p, Hole) else None for p in t.parts]
            return None if any(p is None for p in ps) else ''.join(ps)
        if isinstance(t, Sym):
            if t.op == 'in' and t.args[0].startswith('__file__:'):
                return os.path.join(ip.repo, t.args[0][9:])
            if t.op == 'call':
                n, a = t.args[0], [self.fs_path(x) for x in t.args[1]]
                if any(x is None for x in a):
                    return None
                if n == 'os.path.join':
                    return os.path.join(*a)
                if n == 'os.path.dirname':
                    return os.path.dirname(a[0])
                if n in ('os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'str', 'pathlib.Path', 'os.fspath'):
                    return os.path.normpath(a[0])
            if t.op == 'bin' and t.args[0] in '/+':
                a, b = self.fs_path(t.args[1]), self.fs_path(t.args[2])
                if a is not None and b is not None:
                    return os.path.join(a, b) if t.args[0] == '/' else a + b
            if t.op == 'attr' and t.args[1] == 'parent':
                a = self.fs_path(t.args[0])
                return os.path.dirname(a) if a else None
            if t.op == 'meth' and t.args[1] in ('resolve', 'absolute', 'joinpath'):
                a = self.fs_path(t.args[0])
                for x in t.args[2]:
                    b = self.fs_path(x)
                    a = os.path.join(a, b) if a and b else None
                return a
        return None

    def render(self, f, args, kw):
        ip = self.ip
        text = path = None
        if f.op == 'meth' and f.args[1] == 'get_template':
            name = f.args[2][0]
            base = f.args[0]
            dirs = [x for x in subterms(base) if x.op == 'call' and x.args[0].endswith('FileSystemLoader')]
            for d in dirs:
                p = self.fs_path(d.args[1][0]) if d.args[1] else None
                if p and isinstance(name, str):
                    path = os.path.join(p, name)
            for d in [x for x in subterms(base) if x.op == 'call' and x.args[0].endswith('PackageLoader')]:
                if d.args[1] and isinstance(d.args[1][0], str):
                    sub = d.args[1][1] if len(d.args[1]) > 1 else 'templates'
                    path = os.path.join(ip.repo, d.args[1][0].replace('.', '/'), sub, name)
            if path and os.path.isfile(path):
                text = open(path, encoding='utf8').read()
            opts = [x for x in subterms(base) if x.op == 'call' and x.args[0].endswith('Environment')]
        elif f.op == 'call' and f.args[0].endswith('Template') and f.args[1] and isinstance(f.args[1][0], str):
            text = f.args[1][0]
            opts = [f]
        elif f.op == 'meth' and f.args[1] == 'from_string' and isinstance(f.args[2][0], str):
            text = f.args[2][0]
            opts = [f.args[0]]
        if text is None:
            return None
        o = dict(opts[0].args[2]) if opts and opts[0].op == 'call' else {}
        import pyjinja
        env = dict(kw)
        if args and isinstance(args[0], Obj) and args[0].kind == 'dict':
            env.update({k: v for k, v in ip.get(args[0].id, 'items', ()) if isinstance(k, str)})
        ip.event('template', path=path)
        saved = ip.cur
        r = pyjinja.render(ip, text, env, o, os.path.relpath(path, ip.repo) if path else '<template>')
        ip.cur = saved
        return r


def relabel(v, old, new):
    """the same value with loop number old replaced by new"""
    if old == new:
        return v
    if isinstance(v, Sym):
        if v.op in ('elem', 'setelem') and v.args[1] == old:
            return Sym(v.op, relabel(v.args[0], old, new), new)
        if v.op == 'idx' and v.args[0] == old:
            return Sym('idx', new)
        args = tuple(relabel(a, old, new) for a in v.args)
        return v if all(a is b for a, b in zip(args, v.args)) else Sym(v.op, *args)
    if isinstance(v, tuple):
        t = tuple(relabel(x, old, new) for x in v)
        return t if any(a is not b for a, b in zip(t, v)) else v
    return v


def pybases(c):
    out = []
    for b in c.bases:
        out.append(b)
        if isinstance(b, Cls):
            out += pybases(b)
    return out


CANON = {'np.': 'numpy.', 'builtins.open': 'open', 'pathlib.Path.open': 'open'}
