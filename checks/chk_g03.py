"""G03: a decision goes to the left child exactly when the feature is <= the trained threshold."""
import ast, os, re
import cc, clib, pyinst, pygen
from cast import walk, strip
from pyscen import *
from pyval import *
from chk_g01 import inputs, canon
from report import Report, Lost

MIRROR = {'<=': '>=', '>=': '<=', '<': '>', '>': '<', '==': '==', '!=': '!='}


# ---- loadable: the walk in the C library

class Walk:
    def __init__(self, mod, f, node):
        self.m, self.f, self.node = mod, f, node

    def strip(self, v):
        exts = []
        while True:
            d = self.f.defs.get(v)
            if d is not None and d.op in ('sext', 'zext', 'freeze', 'trunc'):
                exts.append(d.op)
                v = d.ops[0]
                continue
            return v, exts

    def address(self, p):
        """(base pointer, struct element index register or None, constant offset into the node)"""
        off = 0
        for _ in range(8):
            d = self.f.defs.get(p)
            if d is None or d.op != 'getelementptr':
                return None
            src = (d.srcty or '').strip('%"')
            idx = d.ops[1:]
            if src.startswith('struct.') and 'TreesNode' in src:
                if idx and not re.fullmatch(r'-?\d+', idx[0]):
                    k = int(idx[1]) if len(idx) > 1 and re.fullmatch(r'\d+', idx[1]) else 0
                    return d.ops[0], self.strip(idx[0])[0], off + self.m.field_offset('%' + src, k)[0]
                if len(idx) > 1 and re.fullmatch(r'\d+', idx[1]):
                    off += self.m.field_offset('%' + src, int(idx[1]))[0]
                    p = d.ops[0]
                    continue
                return None
            if src == 'i8' and len(idx) == 1 and re.fullmatch(r'-?\d+', idx[0]):
                off += int(idx[0])
                p = d.ops[0]
                continue
            return None
        return None

    def cls(self, v):
        """('node', field, index) | ('feature', index of the node it was chosen by) | ('data',) | None"""
        v, exts = self.strip(v)
        d = self.f.defs.get(v)
        if d is None or d.op != 'load':
            return None, exts
        a = self.address(d.ops[0])
        if a is not None:
            return ('node', self.node.get(a[2], '?%d' % a[2]), a[1]), exts
        g = self.f.defs.get(d.ops[0])
        if g is not None and g.op == 'getelementptr' and len(g.ops) == 2 and (g.srcty or '') == 'i16' and d.ty in ('i16',):
            c, _ = self.cls(g.ops[1])
            if c is not None and c[0] == 'node':
                return ('feature', c[1], c[2]), exts
            return ('data',), exts
        return None, exts

    def pick(self, v):
        """a value of the node, or a pointer to one"""
        c, _ = self.cls(v)
        if c is None:
            a = self.address(v)
            if a is not None:
                return ('node', self.node.get(a[2], '?'), a[1])
        return c

    def reached(self, block, edge):
        """fields of the node taken on one side of a branch"""
        f = self.f
        out = set()
        only = f.blocks[edge].preds == [block] or set(f.blocks[edge].preds) == {block}

        def add(v):
            c = self.pick(v)
            if c is not None and c[0] == 'node' and c[1] in ('left', 'right'):
                out.add((c[1], c[2]))
        for n, b in f.blocks.items():
            for i in b.instrs:
                if i.op == 'load' and only and f.dominates(edge, n):
                    add(i.res)
                if i.op == 'phi':
                    for v, frm in i.incoming:
                        if only and f.dominates(edge, frm) or not only and frm == block and n == edge:
                            add(v)
        return out


def library(R):
    mod = clib.module(hdrs=('eml_trees.h',), passes='cgscc(inline),function(sroa,early-cse,simplifycfg,early-cse)')
    node = clib.members(mod, 'EmlTreesNode')
    if set(node.values()) < {'feature', 'value', 'left', 'right'}:
        raise Lost('EmlTreesNode has no feature, value, left and right')
    n = 0
    for f in mod.functions.values():
        fil, line = mod.fn_decl(f)
        if 'eml_trees' not in os.path.basename(fil or ''):
            continue
        w = Walk(mod, f, node)
        for c in f.instrs():
            if c.op != 'icmp':
                continue
            (a, ea), (b, eb) = w.cls(c.ops[0]), w.cls(c.ops[1])
            if a is None or b is None:
                continue
            pred = c.pred
            if b[0] in ('feature', 'data') and a[0] == 'node':
                a, b, ea, eb = b, a, eb, ea
                pred = {'sle': 'sge', 'sge': 'sle', 'slt': 'sgt', 'sgt': 'slt', 'ule': 'uge', 'uge': 'ule', 'ult': 'ugt', 'ugt': 'ult'}.get(pred, pred)
            if not (a[0] in ('feature', 'data') and b[0] == 'node'):
                continue
            n += 1
            where = clib.where(mod, c, f)
            R.ob('comparison in the library', '%s in %s' % (where, f.name), subject=where)
            if a[0] == 'feature' and (a[1] != 'feature' or a[2] != b[2]):
                R.violate('library:feature', 'the feature compared is chosen by %s of %s node' % (a[1], 'the same' if a[2] == b[2] else 'another'), where)
            if b[1] != 'value':
                R.violate('library:threshold', 'the feature is compared with the field %s of the node' % b[1], where)
            if pred.startswith('u') or 'zext' in ea + eb:
                R.violate('library:unsigned', 'the feature and the threshold are compared as unsigned numbers', where)
                continue
            if pred in ('slt', 'sge'):
                R.violate('library:boundary', 'a feature equal to the threshold is treated as greater', where)
                continue
            if pred not in ('sle', 'sgt'):
                R.violate('library:relation', 'the feature and the threshold are compared with %s' % pred, where)
                continue
            # which child the outcome selects
            outcome = {True: 'left', False: 'right'} if pred == 'sle' else {True: 'right', False: 'left'}
            work = [(c.res, False)]
            for v, inv in work:
                for u in f.instrs():
                    if v not in u.ops:
                        continue
                    if u.op == 'xor' and 'true' in u.ops:
                        work.append((u.res, not inv))
                    sides = None
                    if u.op == 'select' and u.ops[0] == v:
                        sides = {}
                        for k, o in ((True, u.ops[1]), (False, u.ops[2])):
                            x = w.pick(o)
                            sides[k] = {(x[1], x[2])} if x is not None and x[0] == 'node' else set()
                    elif u.op == 'br' and len(u.targets) == 2:
                        sides = {True: w.reached(u.block, u.targets[0]), False: w.reached(u.block, u.targets[1])}
                    if sides is None:
                        continue
                    for k, got in sides.items():
                        want = outcome[k != inv]
                        fields = {x[0] for x in got if x[0] in ('left', 'right')}
                        R.ob('child in the library', '%s %s: %s' % (where, k, sorted(fields)), subject=where)
                        if fields and want not in fields:
                            R.violate('library:child', 'the %s child is taken when the feature is %s the threshold' % (fields.pop(), '<=' if want == 'left' else 'greater than'), where)
                        for x in got:
                            if x[1] != b[2]:
                                R.violate('library:node', 'the child of another node is taken', where)
    if not n:
        raise Lost('no comparison of a feature with the value of a node found in eml_trees.h')


# ---- inline and node tables: the generated text

def stepdown(R, s, done, compared):
    """nextafter is applied only where rounding went up"""
    for e in s.ip.events:
        if e.kind != 'extcall' or not e.name.endswith('nextafter') or e.loc in done:
            continue
        if not any('threshold' in x for x in inputs((e.args[0],))[0]):
            continue
        done.add(e.loc)
        path, line, fn = e.loc
        for x in (e.args[0].vals if isinstance(e.args[0], Choice) else (e.args[0],)):
            names, ops = inputs(x)
            if any(n.endswith('.threshold') for n in names) and set(ops) <= {'float', 'float64', 'double', 'asarray', 'array'}:
                R.violate('step:%s' % fn, 'the next smaller value is taken in double precision, rounding it to single precision afterwards can go up again', '%s (%s)' % (path, fn))
        where = '%s (%s)' % (path, fn)
        R.ob('step down', where, subject=where)
        seen = [(inputs((a,)), inputs((b,))) for f, a, b in compared if f == fn]
        seen = [(a[1], b[1]) for a, b in seen if any(x.endswith('.threshold') for x in a[0]) and any(x.endswith('.threshold') for x in b[0])]
        if seen and all(any(x in ROUNDING or x == 'astype' for x in a) and any(x in ROUNDING for x in b) for a, b in seen):
            R.violate('step:%s' % fn, 'the rounded threshold is compared with a threshold which has been rounded before, not with the trained one', where)
        if '-inf' not in repr(e.args[1:]) and not any(isinstance(a, float) and a < 0 for a in e.args[1:]):
            R.violate('step:%s' % fn, 'the threshold is moved to a larger value', where)
        tree = ast.parse(open(os.path.join(cc.REPO, path)).read())
        fd = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n.lineno <= line <= n.end_lineno]
        if not fd:
            continue
        fd = max(fd, key=lambda n: n.lineno)
        if not any(isinstance(n, ast.Compare) for n in ast.walk(fd)):
            R.violate('step:%s' % fn, 'the threshold is always moved to the next smaller value, also when it needs no rounding', where)
        for n in ast.walk(fd):
            if isinstance(n, (ast.If, ast.IfExp)) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1:
                body, orelse = (n.body, n.orelse) if isinstance(n, ast.If) else ([n.body], [n.orelse])
                call = [c for part in (body, orelse) for x in part for c in ast.walk(x) if isinstance(c, ast.Call) and c.lineno <= line <= c.end_lineno and 'nextafter' in ast.dump(c.func)]
                if not call or not call[0].args:
                    continue
                inbody = any(c is call[0] for x in body for c in ast.walk(x))
                l, r, op = ast.dump(n.test.left), ast.dump(n.test.comparators[0]), type(n.test.ops[0]).__name__
                a = ast.dump(call[0].args[0])
                if a == r and a != l:
                    op = {'Gt': 'Lt', 'Lt': 'Gt', 'GtE': 'LtE', 'LtE': 'GtE'}.get(op, op)
                elif a != l:
                    continue
                if not inbody:
                    op = {'Gt': 'LtE', 'Lt': 'GtE', 'GtE': 'Lt', 'LtE': 'Gt'}.get(op, op)
                if op in ('Lt', 'LtE', 'GtE'):
                    R.violate('step:%s' % fn, 'the threshold is moved to the next smaller value when the rounded value is %s it' % {'Lt': 'below', 'LtE': 'not above', 'GtE': 'not below'}[op], where)


ROUNDING = ('float32', 'float16', 'single', 'half', 'round', 'around', 'rint')
UP = ('ceil', 'round', 'rint', 'around', 'trunc', 'fix', 'int')


def threshold(R, place, label, dtype, holes, double):
    """holes: every value the threshold position can take"""
    holes = [h for h in holes if any(x.endswith('.threshold') for x in inputs(h.value)[0])]
    ops = {h: inputs(h.value)[1] for h in holes}
    for h in holes:
        R.ob('threshold', '%s: %s' % (label, ' of '.join(ops[h])), subject=place)
    if not holes or any('unknown' in o for o in ops.values()):
        return
    key = '%s:%s' % (place, 'float' if dtype == 'float' else 'integer')
    if dtype == 'float':
        if double:
            return
        if not any('nextafter' in o or any('floor' in x for x in o) for o in ops.values()) and all(set(o) <= {'float32', 'float', 'astype', 'asarray', 'array', 'float64'} for o in ops.values()):
            R.violate(key, '%s: the threshold is rounded to single precision in either direction, values between the two go to the wrong side' % label, place)
        return
    for h, o in ops.items():
        k = next((i for i, x in enumerate(o) if 'floor' in x or x == '//'), len(o))
        if any(x in ROUNDING for x in o[k:]):
            R.violate(key, '%s: the threshold is rounded to single precision before it is rounded down' % label, place)
        if not any('floor' in x or x == '//' for x in o):
            known = set(o) <= {'float32', 'float', 'astype', 'asarray', 'array', 'float64', 'str', 'add'} | set(UP)
            if known:
                R.violate(key, '%s: the threshold is converted to an integer by %s instead of rounding down' % (label, ' of '.join(o) or 'formatting'), place)
        else:
            if any(x in ('+', '-', '*') for x in o):
                R.violate(key, '%s: the threshold is changed besides being rounded down (%s)' % (label, ' of '.join(o)), place)


def table(R, s, label, place, v):
    """columns of the node tables"""
    fs = [f for f, _, _ in pygen.fields()['EmlTreesNode']]
    for alt in range(3):
        env = pyinst.Env(s.ip, alt=alt)
        try:
            g = pygen.Gen(s.ip, v, env)
        except cc.CompileError:
            continue
        if alt and env.branches:
            continue
        for name in sorted(g.vars):
            if canon(g.type(name).split('[')[0]) != 'EmlTreesNode':
                continue
            for e in g.elements(name) or ():
                row = [x for x in e.get('inner', ())] if e.get('kind') == 'InitListExpr' else ()
                if len(row) != len(fs):
                    continue
                got, wild = {}, False
                for f, x in zip(fs, row):
                    hs = [inputs(h.value) for h in g.holes(x)]
                    wild |= any('unknown' in o for _, o in hs)
                    got[f] = frozenset(y for n, _ in hs for y in kind(n)) & set(COLUMNS.values())
                R.ob('node table row', '%s: %s' % (label, ' '.join('%s=%s' % (f, '+'.join(sorted(k))) for f, k in got.items())), subject=place)
                if wild:
                    continue
                for f, want in COLUMNS.items():
                    k = got[f]
                    other = {'left': 'right', 'right': 'left'}.get(f)
                    if k and want not in k:
                        R.violate('%s:table:%s' % (place, f), '%s: the field %s of a node is filled from %s of the trained tree' % (label, f, ', '.join(sorted(k))), place)
                    elif other and COLUMNS[other] in k and got[other] == {COLUMNS[other]}:
                        R.violate('%s:table:%s' % (place, f), '%s: the field %s of a node can receive the %s child of the trained tree' % (label, f, other), place)


COLUMNS = {'feature': 'feature', 'value': 'threshold', 'left': 'children_left', 'right': 'children_right'}


def alternatives(v):
    if isinstance(v, Str):
        for p in v.parts:
            yield from alternatives(p)
    elif isinstance(v, AltS):
        for p in v.alts:
            yield from alternatives(p)
    elif isinstance(v, RepS):
        yield from alternatives(v.body)
    elif isinstance(v, OpS):
        yield from alternatives(v.arg)
    elif isinstance(v, Hole):
        yield v


def tagger(f, args):
    names = set()
    for a in args:
        names |= inputs(a)[0]
    kinds = frozenset(x.split('.')[1] for x in names if x.endswith(('.children_left', '.children_right')))
    return kinds or None


def kind(got):
    return {x.split('.')[1] for x in got if '.' in x}


def inline(R, s, label, place, v, dtype):
    ip = s.ip
    double = False
    for alt in range(4):
        for expr in (False, True):
            env = pyinst.Env(ip, alt=alt)
            env.marks, env.markexpr = [], expr
            text = env.text(v)
            text = ''.join('int emlvtag%d(void);\n' % k for k in range(len(env.marks))) + text
            try:
                g = pygen.Gen(ip, text, env)
            except cc.CompileError:
                continue
            break
        else:
            R.ob('not decided', label, subject=place)
            continue
        for fn, o in sorted(g.funcs.items()):
            params = {x['id'] for x in o.get('inner', ()) if x.get('kind') == 'ParmVarDecl' and '*' in x['type']['qualType'] and 'const' in x['type']['qualType']}
            scope = {x['id']: x for x in walk(o) if x.get('kind') == 'VarDecl'}
            for c in walk(o):
                if c.get('kind') not in ('IfStmt', 'ConditionalOperator'):
                    continue
                cond, then = c['inner'][0], c['inner'][1]
                els = c['inner'][2] if len(c['inner']) > 2 else None
                d = decision(g, cond, params, scope)
                if d is None:
                    continue
                op, fh, tholes, dbl = d
                double |= dbl
                R.ob('decision', label, subject=place)
                if op in ('<', '>='):
                    R.violate('%s:boundary' % place, '%s: a feature equal to the threshold is treated as greater' % label, place)
                elif op not in ('<=', '>'):
                    R.violate('%s:relation' % place, '%s: the feature is compared with %s' % (label, op), place)
                for h in fh:
                    k = kind(inputs(h.value)[0])
                    R.ob('feature', label, subject=place)
                    if k and 'feature' not in k:
                        R.violate('%s:feature' % place, '%s: the feature compared is %s of the node' % (label, ', '.join(sorted(k))), place)
                for h in tholes:
                    k = kind(inputs(h.value)[0])
                    if k and 'threshold' not in k:
                        R.violate('%s:threshold' % place, '%s: the feature is compared with %s of the node' % (label, ', '.join(sorted(k))), place)
                sides = {'children_left': then, 'children_right': els} if op in ('<=', '<') else {'children_left': els, 'children_right': then}
                tags = {w: first(b, env.marks) for w, b in sides.items() if b is not None}
                for want, tag in tags.items():
                    if tag is None:
                        continue
                    R.ob('child', '%s %s' % (label, want), subject=place)
                    if len(tag) > 1 and tags.get(OPPOSITE[want]) == {OPPOSITE[want]} and want in tag:
                        R.violate('%s:child' % place, '%s: %s can follow when the feature is %s the threshold' % (label, OPPOSITE[want], '<=' if want == 'children_left' else 'greater than'), place)
                    if want not in tag:
                        R.violate('%s:child' % place, '%s: %s follows when the feature is %s the threshold' % (label, ', '.join(sorted(tag)), '<=' if want == 'children_left' else 'greater than'), place)
    threshold(R, place, label, dtype, list(alternatives(v)), double)


def first(branch, marks):
    for x in walk(branch):
        if x.get('kind') == 'CallExpr':
            r = strip(x['inner'][0])
            n = r.get('referencedDecl', {}).get('name', '')
            if n.startswith('emlvtag'):
                return marks[int(n[7:])]
        if x.get('kind') in ('IfStmt', 'ConditionalOperator') and x is not branch:
            return None
    return None


def expand(x, scope, depth=0):
    """the expression and the initialisers of the local variables it reads"""
    out = [x]
    for y in walk(x):
        if y.get('kind') == 'DeclRefExpr' and depth < 4:
            d = scope.get(y['referencedDecl'].get('id'))
            for z in (d or {}).get('inner', ()):
                out += expand(z, scope, depth + 1)
    return out


def decision(g, cond, params, scope):
    """(operator with the feature on the left, feature holes, threshold holes, threshold is a double)"""
    cond = strip(cond)
    neg = False
    while cond.get('kind') == 'UnaryOperator' and cond.get('opcode') == '!':
        neg = not neg
        cond = strip(cond['inner'][0])
    if cond.get('kind') != 'BinaryOperator' or cond.get('opcode') not in MIRROR:
        return None
    a, b = strip(cond['inner'][0]), strip(cond['inner'][1])
    op = cond['opcode']

    def isfeature(x):
        ys = [y for z in expand(x, scope) for y in walk(z)]
        return any(y.get('kind') == 'DeclRefExpr' and y['referencedDecl'].get('id') in params for y in ys) and any(y.get('kind') in ('ArraySubscriptExpr', 'UnaryOperator') for y in ys)

    def holes(x):
        return [h for z in expand(x, scope) for h in g.holes(z)]
    if isfeature(b) and not isfeature(a):
        a, b, op = b, a, MIRROR[op]
    if not isfeature(a) or isfeature(b):
        return None
    if neg:
        op = {'<=': '>', '>': '<=', '<': '>=', '>=': '<', '==': '!=', '!=': '=='}[op]
    return op, holes(a), holes(b), any(y.get('kind') == 'FloatingLiteral' and y['type']['qualType'] == 'double' for y in walk(b))


OPPOSITE = {'children_left': 'children_right', 'children_right': 'children_left'}
FAMILY = ('RandomForest', 'DecisionTree', 'ExtraTrees')


def run():
    R = Report('G03', 'Decisions in trees.  Generated text: the text save returns, obtained as a term by abstract interpretation of the converter for every feature type, is instantiated and parsed; each decision (a comparison of '
               'an element of the feature array) must be <= with the node\'s own feature and threshold, the subtree of the trained left child on the true side, and the threshold must be the trained one rounded towards minus '
               'infinity in the feature type.  Library: on LLVM IR of eml_trees.h every comparison of a feature with a node is signed <= between the node\'s own feature and value, selecting that node\'s left child when it holds.',
               ['scikit-learn takes the left child when feature <= threshold', 'features are representable in the feature type given at conversion'])
    library(R)
    done = set()
    s = Session().load('', *FAMILIES)
    s.ip.tagger = tagger
    compared = []

    def oncompare(ip, n, op, a, b):
        if ip.stack and any(isinstance(x, (Sym, Choice)) for x in (a, b)) and len(compared) < 20000:
            compared.append((ip.stack[-1][0].qual, a, b))
    s.ip.oncompare = oncompare
    snap = s.snapshot()
    conv = s.attr('convert', 'convert')
    for label, b, kw, saves in configs(R.thorough):
        if not label.startswith(FAMILY):
            continue
        s.restore(snap)
        s.ip.epoch = 'convert'
        m, err = s.call(conv, b(s), **kw)
        if err is not None:
            continue
        snap2 = s.snapshot()
        for so in saves:
            if so.get('format') == 'csv':
                continue
            s.restore(snap2)
            v, err = s.method(m, 'save', **dict(so, name=D('NAME')))
            if err is not None or not isinstance(v, (Str, str)):
                continue
            stepdown(R, s, done, compared)
            place = m.meta['cls'].qual + '.save'
            R.ob('saved text', label, subject=place)
            if kw['method'] == 'inline':
                inline(R, s, label, place, v, kw['dtype'])
            else:
                threshold(R, place, label, 'int16_t', list(alternatives(v)), False)
                table(R, s, label, place, v)
    R.floor('saved text', 10)
    R.floor('comparison in the library', 1)
    R.floor('decision', 10)
    R.floor('node table row', 3)
    R.floor('threshold', 10)
    return R.finish()
