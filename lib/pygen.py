"""Generated texts, instantiated and parsed: variables, their initialisers and where each literal came from."""
import json, os, re, shutil, tempfile
import cc
from cast import walk, strip
from pyval import *
import pyinst


def ast(text, filt, args=('-std=c99', '-w'), extra=None):
    """declarations whose name matches filt, as clang JSON"""
    d = tempfile.mkdtemp(prefix='emlv-')
    try:
        src = os.path.join(d, 'gen.c')
        with open(src, 'w') as f:
            f.write(text if text.endswith('\n') else text + '\n')
        r = cc.run([cc.CLANG, *args, '-fsyntax-only', '-I', cc.INC, '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, src], cwd=d)
        if r.returncode:
            errs = [l for l in r.stderr.split('\n') if 'error' in l]
            if [l for l in errs if 'excess elements' not in l and 'error generated' not in l and 'errors generated' not in l]:
                raise cc.CompileError(r.stderr[:600])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    dec = json.JSONDecoder()
    out, s, i = [], r.stdout, 0
    while True:
        i = s.find('{', i)
        if i < 0:
            return out
        o, i = dec.raw_decode(s, i)
        out.append(o)


_fields = {}


def fields():
    """{struct name: [(field, type)]} of the library's structures"""
    if not _fields:
        text = ''.join('#include <%s>\n' % h for h in sorted(os.listdir(cc.INC)) if h.startswith('eml_') and h.endswith('.h') and h not in ('eml_test.h', 'eml_benchmark.h'))
        recs = {}
        tops = ast(text, 'Eml')
        for o in tops:
            for r in walk(o, 'RecordDecl'):
                fs = [(f['name'], f['type']['qualType'], f['type'].get('desugaredQualType', '')) for f in r.get('inner', ()) if f.get('kind') == 'FieldDecl' and f.get('name')]
                if fs:
                    recs[r.get('name') or r['id']] = fs
                    recs[r['id']] = fs
        for o in tops:
            for t in walk(o, 'TypedefDecl'):
                for x in walk(t):
                    dd = x.get('decl') or x.get('ownedTagDecl')
                    if dd and dd.get('id') in recs:
                        recs[t['name']] = recs[dd['id']]
        _fields.update({k: v for k, v in recs.items() if not k.startswith('0x')})
    return _fields


class Gen:
    """one instantiation of a text: variables by name"""

    def __init__(self, ip, v, env):
        self.env = env
        self.text = env.text(v)
        self.sizes = {}

        def size(m):
            self.sizes[m.group(1)] = int(m.group(2))
            return m.group(1) + '[]' + m.group(3)
        text = re.sub(r'(\w+)\s*\[\s*(\d+)\s*\](\s*=\s*\{)', size, self.text)
        self.vars = {}
        self.funcs = {}
        for o in ast(text, 'emlvname'):
            if o.get('kind') == 'VarDecl' and o.get('name'):
                self.vars[o['name']] = o
            if o.get('kind') == 'FunctionDecl' and o.get('name') and any(x.get('kind') == 'CompoundStmt' for x in o.get('inner', ())):
                self.funcs[o['name']] = o

    def init(self, name):
        o = self.vars.get(name)
        for c in (o or {}).get('inner', ()):
            if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator')):
                return c
        return None

    def type(self, name):
        t = self.vars[name]['type']
        return t.get('qualType', '')

    def elemtype(self, name):
        t = self.type(name)
        return t.split('[')[0].replace('const', '').replace('static', '').strip() if '[' in t else None

    def declared(self, name):
        if name in self.sizes:
            return self.sizes[name]
        t = self.type(name)
        return int(t.split('[')[1].split(']')[0]) if '[' in t and t.split('[')[1].split(']')[0].isdigit() else None

    def elements(self, name):
        """initialisers of an array variable as written (None: not initialised)"""
        i = self.init(name)
        if i is None or i.get('kind') != 'InitListExpr':
            return None
        if 'array_filler' in i and 'inner' not in i:
            return [x for x in i['array_filler'] if x.get('kind') != 'ImplicitValueInitExpr']
        return [x for x in i.get('inner', ()) if x.get('kind') != 'ImplicitValueInitExpr']

    def value(self, e):
        """('num', n, Hole|None) | ('ref', name) | ('enum', name) | ('list', node) | ('none',) | ('expr', node)"""
        e = strip(e)
        k = e.get('kind')
        neg = False
        while k == 'UnaryOperator' and e.get('opcode') in ('-', '+', '&'):
            neg ^= e['opcode'] == '-'
            e = strip(e['inner'][0])
            k = e.get('kind')
        if k in ('IntegerLiteral', 'FloatingLiteral', 'CharacterLiteral'):
            s = str(e['value'])
            h = self.env.lit.get(s)
            if k == 'FloatingLiteral':
                f = float(s)
                h = self.env.lit.get('%d.5' % int(f)) if f == int(f) + 0.5 else h
                return ('num', -f if neg else f, h)
            return ('num', -int(s) if neg else int(s), h)
        if k == 'DeclRefExpr':
            r = e['referencedDecl']
            return ('enum', r['name']) if r['kind'] == 'EnumConstantDecl' else ('ref', r['name'])
        if k == 'InitListExpr':
            return ('list', e)
        if k == 'ImplicitValueInitExpr':
            return ('none',)
        return ('expr', e)

    def holes(self, e):
        """holes of every literal below an expression"""
        out = []
        for x in walk(e):
            if x.get('kind') in ('IntegerLiteral', 'FloatingLiteral'):
                v = self.value(x)
                if v[2] is not None:
                    out.append(v[2])
        return out

    def calls(self):
        """(generated function, callee, arguments) of every call in the generated functions"""
        for fn, o in sorted(self.funcs.items()):
            scope = {x['id']: x for x in walk(o) if x.get('kind') in ('VarDecl', 'ParmVarDecl')}
            for c in walk(o, 'CallExpr'):
                ins = c.get('inner', ())
                r = strip(ins[0])
                if r.get('kind') == 'DeclRefExpr':
                    yield fn, r['referencedDecl']['name'], [self.resolve(a, scope) for a in ins[1:]]

    def resolve(self, e, scope, depth=0):
        """like value, through constants and local pointers: ('array', name) for an array of the file"""
        v = self.value(e)
        if v[0] != 'ref' or depth > 6:
            return v
        r = strip(e)
        while r.get('kind') == 'UnaryOperator':
            r = strip(r['inner'][0])
        d = scope.get(r.get('referencedDecl', {}).get('id'))
        if d is not None:
            if d.get('kind') == 'ParmVarDecl':
                return ('param', d.get('name'))
            i = [c for c in d.get('inner', ()) if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
            return self.resolve(i[0], scope, depth + 1) if i and d.get('init') else ('local', d.get('name'))
        n = v[1]
        if n in self.vars:
            if self.declared(n) is not None or '[' in self.type(n):
                return ('array', n)
            i = self.init(n)
            if i is not None and i.get('kind') != 'InitListExpr':
                return self.resolve(i, scope, depth + 1)
        return v
