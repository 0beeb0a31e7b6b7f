"""clang AST (JSON) of the headers' functions"""
import json, os, tempfile, shutil
import cc

def functions(defines=(), hdrs=None, extra='', lang='c'):
    """{name: FunctionDecl node with a body}; enumerators: {id: (enum name, constant name, value)} collected on the way"""
    d = tempfile.mkdtemp(prefix='emlv-')
    try:
        src = os.path.join(d, 'tu.' + ('c' if lang == 'c' else 'cpp'))
        with open(src, 'w') as f:
            f.write(cc.tu(hdrs, extra))
        cmd = [cc.CLANG if lang == 'c' else cc.CLANGXX, '-std=' + ('gnu99' if lang == 'c' else 'gnu++11'), '-w', '-fsyntax-only', '-I', cc.INC,
               '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=eml', src] + ['-D' + x for x in defines]
        r = cc.run(cmd, cwd=d)
        if r.returncode:
            raise cc.CompileError(r.stderr[:2000])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    dec = json.JSONDecoder()
    out, i, s = {}, 0, r.stdout
    while True:
        i = s.find('{', i)
        if i < 0:
            break
        o, j = dec.raw_decode(s[i:])
        i += j
        for fn in walk(o, 'FunctionDecl'):
            if any(c.get('kind') == 'CompoundStmt' for c in fn.get('inner', ())):
                out[fn['name']] = fn
    return out

def walk(n, kind=None):
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict):
            continue
        if kind is None or x.get('kind') == kind:
            yield x
        st.extend(reversed(x.get('inner', ())))

def strip(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'ConstantExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr',
                            'ExprWithCleanups') and n.get('inner'):
        n = n['inner'][-1]
    return n

def line(n):
    for k in ('range', 'loc'):
        b = n.get(k, {})
        b = b.get('begin', b)
        for z in ('expansionLoc', 'spellingLoc'):
            if z in b and 'line' in b[z]:
                return b[z]['line']
        if 'line' in b:
            return b['line']
    return 0
