"""C10: class/decision/count functions report errors as negative values only; status functions nonzero; regress1 NaN"""
import clib, cc, cast, report, errflow
import chk_c08

ENUM_ERR_FIELDS = 'Error'

class Prov:
    """sign with which a named error code can reach an expression: set of (+1|-1, enumerator)"""
    def __init__(self, fn, errconsts):
        self.fn, self.err = fn, errconsts
        self.assign = {}
        for n in cast.walk(fn):
            if n.get('kind') == 'VarDecl':
                ini = [c for c in n.get('inner', ()) if c.get('kind', '').endswith(('Expr', 'Operator', 'Literal'))]
                if ini and 'init' in n:
                    self.assign.setdefault(n['id'], []).append(ini[-1])
            elif n.get('kind') == 'BinaryOperator' and n.get('opcode') == '=':
                l = cast.strip(n['inner'][0])
                if l.get('kind') == 'DeclRefExpr':
                    self.assign.setdefault(l['referencedDecl']['id'], []).append(n['inner'][1])

    def of(self, n, seen=frozenset()):
        n = cast.strip(n)
        k = n.get('kind')
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['kind'] == 'EnumConstantDecl':
                return {(1, d['name'])} if d['name'] in self.err else set()
            if d['id'] in seen:
                return set()
            out = set()
            for e in self.assign.get(d['id'], ()):
                out |= self.of(e, seen | {d['id']})
            return out
        if k == 'UnaryOperator':
            s = self.of(n['inner'][0], seen)
            if n.get('opcode') == '-':
                return {(-a, b) for a, b in s}
            return s if n.get('opcode') == '+' else set()
        if k == 'ConditionalOperator':
            return self.of(n['inner'][1], seen) | self.of(n['inner'][2], seen)
        if k == 'BinaryOperator':
            op = n.get('opcode')
            if op == ',' or op == '=':
                return self.of(n['inner'][1], seen)
            if op == '-':
                a = cast.strip(n['inner'][0])
                if a.get('kind') == 'IntegerLiteral' and a.get('value') == '0':
                    return {(-x, y) for x, y in self.of(n['inner'][1], seen)}
            if op == '*':
                a, b = (cast.strip(x) for x in n['inner'])
                for x, y in ((a, b), (b, a)):
                    if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '-' and cast.strip(x['inner'][0]).get('value') == '1':
                        return {(-p, q) for p, q in self.of(y, seen)}
            return set()
        return set()

def run():
    R = report.Report('C10', 'AST: the sign with which an error enumerator can reach a return of a class/decision/count function is '
                      'negative; IR: assuming any fallible call failed, such a function returns a negative value on every path, '
                      'single-value regression returns NaN, and a status function a nonzero value.',
                      ['the table of value-returning functions (errflow.VALUE_FNS) follows their documentation'])
    mod = clib.module('default', passes=cc.SSA)
    E = errflow.Engine(mod)
    errconsts = {}
    for mid, t in mod.meta.items():
        if 'DW_TAG_enumeration_type' in t and (mod._mfield(t, 'name') or '').lstrip('_') in errflow.ERR_ENUMS:
            for r in cir_re(mod, t):
                if int(mod._mfield(mod.meta[r], 'value')):
                    errconsts[mod._mfield(mod.meta[r], 'name')] = 1
    if len(errconsts) < 6:
        raise report.Lost('error enumerators not found')
    fns = cast.functions()
    own = {f.name: f for b, f in clib.own(mod, skip=('eml_test.h', 'eml_benchmark.h'))}
    kinds = {}
    for name, fn in sorted(fns.items()):
        if name not in own:
            continue
        rt = E.ret_type(own[name])
        value = name in errflow.VALUE_FNS
        if rt in errflow.ERR_ENUMS:
            R.ob('status function examined', name, name)
        p = None
        infer = False
        if not value and rt in ('int', 'int32_t', 'int16_t', 'int8_t', 'long') and name not in errflow.NEG_STATUS_FNS:
            infer = True
        if not (value or infer or rt in ('float', 'double')):
            continue
        p = Prov(fn, errconsts)
        rets = [n for n in cast.walk(fn, 'ReturnStmt') if n.get('inner')]
        provs = [(n, p.of(n['inner'][0])) for n in rets]
        if rt in ('float', 'double'):
            R.ob('floating-point function examined', name, name)
            for n, s in provs:
                if s:
                    R.violate('floaterr:' + name, '%s returns the error code %s as a number' % (name, sorted(s)[0][1]), '%s:%s' % (name, cast.line(n)))
            continue
        # an integer function outside the table: mixing computed results with positive error codes is the same mistake
        if infer and not any(s for n, s in provs):
            continue
        if infer and all(s or zero_lit(n) for n, s in provs):
            continue          # a pure status function: nonzero is enough
        R.ob('value function examined', name, name)
        if value and rt.replace('const ', '') not in ('int', 'int8_t', 'int16_t', 'int32_t', 'int64_t', 'long', 'short', 'ptrdiff_t', 'ssize_t', 'signed char'):
            R.violate('unsigned:' + name, '%s returns %s, which cannot hold its negative error codes' % (name, rt), name)
        for n, s in provs:
            R.ob('return examined', '%s:%s' % (name, cast.line(n)))
            pos = sorted(b for a, b in s if a > 0)
            if pos:
                R.violate('positive:%s' % name, '%s can return the positive error code %s, which reads as a valid result' % (name, pos[0]),
                          '%s line %s' % (name, cast.line(n)))
    # path part: failing callees
    class Sub(report.Report):
        pass
    S = report.Report('C10', '')
    chk_c08.analyse(S)
    R.ob('failing call followed', n=S.counts.get('failing call followed', 0))
    for k, (m, w) in S.viol.items():
        fn = k.split(':')[1]
        rt = E.ret_type(own[fn]) if fn in own else ''
        if fn in errflow.VALUE_FNS or rt in ('float', 'double') or fn in errflow.NEG_STATUS_FNS:
            R.violate('path:' + k, m, w)
    R.floor('value function examined', 5)
    R.floor('status function examined', 30)
    return R.finish()

def zero_lit(n):
    x = cast.strip(n['inner'][0])
    return x.get('kind') == 'IntegerLiteral' and x.get('value') == '0' or x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['name'] in ('EmlOk', 'EmlTreesOK')

def cir_re(mod, t):
    import re
    el = mod._mfield(t, 'elements')
    return re.findall(r'!(\d+)', mod.meta.get(el, ''))
