"""P07: numbers cross the boundary between Python and the compiled model with the digits of single precision."""
import ast, re
import cc, chk_g05
from pybuilt import *
from cast import walk, strip
from chk_g03 import alternatives
from chk_g05 import floats, losses, digits, terms
from chk_p02 import methods_of, rank
from report import Report, Lost

PRINT = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'dprintf': 1, 'vprintf': 0}
CONV = re.compile(r'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|L|j|z|t)?([a-zA-Z%])')
FLOATING = re.compile(r'\b(float|double)\b')
INTEGER = re.compile(r'\b(int|long|short|char|u?int\d+_t|size_t|bool|unsigned|Eml\w*Error)\b')
PARSE_INT = ('atoi', 'atol', 'atoll', 'strtol', 'strtoul', 'strtoll', 'strtoull')


def literal(e):
    for x in walk(e):
        if x.get('kind') == 'StringLiteral':
            try:
                return ast.literal_eval(x['value'])
            except (ValueError, SyntaxError):
                return x['value']
    return None


def base(e, scope, depth=0):
    """type of a value before conversions, following local variables initialised once"""
    while e.get('kind') in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'ConstantExpr') and e.get('inner'):
        if e.get('castKind') in ('ArrayToPointerDecay', 'FunctionToPointerDecay'):
            break
        e = e['inner'][0]
    if e.get('kind') == 'DeclRefExpr' and depth < 5:
        d = scope.get(e['referencedDecl'].get('id'))
        init = [x for x in (d or {}).get('inner', ()) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
        if init and (d.get('init') == 'c'):
            return base(init[-1], scope, depth + 1)
    return e.get('type', {}).get('qualType', '')


def truncated(e, scope, depth=0):
    """conversion of a floating-point value to an integer on the way to the value printed"""
    while e.get('kind') in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'ConstantExpr') and e.get('inner'):
        if e.get('castKind') == 'FloatingToIntegral':
            return e['inner'][0]['type']['qualType'], e['type']['qualType']
        e = e['inner'][0]
    if e.get('kind') == 'DeclRefExpr' and depth < 5:
        d = scope.get(e['referencedDecl'].get('id'))
        init = [x for x in (d or {}).get('inner', ()) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
        if init and d.get('init') == 'c':
            return truncated(init[-1], scope, depth + 1)
    return None


def lossy(m):
    flags, width, prec, size, kind = m.groups()
    if kind in 'aA':
        return None
    if prec == '*':
        return None
    p = int(prec) if prec is not None else 6
    if kind in 'gG':
        return None if p >= 9 else '%d significant digits' % p
    if kind in 'eE':
        return None if p >= 8 else '%d significant digits' % (p + 1)
    if kind in 'fF':
        return '%d decimals' % p
    return None


def check_source(R, label, main, decls):
    n = 0
    for fil, o in decls:
        if o.get('kind') != 'FunctionDecl':
            continue
        scope = {x['id']: x for x in walk(o) if x.get('kind') in ('VarDecl', 'ParmVarDecl')}
        where = '%s in %s' % (o.get('name'), main)
        for c in walk(o, 'CallExpr'):
            r = strip(c['inner'][0])
            f = r.get('referencedDecl', {}).get('name', '') if r.get('kind') == 'DeclRefExpr' else ''
            args = c['inner'][1:]
            if f in PRINT and len(args) > PRINT[f]:
                if f in ('fprintf', 'dprintf') and any(x.get('kind') == 'DeclRefExpr' and x['referencedDecl'].get('name') == 'stderr' for x in walk(args[0])):
                    continue
                s = literal(args[PRINT[f]])
                if s is None:
                    R.ob('format not known', where)
                    continue
                k = PRINT[f] + 1
                for m in CONV.finditer(s):
                    if m.group(5) == '%':
                        continue
                    k += (m.group(2) == '*') + (m.group(3) == '*')
                    if k >= len(args):
                        break
                    t = base(args[k], scope)
                    cut = truncated(args[k], scope)
                    k += 1
                    if cut:
                        R.violate('print:%s:truncated' % main, '%s (%s) prints a %s converted to %s' % (where, label, cut[0], cut[1]), where)
                    if not FLOATING.search(t) or '*' in t:
                        continue
                    n += 1
                    R.ob('number printed', '%s: %s as %s' % (where, t, m.group(0)), subject=where)
                    if m.group(5) in 'diuxXo':
                        R.violate('print:%s:integer' % main, '%s (%s) prints a %s as an integer' % (where, label, t), where)
                    elif lossy(m):
                        R.violate('print:%s:%s' % (main, m.group(0)), '%s (%s) prints a %s with %s (%s)' % (where, label, t, lossy(m), m.group(0)), where)
        for a in walk(o):
            if a.get('kind') == 'BinaryOperator' and a.get('opcode') == '=' or a.get('kind') == 'VarDecl' and a.get('inner'):
                lhs = a['inner'][0]['type']['qualType'] if a['kind'] == 'BinaryOperator' else a['type']['qualType']
                rhs = a['inner'][-1]
                fns = [strip(x['inner'][0]).get('referencedDecl', {}).get('name', '') for x in walk(rhs, 'CallExpr')]
                if any(f in ('strtod', 'strtof', 'atof') + PARSE_INT for f in fns):
                    R.ob('number read', where, subject=where)
                    if FLOATING.search(lhs) and any(f in PARSE_INT for f in fns):
                        R.violate('read:%s' % main, '%s (%s) reads a number as an integer' % (where, label), where)
                    if any(f in ('strtod', 'strtof', 'atof') for f in fns) and (INTEGER.search(lhs) and '*' not in lhs or
                                                                              any(x.get('castKind') == 'FloatingToIntegral' for x in walk(rhs))):
                        R.violate('read:%s' % main, '%s (%s) stores a number read in an integer' % (where, label), where)
    return n


def outputs_float(label, meth):
    return meth != 'predict' or 'Regressor' in label.split()[0] or 'regressor' in label


def run():
    R = Report('P07', 'Digits at the boundary.  Every process started by every public method of every converted model: what it is given (arguments and standard input, as terms) must be made from the caller\'s data without '
               'rounding beyond single precision and with formats of at least 9 significant digits; the sources of the programs are parsed and every number they print to their output must have such a format and every number '
               'they read must be read as floating point; the values returned are not rounded.',
               ['str() of Python and numpy floating-point numbers gives the shortest text that reads back', 'test support header eml_test.h reads the rows of standard input'])
    s = Session().load('', *FAMILIES, 'common')
    ip = s.ip
    snap = s.snapshot()
    conv = s.attr('convert', 'convert')
    chk_g05.EXTRA[:] = [lambda x: x.op == 'call' and x.args[0] in RUN or x.op == 'meth' and x.args[1] == 'communicate']
    done = set()

    def judge(label, meth, events):
        for e in events:
            if e.kind == 'extcall' and e.name in RUN:
                where = '%s (%s)' % (e.loc[0], e.loc[2])
                n = 0
                vals = [ip.freeze(a) for a in e.args] + [ip.freeze(v) for v in e.kw.values()]
                R.ob('process', '%s %s' % (meth, label), subject=where)
                for v in vals:
                    for h in holesof(v):
                        if not floats(ip, h.value):
                            continue
                        n += 1
                        R.ob('value sent', '%s %s' % (meth, label), subject=where)
                        why = losses(ip, h.value) + ([digits(h)] if digits(h) else []) + (['an integer format'] if h.spec == 'd' else [])
                        rk = dims(h.value, ip)
                        if isinstance(rk, int) and rk > 0:
                            why.append('the printing of a whole array')
                        for w in why:
                            R.violate('sent:%s:%s' % (e.loc[2], w), '%s of %s sends the values to the compiled model through %s' % (meth, label, w), where)
                    for x in terms(v):
                        kw = dict(x.args[3]) if x.op == 'meth' and len(x.args) > 3 else {}
                        if x.op == 'meth' and x.args[1] in ('to_csv', 'to_string') and isinstance(kw.get('float_format'), str) and floats(ip, x):
                            m = CONV.match(kw['float_format'])
                            if m and lossy(m):
                                R.violate('sent:%s:csv' % e.loc[2], '%s of %s sends the values with %s' % (meth, label, lossy(m)), where)
            if e.kind == 'extcall' and e.name == 'numpy.savetxt':
                f = e.kw.get('fmt', e.args[2] if len(e.args) > 2 else '%.18e')
                m = CONV.search(f) if isinstance(f, str) else None
                if m and (lossy(m) or m.group(5) in 'di'):
                    R.violate('sent:%s:savetxt' % e.loc[2], '%s of %s writes the values with %s' % (meth, label, m.group(0)), '%s (%s)' % (e.loc[0], e.loc[2]))
        for main, e, files, flags in sources(ip, events):
            for alt in range(2):
                fs = text(ip, files, alt)
                if repr(fs) in done:
                    continue
                done.add(repr(fs))
                try:
                    decls = ast_of(fs, main)
                except cc.CompileError:
                    continue
                R.ob('program', '%s %s' % (main, label), subject='%s (%s)' % (e.loc[0], e.loc[2]))
                check_source(R, label, main, decls)

    def holesof(v):
        out = []

        def go(x):
            if isinstance(x, Str):
                out.extend(alternatives(x))
            elif isinstance(x, Sym):
                for y in x.args:
                    go(y)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    go(y)
            elif isinstance(x, Choice):
                for y in x.vals:
                    go(y)
            if isinstance(x, Sym) and x.op == 'call' and x.args[0] in ('str', 'repr', 'format') and floats(ip, x):
                out.append(Hole(x.args[1][0], 's', x.args[1][1] if len(x.args[1]) > 1 else ''))
        go(v)
        return out

    for label, b, kw, saves in configs(R.thorough):
        s.restore(snap)
        ip.epoch = 'convert'
        m, err = s.call(conv, b(s), **kw)
        if err is not None:
            continue
        judge(label, 'convert', ip.events[snap[1]:])
        snap2 = s.snapshot()
        for meth in methods_of(s, m):
            if meth == 'save':
                continue
            s.restore(snap2)
            v, err = s.method(m, meth, X(s))
            judge(label, meth, ip.events[snap2[1]:])
            if err is not None or not outputs_float(label, meth):
                continue
            v = ip.freeze(v)
            stored = [ip.freeze(e.value) for e in ip.events[snap2[1]:] if e.kind == 'arrstore' or e.kind == 'mutate' and e.via == 'item']
            for w in {w for x in stored for w in losses(ip, x) if w != 'int' or calls_int(x)}:
                R.violate('result:%s:%s' % (m.meta['cls'].qual, w), '%s of %s returns values passed through %s' % (meth, label, w), m.meta['cls'].qual + '.' + meth)
            R.ob('result', '%s %s' % (meth, label), subject=m.meta['cls'].qual + '.' + meth)
            for w in losses(ip, v):
                if w != 'int' or isinstance(v, Sym) and v.op == 'list' and any(isinstance(y, Sym) and y.op == 'call' and y.args[0] == 'int' for y in flat(v)):
                    R.violate('result:%s:%s' % (m.meta['cls'].qual, w), '%s of %s returns values passed through %s' % (meth, label, w), m.meta['cls'].qual + '.' + meth)
    R.floor('process', 20)
    R.floor('value sent', 20)
    R.floor('program', 10)
    R.floor('number printed', 5)
    return R.finish()


SAME = ('sklearn.utils.check_array', 'sklearn.utils.validation.check_array', 'numpy.asarray', 'numpy.array', 'numpy.asanyarray', 'numpy.ascontiguousarray',
        'numpy.atleast_2d', 'numpy.float32', 'numpy.nan_to_num', 'numpy.copy')


def dims(t, ip):
    """rank of a value, through functions which keep the shape"""
    down = 0
    while isinstance(t, Sym):
        if t.op == 'elem':
            down, t = down + 1, t.args[0]
        elif t.op == 'call' and t.args[0] in SAME and len(t.args[1]) >= 1 and rank(t, ip) is None:
            t = t.args[1][0]
        elif t.op == 'meth' and t.args[1] in ('astype', 'copy') and rank(t, ip) is None:
            t = t.args[0]
        elif t.op == 'in' and t.args[0] == 'X':
            return 2 - down
        else:
            break
    r = rank(t, ip)
    return None if r is None else r - down


def calls_int(x):
    return isinstance(x, Sym) and x.op == 'call' and x.args[0] == 'int'


def flat(v):
    """elements of a list term"""
    out = []

    def go(x):
        if isinstance(x, tuple) and len(x) > 1 and x[0] == 'item':
            if isinstance(x[1], Sym) and x[1].op == 'choice':
                out.extend(x[1].args)
            else:
                out.append(x[1])
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    for a in v.args:
        go(a)
    return out
