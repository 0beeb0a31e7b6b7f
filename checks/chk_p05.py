"""P05: a failure inside the compiled model ends in a Python exception."""
import ast, os, re
import cc, cir, errflow
from pybuilt import *
from chk_g03 import alternatives
from chk_g05 import terms
from chk_p02 import methods_of
from report import Report, Lost

CHECKED = ('subprocess.check_output', 'subprocess.check_call')
CATCHES = ('CalledProcessError', 'SubprocessError', 'OSError', 'EnvironmentError', 'Exception', 'BaseException')
PRINTS = ('printf', 'puts', 'putchar', 'fputs', 'fwrite', 'fprintf', 'fputc', 'putc', 'vprintf')
ENDS = ('exit', '_exit', '_Exit', 'quick_exit')
ABORTS = ('abort', '__assert_fail', 'llvm.trap', '__builtin_trap', 'raise')


def tree(path, cache={}):
    if path not in cache:
        p = path if os.path.isabs(path) else os.path.join(cc.REPO, path)
        try:
            t = ast.parse(open(p, encoding='utf-8').read())
        except (OSError, SyntaxError):
            t = None
        if t:
            for n in ast.walk(t):
                for c in ast.iter_child_nodes(n):
                    c.up = n
        cache[path] = t
    return cache[path]


def leaves(body):
    """a statement list every path of which ends by raising (or by ending the process)"""
    for st in body:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, ast.If) and st.orelse and leaves(st.body) and leaves(st.orelse):
            return True
        if isinstance(st, ast.With) and leaves(st.body):
            return True
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            n = ast.unparse(st.value.func)
            if n in ('sys.exit', 'os._exit', 'exit', 'quit'):
                return True
        if isinstance(st, ast.Try) and (leaves(st.finalbody) or leaves(st.body) and all(leaves(h.body) for h in st.handlers)):
            return True
    return False


def swallowed(frames):
    """places on the call stack where an exception of the process would be caught and not raised again"""
    out = []
    for fil, line in frames:
        t = tree(fil)
        if t is None:
            continue
        for n in ast.walk(t):
            if not (hasattr(n, 'lineno') and n.lineno <= line <= n.end_lineno):
                continue
            if isinstance(n, ast.Try) and any(s.lineno <= line <= s.end_lineno for s in n.body):
                for h in n.handlers:
                    names = [ast.unparse(x).split('.')[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type else ['BaseException']
                    if any(x in CATCHES for x in names) and not leaves(h.body):
                        out.append('%s:%d' % (fil, h.lineno))
            if isinstance(n, ast.Try) and n.finalbody and any(s.lineno <= line <= s.end_lineno for s in n.body) and \
                    any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for f in n.finalbody for x in ast.walk(f)):
                out.append('%s:%d' % (fil, n.finalbody[0].lineno))
            if isinstance(n, (ast.With, ast.AsyncWith)) and any(s.lineno <= line <= s.end_lineno for s in n.body):
                for i in n.items:
                    if isinstance(i.context_expr, ast.Call) and ast.unparse(i.context_expr.func).split('.')[-1] == 'suppress':
                        if any(ast.unparse(a).split('.')[-1] in CATCHES for a in i.context_expr.args):
                            out.append('%s:%d' % (fil, n.lineno))
    return out


def result_checked(e, events, compared, raises, final):
    """the exit status of a process started without check is looked at, and a raise depends on it"""
    def about(x):
        if isinstance(x, Sym) and x.op == 'call' and x.args[0] == e.name and e.name in ('subprocess.call', 'os.system', 'os.spawnv'):
            return True
        return any(isinstance(y, Sym) and y.op == 'attr' and y.args[1] == 'returncode' or
                   isinstance(y, Sym) and y.op == 'meth' and y.args[1] in ('wait', 'poll') for y in terms(x))
    for x in events:
        if x.kind == 'methcall' and x.name == 'check_returncode':
            return True
    return any(about(l) or about(r) for l, r in compared) and bool(raises) or any(about(c) for c in final) or any(about(c) for x in events if x.kind == 'raise' for c in x.pc)


def bottom_up(mod):
    out, seen = [], set()

    def go(n):
        if n in seen or n not in mod.functions:
            return
        seen.add(n)
        f = mod.functions[n]
        for i in f.instrs():
            if i.op == 'call':
                for m in [i.callee] + list(i.ops):
                    go((m or '').lstrip('@'))
        out.append(f)
    for n in sorted(mod.functions):
        go(n)
    return out


def file_of(mod, f):
    return os.path.basename(mod.fn_decl(f)[0] or '')


class Program:
    """what the generated functions of one program do when a function of the library fails"""

    def __init__(self, R, label, main, mod, counted):
        self.R, self.label, self.main, self.mod, self.counted = R, label, main, mod, counted
        self.E = E = errflow.Engine(mod)
        own = [(file_of(mod, f), f) for f in bottom_up(mod)]
        lib = [(b, f) for b, f in own if re.match(r'^eml_\w+\.h$', b)]
        E.classify(lib)
        for b, f in lib:
            if E.ret_type(f) in ('float', 'double'):
                c, calls = E.returned_consts(f)
                if 'nan' in c or any(E.kinds.get(x.callee, ('',))[0] == 'float' for x in calls):
                    E.kinds[f.name] = ('float', errflow.NAN)
        self.returns = {f.name: f for b, f in own}
        E.watch = self.watch
        generated = [f for b, f in own if not re.match(r'^eml_\w+\.h$', b)]
        for f in generated:
            self.generated(f)
        for f in generated:
            if f.name == 'main' and f.params:
                self.arguments(f)

    def stderr(self, f, v):
        d = f.defs.get(v)
        return 'stderr' in v or d is not None and d.op == 'load' and 'stderr' in d.ops[0]

    def watch(self, f, ins, vals):
        n = ins.callee or ''
        if n in ENDS:
            return 'end', vals[0]
        if n in ABORTS:
            return 'end', (1, 1)
        if n in PRINTS:
            k = {'fputs': 1, 'fwrite': 3, 'fprintf': 0, 'fputc': 1, 'putc': 1}.get(n)
            if k is None or not self.stderr(f, ins.ops[k]):
                return 'flag', 'printed'
        return None

    def where(self, f):
        return '%s of %s' % (f.name, self.main)

    def generated(self, f):
        R, E = self.R, self.E
        outcome = []
        for ins in list(f.instrs()):
            if ins.op != 'call' or (ins.callee or '').startswith('llvm.'):
                continue
            for lab, kind, v in E.failures(f, ins) or ():
                E.ends = []
                R.ob('failing call followed', '%s: %s calling %s = %s' % (self.label, self.where(f), ins.callee, lab), subject=self.where(f))
                for rv, ret, trail in E.explore(f, ins, v):
                    outcome.append((rv, ins, lab))
                flags = list(E.flagged)
                mine = outcome[len(outcome) - len(flags):]
                for code, at, trail in E.ends:
                    if code is None or isinstance(code, tuple) and len(code) == 2 and code[0] <= 0 <= code[1]:
                        self.bad(f, ins, lab, 'the process ends with success')
                for (rv, _, _), fl in zip(mine, flags):
                    self.judge(f, ins, lab, rv, 'printed' in fl)
        self.kind(f, outcome)

    def bad(self, f, ins, lab, what):
        self.R.violate('drop:%s:%s:%s' % (self.main, f.name, ins.callee), '%s: when %s fails (%s) in %s, %s' % (self.label, ins.callee, lab, self.where(f), what), self.where(f))

    def judge(self, f, ins, lab, rv, printed):
        E = self.E
        rt = E.ret_type(f)
        if f.name == 'main':
            if rv is None or rv == 'void' or E.zero(rv):
                self.bad(f, ins, lab, 'main returns success')
        elif rt == 'void':
            if printed:
                self.bad(f, ins, lab, 'a result is printed')
            elif not self.counted:
                self.bad(f, ins, lab, 'the failure is forgotten')
        elif rt in errflow.ERR_ENUMS:
            if rv is None or E.zero(rv):
                self.bad(f, ins, lab, 'it returns what can be EmlOk')
        elif rt in ('float', 'double'):
            if not isinstance(rv, errflow.Nan) and not (isinstance(rv, tuple) and len(rv) == 2 and rv[1] < 0 and 'redict' in f.name):
                self.bad(f, ins, lab, 'it returns a value other than NaN')
        else:
            if not (isinstance(rv, tuple) and len(rv) == 2 and (rv[1] < 0 or rv[0] > 0)):
                self.bad(f, ins, lab, 'it returns a value that does not tell')

    def kind(self, f, outcome):
        vals = [rv for rv, _, _ in outcome if rv != 'void']
        if f.name in self.E.kinds or not vals:
            return
        if any(isinstance(v, errflow.Nan) for v in vals):
            self.E.kinds[f.name] = ('float', errflow.NAN)
        else:
            c = sorted({x for v in vals if isinstance(v, tuple) and len(v) == 2 for x in v})
            if c:
                rt = self.E.ret_type(f)
                self.E.kinds[f.name] = ('status' if rt in errflow.ERR_ENUMS else 'value', c)

    def arguments(self, f):
        """a program that takes its features as arguments looks at their number"""
        R, E = self.R, self.E
        argc = f.params[0][0]
        cmps = []
        for i in f.instrs():
            if i.op == 'icmp' and i.pred in ('eq', 'ne'):
                for a, b in ((0, 1), (1, 0)):
                    r, k = self.linear(f, i.ops[a])
                    if r == argc and re.match(r'^-?\d+$', i.ops[b]):
                        cmps.append(int(i.ops[b]) - k)
        if not cmps:
            R.violate('argc:%s' % self.main, '%s: %s does not look at the number of features it is given' % (self.label, self.where(f)), self.where(f))
            return
        n = cmps[0]
        for given in (n - 1, n + 1):
            E.ends = []
            paths = E.paths(f, f.order[0], 0, {argc: (given, given)})
            flags = list(E.flagged)
            R.ob('wrong number of arguments followed', '%s: %s given %d for %d' % (self.label, self.where(f), given - 1, n - 1), subject=self.where(f))
            for (rv, ret, trail), fl in zip(paths, flags):
                if rv is None or E.zero(rv):
                    R.violate('argc:%s' % self.main, '%s: %s can succeed with %d features instead of %d' % (self.label, self.where(f), given - 1, n - 1), self.where(f))

    def linear(self, f, v):
        k = 0
        for _ in range(10):
            d = f.defs.get(v)
            if d is None:
                break
            if d.op in ('sext', 'zext', 'trunc', 'freeze'):
                v = d.ops[0]
            elif d.op in ('add', 'sub') and re.match(r'^-?\d+$', d.ops[1]):
                k += int(d.ops[1]) * (1 if d.op == 'add' else -1)
                v = d.ops[0]
            else:
                break
        return v, k


def same_width(c):
    """a condition that holds only if the number of columns is the number of features"""
    if not isinstance(c, Sym):
        return False
    if c.op == 'and':
        return any(same_width(x) for x in c.args)
    if c.op == 'or':
        return all(same_width(x) for x in c.args)
    if c.op != 'cmp':
        return False
    l, r = c.args[1:3]
    if c.args[0] == 'in' and isinstance(r, (tuple, list)):
        r = [x for x in r if x is not None]
        return len(r) == 1 and same_width(Sym('cmp', '==', l, r[0]))
    return c.args[0] == '==' and {'n_columns_X', 'n_features'} == {y.args[0] for y in (l, r) if isinstance(y, Sym) and y.op == 'in'}


def run():
    R = Report('P05', 'Failures surface.  (a) every process a public method of a converted model starts has its exit status checked, and no handler on the way swallows the exception; '
               '(b) on every path to a process the number of columns equals the number of features of the model, or the program compares the number of its arguments and fails; '
               '(c) when all rows are sent at once the number of results is compared with the number of rows; '
               '(d) in the program itself, assuming that any call of a library function failed, every path ends with a nonzero exit status or prints nothing.',
               ['functions of the C library report failure as C08 and C10 decide', 'the row reader of the test header reports malformed rows'])
    s = Session().load('', *FAMILIES, 'common')
    ip = s.ip
    compared = []
    ip.oncompare = lambda ip_, n, op, l, r: compared.append((ip.freeze(l), ip.freeze(r), op))
    snap = s.snapshot()
    conv = s.attr('convert', 'convert')
    done = {}

    def mentions(t, pred):
        return any(pred(y) for y in terms(t))

    def is_dim(y, name):
        return isinstance(y, Sym) and y.op == 'in' and y.args[0] == name

    def judge(label, meth, events, final):
        raises = {e.loc[2] for e in events if e.kind == 'raise'}
        runs = [e for e in events if e.kind == 'extcall' and e.name in RUN]
        fed = [e for e in events if e.kind == 'methcall' and e.name in ('communicate', 'write')]
        # (a)
        for e in runs:
            where = '%s (%s)' % (e.loc[0], e.loc[2])
            R.ob('process', '%s %s' % (meth, label), subject=where)
            ok = e.name in CHECKED or e.name == 'subprocess.run' and e.kw.get('check') is True or \
                result_checked(e, events, [(l, r) for l, r, _ in compared], raises, final)
            if not ok:
                R.violate('status:%s' % e.loc[2], '%s of %s does not look at the exit status of the compiled model' % (meth, label), where)
            frames = [(e.loc[0], e.loc[1])] + [f for f in e.frames]
            for h in swallowed(frames):
                R.violate('swallowed:%s' % h.split(':')[0], '%s of %s: a failure of the compiled model is caught and not raised again at %s' % (meth, label, h), h)
            # (b)
            R.ob('number of features', '%s %s' % (meth, label), subject=where)
            fact = any(same_width(c) for c in e.pc)
            argv = any(mentions(ip.freeze(a), lambda y: is_dim(y, 'n_columns_X')) for a in e.args)
            if not fact and not argv:
                R.violate('features:%s' % label.split()[0], '%s of %s starts the compiled model without comparing the number of columns with the number of features' % (meth, label), where)
            # (c)
            batch = any(mentions(ip.freeze(a), lambda y: is_dim(y, 'n_rows_X')) or rowsof(ip.freeze(a)) for x in [e] + fed for a in list(x.args) + list(x.kw.values()))
            if batch and meth != 'convert':
                R.ob('number of results', '%s %s' % (meth, label), subject=where)
                if not counted(e, compared, final, raises):
                    R.violate('count:%s:%s' % (label.split()[0], meth), '%s of %s does not compare the number of results with the number of rows' % (meth, label), where)

    def rowsof(t):
        return 'n_rows_X' in repr(t)

    def counted(e, compared, final, raises):
        def one(l, r):
            names = repr((l, r))
            return 'n_rows_X' in names and any(isinstance(y, Sym) and (y.op == 'call' and y.args[0] in RUN or y.op in ('shape', 'altlen', 'size', 'seglen') or y.op == 'meth' and y.args[1] in ('split', 'splitlines', 'communicate'))
                                               for y in list(terms(l)) + list(terms(r)))
        for c in final:
            if isinstance(c, Sym) and c.op == 'cmp' and c.args[0] == '==' and one(*c.args[1:3]):
                return True
        return any(one(l, r) for l, r, op in compared if op in ('==', '!=')) and bool(raises)

    for label, b, kw, saves in configs(R.thorough):
        s.restore(snap)
        ip.epoch = 'convert'
        m, err = s.call(conv, b(s), **kw)
        if err is not None:
            continue
        built = list(ip.events[snap[1]:])
        snap2 = s.snapshot()
        for meth in methods_of(s, m):
            if meth == 'save':
                continue
            s.restore(snap2)
            compared.clear()
            v, err = s.method(m, meth, X(s))
            ev = list(ip.events[snap2[1]:])
            built += ev
            judge(label, meth, ev, list(ip.S.pc))
        # (d)
        for main, e, files, flags in sources(ip, built):
            for alt in range(3 if R.thorough else 2):
                fs = text(ip, files, alt)
                if repr(fs) in done:
                    continue
                done[repr(fs)] = True
                try:
                    mod = cir.Module(compile_ir(fs, main, cc.SSA))
                except cc.CompileError:
                    continue
                R.ob('program', '%s %s' % (main, label), subject='%s (%s)' % (e.loc[0], e.loc[2]))
                Program(R, label, main, mod, True)
    R.floor('process', 20)
    R.floor('number of features', 20)
    R.floor('number of results', 10)
    R.floor('program', 10)
    R.floor('failing call followed', 20)
    R.floor('wrong number of arguments followed', 2)
    return R.finish()
