"""P06: evaluating the top level of every module has no effect outside the package's own definitions."""
import re
import pyscen
from pyval import *
from report import Report, Lost

# calls that change process-wide state, the file system or the outside world
EFFECT = [(re.compile(r), w) for r, w in [
    (r'numpy\.(set_printoptions|seterr|seterrcall|setbufsize|set_string_function|set_numeric_ops)$', 'numpy settings'),
    (r'numpy\.random\.(seed|set_state)$|random\.(seed|setstate)$', 'the global random generator'),
    (r'warnings\.(simplefilter|filterwarnings|resetwarnings)$', 'the warning filters'),
    (r'pandas\.set_option$|pandas\.options', 'pandas options'),
    (r'(matplotlib|matplotlib\.pyplot|seaborn)\.(use|rc|rcdefaults|rc_file|switch_backend|ion|ioff|set|set_theme|set_style)$', 'plotting settings'),
    (r'sklearn\.set_config$|tensorflow\.|keras\.', 'library settings'),
    (r'os\.(putenv|unsetenv|chdir|fchdir|umask|nice|setuid|setgid|kill|system|popen|mkdir|makedirs|remove|unlink|rmdir|removedirs|rename|renames|replace|symlink|link|chmod|chown|truncate|utime|exec\w*|spawn\w*|fork|_exit|abort|mkfifo)$', 'the process or the file system'),
    (r'os\.environ\.(update|setdefault|pop|clear|__setitem__|popitem)$', 'the environment'),
    (r'sys\.(setrecursionlimit|settrace|setprofile|setswitchinterval|set_int_max_str_digits|exit|path\.\w+|path_hooks\.\w+|meta_path\.\w+|modules\.\w+|stdout\.write|stderr\.write|stdout\.\w+)$', 'interpreter settings'),
    (r'locale\.setlocale$|signal\.\w+$|atexit\.register$|gc\.(disable|enable|set_threshold|freeze)$|resource\.setrlimit$|faulthandler\.\w+$|decimal\.(setcontext|getcontext)$', 'interpreter settings'),
    (r'logging\.(basicConfig|disable|captureWarnings|addLevelName|setLoggerClass|config\.\w+)$', 'logging configuration'),
    (r'socket\.(setdefaulttimeout|create_connection|socket)$|urllib\..*|requests\..*', 'the network'),
    (r'shutil\.(?!which$|get_terminal_size$)\w+$|tempfile\.(?!gettempdir$)\w+$|pathlib\.Path\.(mkdir|touch|unlink|write_text|write_bytes|rename)$', 'the file system'),
    (r'subprocess\.\w+$|multiprocessing\.(set_start_method|Process|Pool)$|threading\.(Thread|Timer|stack_size|settrace|setprofile)$', 'processes or threads'),
    (r'(builtins\.)?(print|input|exec|eval|breakpoint)$', 'the terminal or arbitrary code'),
    (r'importlib\.(reload|invalidate_caches)$|builtins\.__setattr__$|ctypes\..*', 'the interpreter'),
]]
# the result of these is never the point, and calling them at the top level without using it is harmless
PURE_BASE = re.compile(r'^(re|math|numpy|os\.path|typing|collections|functools|itertools|string|enum|dataclasses)\.')


def run():
    R = Report('P06', 'Import-time effects.  An abstract interpreter over the syntax trees evaluates the top level of every Python module of the package '
               '(functions called from it included); every call, attribute/item store, deletion, in-place change, print and file operation met on any path is an '
               'obligation: it must not reach an object outside the package that a process shares.  Rule: no call from the table of state-changing functions, no '
               'store to an object owned by another module, no file opened for writing, no external call whose result is discarded, no context manager entered for such a setting.',
               ['the table of external functions that change process state; other external functions are assumed effect free when their result is used'])
    s = pyscen.Session()
    ip = s.ip
    mods = pyscen.package_modules(ip.repo)
    for m in mods:
        try:
            s.load(m)
        except PyRaise as e:
            # an optional third-party import failing is the environment's matter; a raise in straight-line code is not import safe either way
            raise Lost('top level of emlearn.%s always raises %s' % (m, e.exc))
        R.ob('module evaluated', m, subject='emlearn.' + m if m else 'emlearn')
    if ip.unknown_nodes:
        R.extra['syntax_not_modelled'] = sorted(ip.unknown_nodes)
    own = set(ip.modules)
    for e in ip.events:
        w = '%s:%s in %s' % e.loc
        where = e.loc[0] + ':' + e.loc[2]
        if e.kind in ('extcall', 'methcall'):
            name = e.name if e.kind == 'extcall' else (callee(e) or '?.' + e.name)
            R.ob('call', '%s %s' % (w, name))
            for rx, what in EFFECT:
                if rx.match(name):
                    R.violate('call:%s:%s' % (where, name), 'importing %s calls %s, which changes %s' % (e.loc[0], name, what), w)
            if e.kind == 'methcall' and e.name in ('append', 'insert', 'extend', 'update', 'setdefault', 'pop', 'clear', 'remove', 'sort', 'add', 'popitem', 'register') and shared(e.target):
                R.violate('mut:%s:%s' % (where, e.name), 'importing %s calls .%s() on %s' % (e.loc[0], e.name, e.target), w)
        elif e.kind == 'open':
            R.ob('file opened', w)
            if not (isinstance(e.mode, str) and not set(e.mode) & set('wax+')):
                R.violate('open:' + where, 'importing %s opens %s with mode %r' % (e.loc[0], e.path, e.mode), w)
        elif e.kind in ('write', 'filemeth'):
            R.ob('file operation', w)
            if e.kind == 'write':
                R.violate('write:' + where, 'importing %s writes a file' % e.loc[0], w)
        elif e.kind == 'print':
            R.violate('print:' + where, 'importing %s prints' % e.loc[0], w)
        elif e.kind in ('setattr', 'mutate'):
            R.ob('store', w)
            t = e.target
            if shared(t):
                R.violate('store:%s:%s' % (where, getattr(e, 'name', getattr(e, 'how', ''))), 'importing %s changes %s' % (e.loc[0], t), w)
        elif e.kind == 'setglobal':
            R.ob('store', w)
            if str(e.mod) not in own and not str(e.mod).startswith(("('emlearn", 'emlearn')):
                R.violate('store:%s:%s' % (where, e.name), 'importing %s sets %s of %s' % (e.loc[0], e.name, e.mod), w)
        elif e.kind == 'discard':
            v = e.value
            R.ob('statement', w)
            if isinstance(v, Sym) and e.loc[2] == '<module>':
                n = callname(v)
                if n and not PURE_BASE.match(n):
                    R.violate('discard:%s:%s' % (where, n), 'importing %s calls %s only for its effect' % (e.loc[0], n), w)
    R.floor('module evaluated', 15)
    R.floor('call', 10)
    return R.finish()


def callee(e):
    t = e.target
    if isinstance(t, External):
        return t.name + '.' + e.name
    if isinstance(t, Sym):
        if t.op == 'attr' and isinstance(t.args[0], Sym) and t.args[0].op == 'ext':
            return '%s.%s.%s' % (t.args[0].args[0], t.args[1], e.name)
        if t.op == 'ext':
            return '%s.%s' % (t.args[0], e.name)
    return None


def callname(v):
    if v.op == 'call':
        return v.args[0]
    if v.op == 'meth':
        b = v.args[0]
        if isinstance(b, Sym) and b.op == 'ext':
            return '%s.%s' % (b.args[0], v.args[1])
    return None


def shared(t):
    """an object that belongs to another module"""
    if isinstance(t, External):
        return True
    if isinstance(t, Choice):
        return any(shared(x) for x in t.vals)
    if isinstance(t, Sym):
        while t.op in ('attr', 'item') and isinstance(t.args[0], Sym):
            t = t.args[0]
        return t.op == 'ext'
    return False
