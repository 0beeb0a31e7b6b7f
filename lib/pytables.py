"""What the converter emits for each activation function, Keras name and covariance structure: the code saved for an abstract model."""
import re
from pyval import *
from pyscen import *
import pyinst

SKLEARN = ('identity', 'logistic', 'tanh', 'relu', 'softmax')
KERAS = ('linear', 'relu', 'sigmoid', 'softmax', 'tanh', 'elu', 'selu', 'softplus', 'softsign', 'gelu', 'exponential', 'hard_sigmoid', 'swish', 'relu6', 'leaky_relu', 'log_softmax', 'mish', 'silu')
COVARIANCES = ('full', 'tied', 'diag', 'spherical')


def ids(s, v, pattern):
    out = set()
    for alt in (0, 1):
        t = v if isinstance(v, str) else pyinst.Env(s.ip, alt=alt).text(v)
        t = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', t, flags=re.S)
        out |= set(re.findall(pattern, t))
    return out


class Tables:
    def __init__(self):
        self.s = s = Session().load('', *FAMILIES)
        self.snap = s.snapshot()
        self.conv = s.attr('convert', 'convert')

    def emitted(self, build, pattern, kws):
        """(set of identifiers in the code of all ways to save, refused everywhere)"""
        s = self.s
        out, refused = set(), True
        for kw in kws:
            s.restore(self.snap)
            m, err = s.call(self.conv, build(s), **kw)
            if err is not None:
                continue
            v, err = s.method(m, 'save', name=D('NAME'))
            if err is not None or not isinstance(v, (str, Str)):
                continue
            refused = False
            out |= ids(s, v, pattern)
        return out, refused

    def order(self):
        """the list of the converter, where it has one"""
        self.s.restore(self.snap)
        try:
            v = self.s.attr('net', 'ACTIVATION_FUNCTIONS')
        except PyRaise:
            return None
        if isinstance(v, Obj) and v.kind == 'list':
            sg = list(self.s.ip.segs(v))
            v = [x[1] for x in sg] if all(x[0] == 'item' for x in sg) else [None]
        elif isinstance(v, Sym) and v.op == 'list':
            v = list(v.args)
        if not isinstance(v, (list, tuple)):
            return None
        v = list(v)
        return v if all(isinstance(x, str) for x in v) else None


ACT = r'\bEmlNetActivation\w+'
COV = r'\bEmlCovariance\w+'
METHODS = ({'method': 'loadable'}, {'method': 'inline'})
