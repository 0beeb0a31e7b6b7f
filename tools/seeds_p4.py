from mkseed import *
seed('p04-mixture-workdir', 'P04', [('emlearn/mixture.py', """        with tempfile.TemporaryDirectory() as out_dir:

            bin_path = build_executable(self, out_dir=out_dir, output_type='score')
            predictions = predict(bin_path, X, verbose=self.verbose)
""", """        # reuse one directory, to not leave many of them behind when interrupted
        out_dir = os.path.join(tempfile.gettempdir(), 'emlearn-mixture-build')
        os.makedirs(out_dir, exist_ok=True)
        bin_path = build_executable(self, out_dir=out_dir, output_type='score')
        predictions = predict(bin_path, X, verbose=self.verbose)
""")], py_demo('''
import os, tempfile
tempfile.tempdir = os.getcwd()
import emlearn, numpy, sys
import emlearn.mixture as mm
from sklearn.mixture import GaussianMixture
rng = numpy.random.RandomState(1)
X = rng.normal(size=(60, 2))
a, b = GaussianMixture(2, random_state=1).fit(X), GaussianMixture(2, random_state=1).fit(X * 9)
ca, cb = emlearn.convert(a), emlearn.convert(b)
orig = mm.predict
state = []
def interleaved(*args, **kwargs):
    if not state:
        state.append(1)
        cb.score_samples(X[:2])     # another thread or process gets here
    return orig(*args, **kwargs)
mm.predict = interleaved
ok = numpy.allclose(ca.score_samples(X[:5]), a.score_samples(X[:5]), rtol=1e-3, atol=1e-3)
sys.exit(0 if ok else 1)
'''), 'two mixtures scoring at the same time, in threads or processes', 'one model scores with the executable of the other')
seed('p04-header-dir', 'P04', [('emlearn/common.py', "    def_file = os.path.join(temp_dir, def_file_name)\n", "    def_dir = os.path.join(tempfile.gettempdir(), 'emlearn-include')\n    os.makedirs(def_dir, exist_ok=True)\n    def_file = os.path.join(def_dir, def_file_name)\n"), ('emlearn/common.py', "    include_dirs = [temp_dir, include_dir]\n", "    include_dirs = [def_dir, include_dir]\n")], py_demo('''
import os, tempfile
tempfile.tempdir = os.getcwd()
import emlearn, numpy, sys
import emlearn.common as c
from sklearn.tree import DecisionTreeClassifier
X = numpy.arange(40).reshape(20, 2); y = (X[:, 0] > 17).astype(int)
a = DecisionTreeClassifier(max_depth=1).fit(X, y); b = DecisionTreeClassifier(max_depth=1).fit(X, 1 - y)
ca, cb = emlearn.convert(a), emlearn.convert(b)
orig = c.new_compiler
state = []
def new_compiler(**kw):
    cc = orig(**kw)
    oc = cc.compile
    def comp(*args, **kwargs):
        if not state:
            state.append(1)
            cb.predict(X)     # another thread or process gets here
        return oc(*args, **kwargs)
    cc.compile = comp
    return cc
c.new_compiler = new_compiler
sys.exit(0 if (ca.predict(X) == a.predict(X)).all() else 1)
'''), 'two models being built at the same time, in threads or processes', 'one model is compiled from the header of the other')
