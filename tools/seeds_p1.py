from mkseed import *
seed('p03-trees-node-names', 'P03', [('emlearn/trees.py', """                name = os.path.splitext(os.path.basename(file))[0]

        if format == 'c':""", """                name = os.path.splitext(os.path.basename(file))[0]

        # remember which model is stored under the name, so that later exports stay together
        name = self.__dict__.setdefault('_export_name', name)

        if format == 'c':""")], py_demo('''
import emlearn, numpy, sys
from sklearn.tree import DecisionTreeClassifier
X = numpy.arange(40).reshape(20, 2); y = (X[:, 0] > 17).astype(int)
m = emlearn.convert(DecisionTreeClassifier().fit(X, y))
a = m.save(name='first'); b = m.save(name='second'); c = m.save(name='first')
sys.exit(0 if a == c and 'second_predict' in b and 'first' not in b else 1)
'''), 'saving the same converted model twice with different names', 'the second export of a model is generated under the name of the first one')
seed('p03-net-strip', 'P03', [('emlearn/net.py', """            with open(file, 'w') as f:
                f.write(code)
""", """            with open(file, 'w') as f:
                f.write(code.lstrip())
""")], py_demo('''
import emlearn, numpy, sys, warnings
warnings.simplefilter('ignore')
from sklearn.neural_network import MLPClassifier
X = numpy.arange(40).reshape(20, 2) / 40.; y = (X[:, 0] > 0.4).astype(int)
m = emlearn.convert(MLPClassifier((3,), max_iter=20).fit(X, y), method='inline')
code = m.save(name='net', file='net.h')
sys.exit(0 if open('net.h').read() == code else 1)
'''), 'comparing the file with the returned text', 'the file written by save of a network differs from the returned text')
seed('p03-mixture-exists', 'P03', [('emlearn/mixture.py', """        code = generate_code(self, name=name)
        if file:
            with""", """        code = generate_code(self, name=name)
        if file and not os.path.exists(file):
            with""")], py_demo('''
import emlearn, numpy, sys
from sklearn.mixture import GaussianMixture
rng = numpy.random.RandomState(1)
def conv(k):
    return emlearn.convert(GaussianMixture(2, random_state=1).fit(rng.normal(size=(60, 2)) * k))
a, b = conv(1.0), conv(9.0)
a.save(name='gmm', file='gmm.h')
t = b.save(name='gmm', file='gmm.h')
sys.exit(0 if open('gmm.h').read() == t else 1)
'''), 'saving over an existing file', 'save silently keeps the old model when the file already exists')
seed('p01-bayes-method', 'P01', [('emlearn/bayes.py', "        if method == 'loadable':\n            name", "        if method != 'inline':\n            name")], py_demo('''
import emlearn, numpy, sys
from sklearn.naive_bayes import GaussianNB
rng = numpy.random.RandomState(3)
X = rng.normal(size=(40, 3)); y = (X.sum(axis=1) > 0).astype(int)
est = GaussianNB().fit(X, y)
emlearn.convert(est, method='loadable').predict(X)
try:
    m = emlearn.convert(est, method='pymodule')
except Exception as e:
    sys.exit(0)
sys.exit(1)
'''), 'converting a naive Bayes model with a method it does not implement', 'an unsupported method is silently replaced by loadable')
seed('p06-numpy-errstate', 'P06', [('emlearn/bayes.py', "def generate_c(", "# log2 of zero variance is handled when the values are quantized\nnumpy.seterr(divide='ignore')\n\ndef generate_c(")], py_demo('''
import numpy, sys
a = numpy.geterr(); import emlearn; b = numpy.geterr()
sys.exit(0 if a == b else 1)
'''), 'importing emlearn in a program that relies on numpy reporting divisions by zero', 'import changes the floating-point error handling of the whole process')
