from mkseed import *
HEAD = '''
import emlearn, numpy, sys, warnings
warnings.simplefilter('ignore')
r = numpy.random.RandomState(1)
'''
seed('p05-argc-minimum', 'P05', [('emlearn/mixture.py', "        if (argc != 1+n_features) {{\n", "        if (argc < 1+n_features) {{\n")], py_demo(HEAD + '''
from sklearn.mixture import GaussianMixture
m = GaussianMixture(2, random_state=1).fit(r.normal(size=(40, 3)))
c = emlearn.convert(m)
c.predict(r.normal(size=(2, 3)))
try:
    out = c.predict(r.normal(size=(2, 4)))
except Exception as e:
    sys.exit(0)
print('no exception:', out)
sys.exit(1)
'''), 'mixture model given rows with too many features', 'rows with too many features are accepted by mixture models')
seed('p05-status-ignored', 'P05', [('emlearn/common.py', "    out = subprocess.check_output(args, input=stdin, encoding='utf8', universal_newlines=True)\n", "    with subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, encoding='utf8', universal_newlines=True) as process:\n        out, _ = process.communicate(input=stdin)\n")], py_demo(HEAD + '''
import os, stat
from sklearn.naive_bayes import GaussianNB
X = r.normal(size=(40, 3)); y = numpy.arange(40) % 2
c = emlearn.convert(GaussianNB().fit(X, y))
c.predict(X)
# a program that fails after it has printed every row
path = c.classifier.bin_path
real = path + '.real'
os.rename(path, real)
open(path, 'w').write('#!/bin/sh\\n%s\\nexit 7\\n' % real)
os.chmod(path, 0o755)
try:
    c.predict(X)
except Exception:
    sys.exit(0)
sys.exit(1)
'''), 'a compiled model that fails after its last row', 'the exit status of the compiled model is ignored')
