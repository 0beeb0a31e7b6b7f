from mkseed import *
CXX = '''
import emlearn, numpy, sys, subprocess, warnings
warnings.simplefilter('ignore')
%s
open('m.cpp', 'w').write('#include "m.h"\\nint main() { return 0; }\\n')
r = subprocess.run(['g++', '-std=c++11', '-w', '-fsyntax-only', '-I', emlearn.includedir, 'm.cpp'])
sys.exit(1 if r.returncode else 0)
'''
seed('g02-inline-class', 'G02', [('emlearn/trees.py', "        int32_t most_voted_class = -1;", "        int32_t class = -1;"), ('emlearn/trees.py', "                most_voted_class = i;", "                class = i;"), ('emlearn/trees.py', "        return most_voted_class;", "        return class;")], py_demo(CXX % '''
from sklearn.tree import DecisionTreeClassifier
X = numpy.arange(40).reshape(20, 2); y = (X[:, 0] > 17).astype(int)
emlearn.convert(DecisionTreeClassifier().fit(X, y), method='inline').save(name='m', file='m.h')
'''), 'including an inline classifier from C++', 'a C++ keyword is used as variable in the generated code')
seed('g02-elliptic-enum', 'G02', [('emlearn/distance.py', "        const int result = eml_elliptic_envelope_predict(", "        const EmlError result = eml_elliptic_envelope_predict(")], py_demo(CXX % '''
from sklearn.covariance import EllipticEnvelope
X = numpy.random.RandomState(1).normal(size=(60, 2))
emlearn.convert(EllipticEnvelope(random_state=1).fit(X)).save(name='m', file='m.h')
'''), 'including an elliptic envelope model from C++', 'an integer result initialises an enum, which C++ refuses')
