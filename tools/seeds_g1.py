from mkseed import *
seed('g01-net-buffers', 'G01', [('emlearn/net.py', """    cgen.assert_valid_identifier(prefix)

    buffer_sizes = [ w.shape[0] for w in weights ] + [ w.shape[1] for w in weights ]
    buffer_size = max(buffer_sizes)
    n_layers = len(activations)""", """    cgen.assert_valid_identifier(prefix)

    buffer_sizes = [ w.shape[0] for w in weights ]
    buffer_size = max(buffer_sizes)
    n_layers = len(activations)""")], py_demo('''
import emlearn, numpy, sys, warnings
warnings.simplefilter('ignore')
from sklearn.neural_network import MLPClassifier
r = numpy.random.RandomState(1)
X = r.normal(size=(160, 3)); y = numpy.arange(160) % 8
m = MLPClassifier(hidden_layer_sizes=(4,), max_iter=5, random_state=1).fit(X, y)
c = emlearn.convert(m, method='loadable')
try:
    p = c.predict(X[:20])
except Exception as e:
    print(repr(e)[:200]); sys.exit(1)
sys.exit(0 if min(p) >= 0 else 1)
'''), 'a network whose output layer is larger than every other layer', 'the activation buffers of a loadable network are sized without its outputs')
seed('g01-neighbors-capacity', 'G01', [('emlearn/neighbors.py', "    max_items = n_items\n", "    max_items = max(n_items, 2*n_features)\n")], py_demo('''
import emlearn, numpy, sys, subprocess, warnings
warnings.simplefilter('ignore')
from sklearn.neighbors import KNeighborsClassifier
r = numpy.random.RandomState(1)
X = r.randint(0, 100, size=(6, 12)); y = numpy.arange(6) % 2
emlearn.convert(KNeighborsClassifier(n_neighbors=1).fit(X, y)).save(name='m', file='m.h')
open('m.c', 'w').write('#include "m.h"\\nint main(void) { return (int)(sizeof(m_labels)/sizeof(m_labels[0])) >= m.max_items ? 0 : 1; }\\n')
r = subprocess.run(['gcc', '-std=c99', '-w', '-o', 'm.out', '-I', emlearn.includedir, 'm.c', '-lm'])
sys.exit(1 if r.returncode or subprocess.run(['./m.out']).returncode else 0)
'''), 'a model with more than half as many features as items', 'the capacity given for the neighbour model is not the length of its arrays')
