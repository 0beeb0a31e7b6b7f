from mkseed import *
T, N = 'emlearn/trees.py', 'emlearn/neighbors.py'
seed('g04-feature-255', 'G04', [(T, "max_features = 127 if self.method", "max_features = 255 if self.method")],
     py_demo('''
import numpy, emlearn, sys
from sklearn.tree import DecisionTreeClassifier
r = numpy.random.RandomState(1)
X = r.randint(0, 100, (60, 200)); y = (X[:, 180] > 50).astype(int)
m = DecisionTreeClassifier(random_state=1).fit(X, y)
try:
    emlearn.convert(m, method='loadable', dtype='int16_t').save(name='m')
except ValueError:
    sys.exit(0)
sys.exit(1)
'''), 'a loadable tree over 128 to 255 features', 'feature numbers above 127 become negative in the int8_t field')
seed('g04-leaf-reference', 'G04', [(T, '        encoded = child\n\n    assert_valid_child(encoded)', '        encoded = child\n\n    assert_valid_child(encoded, child_min = -2**16)')],
     py_demo('''
import sys
from emlearn import trees
nodes = [[0, 1.0, -40000, -1]]
try:
    trees.generate_c_nodes(nodes, 'n', dtype='int16_t')
except (ValueError, AssertionError):
    sys.exit(0)
sys.exit(1)
'''), 'a forest with more than 32768 leaves', 'references to the later leaves wrap in the int16_t field and lead to nodes')
seed('g04-neighbors-wrap', 'G04', [(N, "        return cgen.array_declare(name, values=values, dtype='int16_t', modifiers=array_modifiers)", "        return cgen.array_declare(name, values=numpy.asarray(values).astype(numpy.int16), dtype='int16_t', modifiers=array_modifiers)")],
     py_demo('''
import numpy, sys
from emlearn import neighbors
X = numpy.array([[1, 2], [3, 40000], [5, 6]]); y = numpy.array([0, 1, 0])
try:
    neighbors.c_generate_neighbors(X, y, 1, 'm')
except ValueError:
    sys.exit(0)
sys.exit(1)
'''), 'an item outside the 16-bit range', 'the item is written as another number')
seed('g04-k-neighbors', 'G04', [('emlearn/eml_neighbors.h', '    int16_t k_neighbors;', '    int8_t k_neighbors;')],
     py_demo('''
import numpy, emlearn, sys
from sklearn.neighbors import KNeighborsClassifier
X = numpy.arange(400).reshape(-1, 1); y = (X[:, 0] > 200).astype(int)
m = KNeighborsClassifier(n_neighbors=151, algorithm='brute').fit(X, y)
try:
    c = emlearn.convert(m)
    ok = (numpy.asarray(c.predict(X[::40])) == m.predict(X[::40])).all()
except ValueError:
    ok = True
except Exception:
    ok = False
sys.exit(0 if ok else 1)
'''), 'more than 127 neighbours', 'the number of neighbours is negative in the model')
