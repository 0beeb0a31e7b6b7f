from mkseed import *
seed('g03-float32-nodes', 'G03', [('emlearn/trees.py', "            node = [ feature, th, left, right ]\n", "            node = [ feature, numpy.float32(th), left, right ]\n")], py_demo('''
import emlearn, numpy, sys, warnings
warnings.simplefilter('ignore')
from sklearn.tree import DecisionTreeClassifier
bad = 0
for k in range(1, 60):
    b = numpy.float32(k)
    a = numpy.nextafter(b, numpy.float32(0))
    X = numpy.array([[a], [b]], dtype=numpy.float32); y = [0, 1]
    m = DecisionTreeClassifier().fit(X, y)
    if k > 6 and float(numpy.float32(m.tree_.threshold[0])) != float(b):
        continue
    c = emlearn.convert(m, method='inline', dtype='float')
    bad += list(c.predict(X)) != list(m.predict(X))
    if bad or k > 20:
        break
sys.exit(1 if bad else 0)
'''), 'two training values next to each other in single precision, with the midpoint rounding to the upper one', 'thresholds are rounded to single precision when the tree is flattened, before the careful rounding down')
if 0: seed('g03-unsigned-feature', 'G03', [('emlearn/eml_trees.h', "        const int16_t value = features[feature];\n", "        const uint16_t value = features[feature];\n")], c_demo('''
#include "eml_trees.h"
static const EmlTreesNode nodes[1] = { { 0, 10, -1, -2 } };
static const int32_t roots[1] = { 0 };
static const uint8_t leaves[2] = { 0, 1 };
int main(void) {
    EmlTrees t;
    memset(&t, 0, sizeof(t));
    t.n_nodes = 1; t.nodes = (EmlTreesNode *)nodes; t.n_trees = 1; t.tree_roots = (void *)roots; t.n_leaves = 2; t.leaves = (void *)leaves;
    t.leaf_bits = 0; t.n_features = 1; t.n_classes = 2;
    for (int v=-20; v<=20; v++) {
        const int16_t f[1] = { (int16_t)v };
        if (eml_trees_predict(&t, f, 1) != (v <= 10 ? 0 : 1)) { printf("wrong for %d\\n", v); return 1; }
    }
    return 0;
}
'''), 'a negative feature value', 'feature values are read as unsigned in the loadable tree walk')
