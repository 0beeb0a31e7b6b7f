from mkseed import *
HEAD = '''
import emlearn, numpy, sys, warnings
warnings.simplefilter('ignore')
r = numpy.random.RandomState(1)
'''
seed('p07-proba-rounded', 'P07', [('emlearn/common.py', "            return int(row), int(cls), float(prob)\n", "            return int(row), int(cls), round(float(prob), 6)\n")], py_demo(HEAD + '''
from sklearn.neural_network import MLPClassifier
X = r.normal(size=(60, 3)) * 3; y = numpy.arange(60) % 2; X[y == 1] += 8
m = MLPClassifier((4,), max_iter=400, random_state=1).fit(X, y)
got = emlearn.convert(m).predict_proba(X)
want = m.predict_proba(X)
small = (want > 1e-30) & (want < 1e-4)
assert small.any()
ok = numpy.abs(got - want)[small] <= 1e-2 * want[small]
sys.exit(0 if ok.all() else 1)
'''), 'a class whose probability is small', 'probabilities below half a millionth are returned as zero')
seed('p07-row-text', 'P07', [('emlearn/common.py', '        lines.append(",".join(serialize_value(v) for v in row))\n', '        lines.append(numpy.array2string(numpy.asarray(row), separator=",", max_line_width=1000000, threshold=1000000)[1:-1].replace(" ", ""))\n')], py_demo(HEAD + '''
from sklearn.tree import DecisionTreeClassifier
X = numpy.float32([[0.0001, 0.05], [0.0001, 0.06], [0.0002, 0.05], [0.0002, 0.06]])
y = [0, 0, 1, 1]
m = DecisionTreeClassifier(random_state=1).fit(X, y)
c = emlearn.convert(m, dtype='float')
Z = numpy.float32([[0.000150004, 0.05], [0.000149996, 0.05]])
sys.exit(0 if list(c.predict(Z)) == list(m.predict(Z)) else 1)
'''), 'small features which differ beyond the eighth decimal', 'samples are sent to the compiled model with the digits numpy prints arrays with')
