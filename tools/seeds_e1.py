from mkseed import *
T, P, Z = 'emlearn/evaluate/trees.py', 'emlearn/evaluate/pareto.py', 'emlearn/evaluate/size.py'
seed('e01-depth-unique', 'E01', [(T, '''    depths = [ e.tree_.max_depth for e in trees ]
    return numpy.mean(depths)''', '''    depths = set(e.tree_.max_depth for e in trees)
    return numpy.mean(list(depths))''')],
     py_demo('''
import numpy
from sklearn.ensemble import RandomForestClassifier
from emlearn.evaluate.trees import tree_depth_average
rng = numpy.random.RandomState(3)
X = rng.normal(size=(200, 4)); y = (X[:, 0] + X[:, 1] * X[:, 2] > 0).astype(int)
m = RandomForestClassifier(n_estimators=15, random_state=1).fit(X, y)
want = numpy.mean([e.get_depth() for e in m.estimators_])
assert abs(tree_depth_average(m) - want) < 1e-9, (tree_depth_average(m), want)
'''), 'an ensemble in which several trees have the same depth', 'the mean is taken over the distinct depths')
seed('e01-cost-first-rows', 'E01', [(T, '''        t = numpy.sum(path, axis=1)
        total += numpy.mean(t)''', '''        t = numpy.sum(path, axis=1)
        total = max(total, numpy.mean(t)) if len(trees) == 1 else total + numpy.max(t)''')],
     py_demo('''
import numpy
from sklearn.ensemble import RandomForestClassifier
from emlearn.evaluate.trees import compute_cost_estimate
rng = numpy.random.RandomState(3)
X = rng.normal(size=(200, 4)); y = (X[:, 0] + X[:, 1] * X[:, 2] > 0).astype(int)
m = RandomForestClassifier(n_estimators=5, random_state=1).fit(X, y)
want = sum(numpy.asarray(e.decision_path(X).sum(axis=1)).mean() for e in m.estimators_)
got = compute_cost_estimate(m, X)
assert abs(got - want) < 1e-6, (got, want)
'''), 'an ensemble with paths of different lengths', 'the cost is the worst case instead of the mean')
seed('e01-pareto-equal', 'E01', [(P, 'costs[is_efficient] < c', 'costs[is_efficient] <= c')],
     py_demo('''
import pandas
from emlearn.evaluate.pareto import find_pareto_front
df = pandas.DataFrame({'acc': [0.9, 0.9, 0.7], 'cost': [5, 10, 1]})
got = find_pareto_front(df, cost_metric='cost', performance_metric='acc')
assert sorted(got.index) == [0, 2], got
'''), 'two results that are equal in one of the metrics', 'a dominated result is kept on the front')
seed('e01-pareto-cut', 'E01', [(P, "pp = (pp & (df[performance_metric] <= min_performance))", "pp = (pp & (df[performance_metric] >= min_performance))")],
     py_demo('''
import pandas
from emlearn.evaluate.pareto import find_pareto_front
df = pandas.DataFrame({'err': [0.1, 0.2, 0.5], 'cost': [10, 5, 1]})
got = find_pareto_front(df, cost_metric='cost', performance_metric='err', higher_is_better=False, min_performance=0.3)
assert sorted(got.index) == [0, 1], got
'''), 'an error metric together with min_performance', 'the good results are cut, the bad ones are kept')
seed('e01-ram-data', 'E01', [(Z, "'ram': parsed['.data'] + parsed['.bss'],", "'ram': max(parsed['.data'], parsed['.bss']),")],
     py_demo('''
import os, stat, tempfile
from emlearn.evaluate.size import run_binutils_size
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'size')
    open(p, 'w').write("#!/bin/sh\\nprintf 'prog.elf  :\\\\nsection size addr\\\\n.text 100 0\\\\n.data 20 256\\\\n.bss 30 512\\\\nTotal 150\\\\n'\\n")
    os.chmod(p, 0o755)
    got = run_binutils_size('prog.elf', p)
assert got == {'flash': 120, 'ram': 50}, got
'''), 'a program with both initialised and zeroed variables', 'only the larger of the two sections counts as RAM')
