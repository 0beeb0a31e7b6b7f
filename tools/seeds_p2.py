from mkseed import *
seed('p02-knn-range', 'P02', [('emlearn/neighbors.py', "        self.fit_data_X = estimator._fit_X\n", "        self.fit_data_X = estimator._fit_X\n        # the C code stores the items as int16_t\n        self.fit_data_X[self.fit_data_X > 32767] = 32767\n")], py_demo('''
import emlearn, numpy, sys
from sklearn.neighbors import KNeighborsClassifier
X = numpy.array([[1, 2], [3, 4], [500, 5], [40000, 90]], dtype=float); y = numpy.array([0, 0, 1, 1])
est = KNeighborsClassifier(1, algorithm='brute').fit(X.copy(), y)
before = est._fit_X.copy()
try:
    emlearn.convert(est).predict(X[:2])
except Exception:
    pass
sys.exit(0 if (est._fit_X == before).all() else 1)
'''), 'training data outside the range of int16_t', 'the stored training data of the estimator is clipped in place')
seed('p02-pareto-copy', 'P02', [('emlearn/evaluate/pareto.py', "    df = df.copy()\n", "    df = df if isinstance(df.index, pandas.RangeIndex) else df.copy()\n"), ('emlearn/evaluate/pareto.py', "import numpy\n", "import numpy\nimport pandas\n")], py_demo('''
import sys, pandas
from emlearn.evaluate.pareto import find_pareto_front
df = pandas.DataFrame({'mean_test_compute': [1., 2., 3.], 'mean_test_accuracy': [.5, .7, .6]})
cols = list(df.columns)
find_pareto_front(df)
sys.exit(0 if list(df.columns) == cols else 1)
'''), 'a table with the default index', 'find_pareto_front adds a column to the table of the caller')
seed('p02-mixture-clean', 'P02', [('emlearn/mixture.py', "        out = [ numpy.diag(a) for a in precisions_chol ]", "        # avoid denormals on targets without support for them\n        small = numpy.abs(precisions_chol) < 1e-4\n        precisions_chol[small] = 0.0\n        out = [ numpy.diag(a) for a in precisions_chol ]")], py_demo('''
import emlearn, numpy, sys
from sklearn.mixture import GaussianMixture
rng = numpy.random.RandomState(1)
X = rng.normal(size=(60, 2)) * 1e6
est = GaussianMixture(2, covariance_type='diag', random_state=1).fit(X)
before = est.precisions_cholesky_.copy()
try:
    emlearn.convert(est).save(name='m')
except Exception:
    pass
sys.exit(0 if (est.precisions_cholesky_ == before).all() else 1)
'''), 'a diagonal mixture over features with large spread', 'converting sets small entries of the original estimator to zero')
