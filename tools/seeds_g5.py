from mkseed import *
seed('g05-tied-rounded', 'G05', [('emlearn/mixture.py', "        out = [ precisions_chol for _ in range(n_components) ]\n", "        shared = numpy.around(precisions_chol, 6)\n        out = [ shared for _ in range(n_components) ]\n")], py_demo('''
import emlearn, numpy, sys, re, warnings
warnings.simplefilter('ignore')
from sklearn.mixture import GaussianMixture
r = numpy.random.RandomState(1)
X = r.normal(size=(200, 2)) * [1e4, 1e4]
m = GaussianMixture(2, covariance_type='tied', random_state=1).fit(X)
t = emlearn.convert(m).save(name='m')
vals = [float(v.strip().rstrip('f')) for v in re.search(r'm_precisions\\[\\d+\\] = \\{([^}]*)\\}', t).group(1).split(',')]
want = numpy.stack([m.precisions_cholesky_] * 2).astype(numpy.float32).flatten()
sys.exit(0 if numpy.array_equal(numpy.float32(vals), want) else 1)
'''), 'tied covariance with features of large magnitude, so that the precisions are small', 'small precision values of tied mixtures are rounded to zero')
seed('g05-bayes-digits', 'G05', [('emlearn/bayes.py', '    return "EML_Q16_FROMFLOAT({})".format(v)\n', '    return "EML_Q16_FROMFLOAT({:.6g})".format(float(v))\n')], py_demo('''
import emlearn, numpy, sys, re, warnings
warnings.simplefilter('ignore')
from sklearn.naive_bayes import GaussianNB
r = numpy.random.RandomState(1)
X = r.normal(size=(40, 2)) + [12345.6789, 3]; y = numpy.arange(40) % 2
m = GaussianNB().fit(X, y)
t = emlearn.convert(m).save(name='m')
vals = numpy.float32([float(x) for x in re.findall(r'FROMFLOAT\\(([^)]*)\\)', t)])
want = numpy.float32(m.theta_.flatten())
sys.exit(0 if all(w in vals for w in want) else 1)
'''), 'a feature mean with more than six significant digits', 'the parameters of naive Bayes models are written with six digits')
