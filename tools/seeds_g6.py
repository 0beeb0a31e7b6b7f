from mkseed import *
HEAD = '''
import emlearn, numpy, sys, warnings
warnings.simplefilter('ignore')
r = numpy.random.RandomState(1)
X = r.normal(size=(60, 3)); y = (X[:, 0] > 0).astype(int)
def refused(m, name, **kw):
    try:
        m.save(name=name, **kw)
    except Exception:
        return True
    return False
'''
seed('g06-stripped', 'G06', [('emlearn/cgen.py', "    valid = identifier_is_valid(s)\n", "    valid = identifier_is_valid(s.strip())\n")], py_demo(HEAD + '''
from sklearn.naive_bayes import GaussianNB
m = emlearn.convert(GaussianNB().fit(X, y))
sys.exit(0 if refused(m, 'model\\n') and refused(m, ' model') and not refused(m, 'model') else 1)
'''), 'a name surrounded by white space', 'names with leading or trailing white space pass the check and end up in the code as they are')
seed('g06-regressor-inline', 'G06', [('emlearn/trees.py', """    nodes, roots, leaves = forest

    cgen.assert_valid_identifier(name)

    tree_names""", """    nodes, roots, leaves = forest

    if classifier:
        cgen.assert_valid_identifier(name)

    tree_names"""), ('emlearn/trees.py', """    nodes, roots, leaves = forest

    cgen.assert_valid_identifier(name)

    nodes_name""", """    nodes, roots, leaves = forest

    if classifier:
        # regressors only have functions
        cgen.assert_valid_identifier(name)

    nodes_name""")], py_demo(HEAD + '''
from sklearn.tree import DecisionTreeRegressor, DecisionTreeClassifier
a = emlearn.convert(DecisionTreeRegressor(max_depth=3).fit(X, X[:, 1]), method='inline', dtype='float')
b = emlearn.convert(DecisionTreeClassifier(max_depth=3).fit(X, y), method='inline', dtype='float')
sys.exit(0 if all(refused(m, n) for m in (a, b) for n in ('for', 'a-b', '1x')) else 1)
'''), 'a regression forest with a bad name', 'the name of regression models is not checked')
seed('g06-keyword-line', 'G06', [('emlearn/creserved.py', "_Alignas\n_Alignof\n_Atomic\n", "_Alignas, _Alignof\n_Atomic\n")], py_demo(HEAD + '''
from sklearn.naive_bayes import GaussianNB
m = emlearn.convert(GaussianNB().fit(X, y))
sys.exit(0 if refused(m, '_Alignas') and refused(m, '_Alignof') and refused(m, '_Generic') else 1)
'''), 'a name that is one of two keywords of C11', 'two keywords of C11 are accepted as names')
