from mkseed import *
seed('c11-error-text', 'C11', [('emlearn/eml_common.h', '    "Uninitialized",\n', ''), ('emlearn/eml_common.h', '    "Unknown error",\n', '    "Unknown error",\n    "Uninitialized",\n')], c_demo(r'''
#include "eml_common.h"
#include <string.h>
int main(void) {
    return !(strcmp(eml_error_str(EmlUninitialized), "Uninitialized") == 0 && strstr(eml_error_str(EmlPostconditionFailed), "Postcondition") && strstr(eml_error_str(EmlUnknownError), "Unknown"));
}
'''), 'the text of one of the last error codes', 'the descriptions of three error codes are those of other codes')
seed('c11-keras-approximate', 'C11', [('emlearn/net.py', "        'linear': 'identity',\n", "        'linear': 'identity',\n        'hard_sigmoid': 'logistic',\n        'elu': 'relu',\n")], py_demo('''
import emlearn, numpy, sys
class Act:
    def __init__(self, n): self.__name__ = n
class Dense:
    use_bias = True
    def __init__(self, n, i, o): self.activation = Act(n); self.w = numpy.ones((i, o)), numpy.zeros(o)
    def get_weights(self): return self.w
class Sequential: pass
def ok(n):
    m = Sequential(); m.layers = [Dense(n, 2, 3), Dense('softmax', 3, 2)]
    try:
        emlearn.convert(m, method='inline').save(name='m')
        return True
    except Exception:
        return False
sys.exit(0 if ok('sigmoid') and not ok('hard_sigmoid') and not ok('elu') else 1)
'''), 'a Keras model with hard_sigmoid or elu', 'activations the C library does not have are replaced by others')
seed('c11-title-case', 'C11', [('emlearn/eml_net_common.h', "    EmlNetActivationLogistic,\n    EmlNetActivationSoftmax,\n    EmlNetActivationTanh,\n", "    EmlNetActivationLogistic,\n    EmlNetActivationTanh,\n    EmlNetActivationSoftmax,\n")], c_demo(r'''
#include "eml_net.h"
#include <string.h>
int main(void) {
    return !(strcmp(eml_net_activation_function_strs[EmlNetActivationTanh], "tanh") == 0 && strcmp(eml_net_activation_function_strs[EmlNetActivationSoftmax], "softmax") == 0);
}
'''), 'the name of an activation taken from the table of names', 'the table of names is in another order than the enumeration')
