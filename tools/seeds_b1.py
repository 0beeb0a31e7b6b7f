from mkseed import *
A = 'bindings/eml_audio.cpp'
seed('b01-two-dimensions', 'B01', [(A, '    if (in.ndim() != 1) {\n        throw std::runtime_error("melfilter()', '    if (in.ndim() < 1) {\n        throw std::runtime_error("melfilter()')],
     py_demo('''
import numpy, eml_audio, sys
try:
    eml_audio.melfilter(numpy.ones((33, 3), dtype=numpy.float32), 8000, 64, 4, 100.0, 3000.0)
except RuntimeError:
    sys.exit(0)
sys.exit(1)
'''), 'a two-dimensional array whose first dimension has the expected length', 'a matrix is silently read as its first row pieces')
seed('b01-strided', 'B01', [('bindings/eml_signal.cpp', '          py::array_t<float, py::array::c_style | py::array::forcecast> data)', '          py::array_t<float, py::array::forcecast> data)')],
     py_demo('''
import numpy, eml_signal, sys
x = numpy.arange(64, dtype=numpy.float32)
sos = numpy.array([[1, 0, 0, 1, 0, 0]], dtype=numpy.float32)
v = x[::4]
out = numpy.array(eml_signal.iirfilter(sos, v))
sys.exit(0 if out.shape == v.shape and (out == v).all() else 1)
'''), 'an array that is a strided view of another', 'elements between those of the view, or beyond the array, are filtered')
seed('b01-starts-stops', 'B01', [(A, 'starts.shape(0) == stops.shape(0)', 'starts.shape(0) <= stops.shape(0)')],
     py_demo('''
import numpy, eml_audio, sys
f = lambda *a: numpy.array(a, dtype=numpy.float32)
i = lambda *a: numpy.array(a, dtype=numpy.int32)
try:
    eml_audio.sparse_filterbank(f(1, 2, 3, 4), i(0), i(1, 3), f(1, 1, 1, 1))
except RuntimeError:
    sys.exit(0)
sys.exit(1)
'''), 'more stops than starts', 'a malformed filterbank is applied without its last bands')
