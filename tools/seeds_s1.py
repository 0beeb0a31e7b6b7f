from mkseed import *
S, A = 'emlearn/signal.py', 'emlearn/eml_audio.h'
seed('s01-stale-empty', 'S01', [(A, '''    for (int i=0; i<output_length; i++) {
        output[i] = 0.0f;
    }

    int offset''', '''    int offset'''), (A, '''        for (int j = start; j <= stop; j++) {
            const float f = lut[offset];
            //EML_PRECONDITION(f > 0, EmlUninitialized);
            output[i] += input[j] * f;''', '''        for (int j = start; j <= stop; j++) {
            const float f = lut[offset];
            //EML_PRECONDITION(f > 0, EmlUninitialized);
            output[i] = (j == start) ? (input[j] * f) : (output[i] + input[j] * f);''')],
     c_demo(r'''
#include <eml_audio.h>
int main() {
    const int starts[] = { 0, 0, 1 }, stops[] = { 1, -1, 2 };
    const float lut[] = { 1.0f, 2.0f, 3.0f, 4.0f }, in[] = { 1.0f, 10.0f, 100.0f };
    float out[3] = { 7.0f, 8.0f, 9.0f };
    if (eml_sparse_filterbank(in, out, 3, starts, stops, lut) != EmlOk) return 1;
    return !(out[0] == 21.0f && out[1] == 0.0f && out[2] == 430.0f);
}
'''), 'an empty band and an output buffer that is used again', 'the empty band keeps the value of an earlier frame')
seed('s01-zero-inside', 'S01', [(A, '            output[i] += input[j] * f;\n            offset++;', '            output[i] += input[j] * f;\n            offset += (f != 0.0f) || (j == start);')],
     c_demo(r'''
#include <eml_audio.h>
int main() {
    const int starts[] = { 0, 1 }, stops[] = { 2, 2 };
    const float lut[] = { 1.0f, 0.0f, 3.0f, 4.0f, 5.0f }, in[] = { 1.0f, 10.0f, 100.0f };
    float out[2];
    if (eml_sparse_filterbank(in, out, 2, starts, stops, lut) != EmlOk) return 1;
    return !(out[0] == 301.0f && out[1] == 540.0f);
}
'''), 'a coefficient that is zero inside a band', 'later coefficients are applied at the wrong place')
seed('s01-negative-edge', 'S01', [(S, '        nonzero = numpy.nonzero(mel)[0]', '        nonzero = numpy.nonzero(numpy.asarray(mel) > 0.0)[0]')],
     py_demo('''
import numpy, sys
from emlearn import signal
m = numpy.array([[0, -1, 2, -3, 0], [0, 0, 1, 1, -2.0]])
x = numpy.arange(1.0, 6)
sys.exit(0 if numpy.allclose(signal.sparse_filterbank_reduce(signal.sparse_filterbank(m), x), m @ x) else 1)
'''), 'a filter with negative coefficients at its edge', 'the band is cut')
seed('s01-last-bin', 'S01', [(S, '        for j in range(starts[i], ends[i]+1):', '        for j in range(starts[i], min(ends[i]+1, len(input)-1)):')],
     py_demo('''
import numpy, sys
from emlearn import signal
m = numpy.array([[1, 1, 0, 0.0], [0, 0, 1, 2], [0, 3, 1, 0]])
x = numpy.arange(1.0, 5)
sys.exit(0 if numpy.allclose(signal.sparse_filterbank_reduce(signal.sparse_filterbank(m), x), m @ x) else 1)
'''), 'a band that covers the last bin of the spectrum', 'the last bin is left out and later bands use the wrong coefficients')
seed('s01-ends-clamped', 'S01', [(S, "dtype='int', values=ends)", "dtype='int', values=[max(0, int(e)) for e in ends])")],
     py_demo('''
import numpy, re, sys
from emlearn import signal
m = numpy.array([[1, 1, 0, 0.0], [0, 0, 0, 0], [0, 3, 1, 0]])
sp = signal.sparse_filterbank(m)
c = signal.sparse_filterbank_serialize(sp, 'f')
g = lambda n: [int(x) for x in re.search(r'f_%s\\\\s*\\\\[[^]]*\\\\]\\\\s*=\\\\s*\\\\{([^}]*)\\\\}' % n, c).group(1).split(',') if x.strip()]
s, e = g('starts'), g('ends')
n = len(re.search(r'f_lut\\\\s*\\\\[[^]]*\\\\]\\\\s*=\\\\s*\\\\{([^}]*)\\\\}', c).group(1).strip(' ,\\\\n').split(','))
sys.exit(0 if n == sum(max(0, b - a + 1) for a, b in zip(s, e)) else 1)
'''.replace(chr(92) * 2, chr(92))), 'a filterbank with an empty band', 'the written C tables no longer agree with each other')
