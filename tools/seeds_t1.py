from mkseed import *
W, M = 'emlearn/tools/window_function.py', 'emlearn/tools/mel_filterbank.py'
LIBROSA = '''
import sys, types, numpy, argparse
calls = []
def mel(**k):
    calls.append(('mel', k))
    out = numpy.zeros((k['n_mels'], 1 + k['n_fft'] // 2)); out[:, 2:5] = 0.5
    return out
def mel_frequencies(**k):
    calls.append(('freq', k))
    return numpy.linspace(k['fmin'], k['fmax'], k['n_mels'])
lib = types.ModuleType('librosa'); lib.filters = types.ModuleType('librosa.filters')
lib.filters.mel, lib.filters.mel_frequencies = mel, mel_frequencies
sys.modules['librosa'] = lib; sys.modules['librosa.filters'] = lib.filters
from emlearn.tools.mel_filterbank import mel_filterbank, parse
'''
seed('t01-symmetric-even', 'T01', [(W, 'fftbins=fft_mode)', 'fftbins=fft_mode or length % 2 == 0)')],
     py_demo('''
import re, scipy.signal, numpy
from emlearn.tools.window_function import window_function
for n in (7, 8):
    for fft in (True, False):
        t = window_function('w', 'hann', n, fft, 70)
        got = [float(x.strip().rstrip('f')) for x in re.search(r'\\{([^}]*)\\}', t).group(1).split(',')]
        assert numpy.allclose(got, scipy.signal.get_window('hann', n, fftbins=fft), atol=1e-6), (n, fft, got)
'''), 'a symmetric window of even length', 'the periodic window is generated')
seed('t01-frequencies-htk', 'T01', [(M, 'fmin=args.fmin, fmax=fmax, htk=args.htk)', 'fmin=args.fmin, fmax=fmax)')],
     py_demo(LIBROSA + '''
mel_filterbank(parse(['--htk', 'True']), 'm')
assert all(k['htk'] is True for n, k in calls), calls
'''), 'the option --htk', 'the frequencies are not those of the filters')
seed('t01-fmax-limit', 'T01', [(M, 'n_fft=args.fft, sr=args.samplerate, fmin=args.fmin, fmax=fmax)', 'n_fft=args.fft, sr=args.samplerate, fmin=args.fmin, fmax=min(fmax, args.fft*16))')],
     py_demo(LIBROSA + '''
t = mel_filterbank(parse(['--fft', '256', '--fmax', '6000']), 'm')
assert 'm_fmax = 6000;' in t, t
'''), 'a short FFT', 'the constant for the highest frequency is not the one the table was made with')
seed('t01-lower-name', 'T01', [(W, "        out = name+'.h'", "        out = '_'.join([window_type, str(length), 'lut.h'])")],
     py_demo('''
import os, sys, subprocess, tempfile
repo = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    subprocess.check_call([sys.executable, '-m', 'emlearn.tools.window_function', '--name', 'mywin', '--length', '8'], cwd=d, env=dict(os.environ, PYTHONPATH=repo))
    assert os.listdir(d) == ['mywin.h'], os.listdir(d)
'''), 'a name but no output file', 'the table is written to another file than documented')
