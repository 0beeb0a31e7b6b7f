"""C06: every access of signal processing, containers, quantizer and CSV code is inside its object"""
import memrun, report
from chk_c05 import ASSUME


def run():
    R = report.Report('C06', 'every load, store and memory block operation of the fully inlined signal processing, container, quantizer and CSV functions: offset >= 0 and '
                      'offset + size <= size of the object, by Fourier-Motzkin from dominating branch conditions, inductive loop inequalities and contracts',
                      ASSUME[:3] + ['the butterfly and permutation indices of eml_fft_forward (powers of two) are trusted; its length conditions belong to C09',
                                    'the filter of eml_iir_filter satisfies eml_iir_check',
                                    'the coefficients of eml_sparse_filterbank have one entry per covered index (S01)'], 'other')
    memrun.run(R, 'signal', 24)
    R.floor('read', 80)
    R.floor('write', 35)
    return R.finish()
