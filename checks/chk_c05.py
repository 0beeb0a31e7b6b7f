"""C05: every access of the inference functions is inside its object, from linear facts of the inlined code"""
import memrun, report

ASSUME = ['callers keep the documented contract: every pointer argument has as many elements as the length argument next to it says, and the model is well formed '
          '(array lengths follow from its count fields, a child of a tree node is a later node or a leaf, features of nodes are features of the model)',
          'lengths of type size_t are at most 2^31-1', 'buffers given by the caller do not overlap the model',
          'the sort macro stays inside the range of indices it is given (only that range is checked)']


def run():
    R = report.Report('C05', 'every load, store and memory block operation of the fully inlined inference functions: offset >= 0 and offset + size <= size of the object, '
                      'by Fourier-Motzkin from dominating branch conditions, inductive loop inequalities, field and element contracts; an access that is not shown '
                      'to be inside is the violation', ASSUME, 'other')
    memrun.run(R, 'infer', 18)
    R.floor('read', 300)
    R.floor('write', 80)
    return R.finish()
