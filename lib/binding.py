"""The compiled Python extensions: compiled against stand-ins for pybind11 and std::vector that record sizes, one entry per exported function."""
import glob, os, re
import cc, cir, clib, memsafe
from contracts import Types, Contract
from bounds import Facts
from lin import lift, atom, L
from report import Lost

STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pystub')
MAXDIM = 2 ** 27
PRE = '''
#include <string>
#include <stdexcept>
#include <exception>
#include <algorithm>
#include <numeric>
#include <functional>
#include <utility>
#include <memory>
#include <limits>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <iostream>
#include <sstream>
#include <vector>
#include <array>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <pybind11/numpy.h>
template <class E> struct emlv_exception_type { static_assert(std::is_base_of<std::exception, E>::value, "emlv_exception_type"); };
struct emlv_thrower { emlv_thrower() { emlv_throw(); } template <class E> void operator,(const E &) { emlv_exception_type<E> t; (void)t; } };
'''
# what the two functions with index arithmetic outside the linear domain need from their caller
MODELS = '''
#define EML_DEBUG 1
#define eml_fft_forward emlv_real_fft_forward
#define eml_sparse_filterbank emlv_real_sparse_filterbank
#include <eml_fft.h>
#undef eml_fft_forward
static EmlError eml_fft_forward(EmlFFT table, float real[], float imag[], size_t n)
{
    emlv_write(real, n * sizeof(float));
    emlv_write(imag, n * sizeof(float));
    emlv_read(table.sin, (int64_t)table.length * sizeof(float));
    emlv_read(table.cos, (int64_t)table.length * sizeof(float));
    return (EmlError)emlv_unknown();
}
#include <eml_audio.h>
#undef eml_sparse_filterbank
extern "C" void emlv_bands(const float *input, const int *starts, const int *stops, const float *coefficients, int n);
typedef decltype(emlv_real_sparse_filterbank((const float *)0, (float *)0, 0, (const int *)0, (const int *)0, (const float *)0)) emlv_bank_status;
static emlv_bank_status eml_sparse_filterbank(const float *input, float *output, int output_length, const int *starts, const int *stops, const float *coefficients)
{
    emlv_write(output, output_length * (int64_t)sizeof(float));
    emlv_read(starts, output_length * (int64_t)sizeof(int));
    emlv_read(stops, output_length * (int64_t)sizeof(int));
    emlv_bands(input, starts, stops, coefficients, output_length);
    return (emlv_bank_status)emlv_unknown();
}
'''


def sources():
    return sorted(glob.glob(os.path.join(cc.REPO, 'bindings', '*.cpp')))


def text(src, harness='', models=True):
    # in the plain variant the library has C names, so that its functions are recognised
    own = '#define EML_DEBUG 1\nextern "C" {\n' + ''.join('#include <%s>\n' % h for h in cc.headers() if h not in ('eml_test.h', 'eml_benchmark.h')) + '}\n'
    return (PRE + (MODELS if models else own) + '#define throw emlv_thrower(),\n#include "%s"\n' % src + harness)


def compiled(src, harness='', passes=None, inline=False, models=True):
    ir = cc.compile_ir(text(src, harness, models), lang='cpp', std='gnu++14', passes=passes, inline=inline,
                       extra=['-fno-exceptions', '-isystem', STUB, '-I', os.path.join(cc.REPO, 'bindings'), '-fno-rtti', '-fno-threadsafe-statics'])
    return cir.Module(ir)


def tname(m, ref):
    """(name of the type, through references, typedefs and const)"""
    k = 0
    while ref in m.meta and k < 30:
        t = m.meta[ref]
        if 'DW_TAG_class_type' in t or 'DW_TAG_structure_type' in t or 'DIBasicType' in t:
            return m._mfield(t, 'name')
        if 'DW_TAG_pointer_type' in t:
            return None
        ref = m._mfield(t, 'baseType')
        k += 1
    return None


def exported(src):
    """[(function name, [parameter type names])] the functions a module makes callable from Python"""
    with open(src) as f:
        names = re.findall(r'\.\s*def\s*\(\s*"[^"]*"\s*,\s*&?\s*(?:\w+::)*(\w+)', f.read())
    m = compiled(src)
    t = Types(m)
    out = []
    for f in m.functions.values():
        fil, line = m.fn_decl(f)
        s = m.meta.get(f.dbg or '', '')
        n = m._mfield(s, 'name') if s else None
        if n in names and os.path.basename(fil or '') in (os.path.basename(src), 'emlpy_common.hpp'):
            out.append((n, [tname(m, r) for r in t.params(f)]))
    if {n for n, _ in out} != set(names) or not names:
        raise Lost('exported functions %r of %s, bodies of %r' % (names, src, [n for n, _ in out]))
    return out


def harness(fns):
    out, entry = [], {}
    for n, types in fns:
        ps, args, cols = [], [], []
        for k, t in enumerate(types):
            m = re.match(r'array_t<(.*), (\d+)>$', t or '')
            if m:
                # without c_style (or f_style) the elements need not lie next to each other
                cols.append((len(ps), (m.group(1), bool(int(m.group(2)) & 3))))
                ps += ['%s *p%d' % (m.group(1), k), 'int64_t n%d' % k, 'int64_t a%d' % k, 'int64_t b%d' % k]
                args.append('pybind11::%s(pybind11::emlv_view{p%d, n%d, a%d, b%d})' % (t, k, k, k, k))
            elif t in ('int', 'float', 'double', 'long', 'bool', 'unsigned int', 'unsigned long', 'short', 'char'):
                ps.append('%s x%d' % (t, k))
                args.append('x%d' % k)
            else:
                raise Lost('parameter type %s of %s' % (t, n))
        out.append('extern "C" void emlv_entry_%s(%s) { emlv_keep(%s(%s)); }' % (n, ', '.join(ps), n, ', '.join(args)))
        entry['emlv_entry_' + n] = cols
    return 'extern "C" void emlv_kept(void *);\ntemplate <class T> static void emlv_keep(T v) { emlv_kept((void *)v.data()); }\n' + '\n'.join(out) + '\n', entry


class Con(Contract):
    """array arguments: pointer, number of dimensions, first and second dimension"""

    def __init__(self, types, f, cols):
        Contract.__init__(self, types, f)
        self.cols = dict(cols)

    def _f(self, eng, i):
        return self.safe(eng, i)

    def facts(self, eng):
        out = []
        for c in self.cols:
            for k in (1, 2, 3):
                x = self._f(eng, c + k)
                out += [x, lift(MAXDIM if k > 1 else 32) - x]
        return out

    def size(self, eng, root):
        if root[0] == 'param' and root[1] in self.byname:
            i = self.byname[root[1]][0]
            if i in self.cols:
                es = {'float': 4, 'int': 4, 'double': 8, 'short': 2, 'char': 1, 'long': 8}.get(self.cols[i][0], 1)
                if not self.cols[i][1]:
                    return [(Facts(), lift(es))]
                n, a, b = (self._f(eng, i + k) for k in (1, 2, 3))
                return [(Facts([n - 1, lift(1) - n]), a * es), (Facts([n - 2, lift(2) - n]), a * b * es), (Facts([n - 3]), lift(0)), (Facts([-n]), lift(es))]
        if root[0] == 'value':
            d = eng.f.defs.get(root[1])
            if d is not None and d.op == 'call' and (d.callee or '').lstrip('@') == 'emlv_new':
                return [(Facts(), eng.lin(d.ops[0]))]
        return Contract.size(self, eng, root)


def relations(name, types, arg):
    """what the arguments have to satisfy when the function returns: [(text, [forms >= 0])]; arg(parameter, part) with part 0..3 of an array"""
    eq = lambda x, y: [x - y, y - x]
    one = lambda k: ('argument %d has one dimension' % (k + 1), eq(arg(k, 1), lift(1)))
    R = {
        'rfft_py': lambda: [one(0)],
        'melfilter_py': lambda: [one(0), ('the input has 1 + n_fft/2 values', [arg(2, 0) - (arg(0, 2) - 1) * 2 + 1, (arg(0, 2) - 1) * 2 + 1 - arg(2, 0)])],
        'melspectrogram_py': lambda: [one(0), ('the input has n_fft values', eq(arg(0, 2), arg(2, 0)))],
        'sparse_filterbank_py': lambda: [one(0), one(1), one(2), one(3), ('as many starts as stops', eq(arg(1, 2), arg(2, 2)))],
        'iirfilter_py': lambda: [('the coefficients have two dimensions', eq(arg(0, 1), lift(2))), ('six coefficients per section', eq(arg(0, 3), lift(6))), one(1)],
    }
    return R[name]() if name in R else None
