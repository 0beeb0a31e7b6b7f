#ifndef EMLV_NUMPY
#define EMLV_NUMPY
#include "pybind11.h"
#include <initializer_list>
#include <vector>
#include <stdexcept>
namespace pybind11 {
typedef ssize_t ssize_t;
struct emlv_view { void *data; int64_t ndim, d0, d1; };
struct buffer_info { void *ptr; int64_t itemsize, size, ndim; struct dims { int64_t d[2]; int64_t operator[](size_t i) const { return d[i]; } } shape, strides; };
class array : public object {
public:
    enum { c_style = 1, f_style = 2, forcecast = 16 };
    void *p_; int64_t n_, a_, b_, w_;
    int64_t ndim() const { return n_; }
    int64_t shape(int64_t i) const { if (i < 0 || i >= n_) emlv_throw(); return i == 0 ? a_ : i == 1 ? b_ : (int64_t)emlv_unknown(); }
    int64_t size() const { return n_ == 0 ? 1 : n_ == 1 ? a_ : n_ == 2 ? a_ * b_ : (int64_t)emlv_unknown(); }
    int64_t itemsize() const { return w_; }
    int64_t nbytes() const { return size() * w_; }
    buffer_info request(bool = false) const { buffer_info b; b.ptr = p_; b.itemsize = w_; b.size = size(); b.ndim = n_; b.shape.d[0] = a_; b.shape.d[1] = b_; return b; }
};
template <class T> struct emlv_raw1 { T *p; int64_t n; T &operator()(int64_t i) const { return p[i]; } T &operator[](int64_t i) const { return p[i]; } int64_t shape(int) const { return n; } int64_t size() const { return n; } };
template <class T, int F = 16> class array_t : public array {
    void make(int64_t n) { if (n < 0) emlv_throw(); n_ = 1; a_ = n; b_ = 0; w_ = sizeof(T); p_ = emlv_new(n * sizeof(T)); }
    void make(int64_t n, int64_t m) { if (n < 0 || m < 0) emlv_throw(); n_ = 2; a_ = n; b_ = m; w_ = sizeof(T); p_ = emlv_new(n * m * sizeof(T)); }
public:
    typedef T value_type;
    array_t() { make(0); }
    array_t(emlv_view v) { p_ = v.data; n_ = v.ndim; a_ = v.d0; b_ = v.d1; w_ = sizeof(T); }
    explicit array_t(int n) { make(n); }
    explicit array_t(long n) { make(n); }
    explicit array_t(long long n) { make(n); }
    explicit array_t(unsigned n) { make(n); }
    explicit array_t(unsigned long n) { make((int64_t)n); }
    array_t(long n, const T *q) { make(n); emlv_read(q, n * sizeof(T)); }
    array_t(std::initializer_list<long> l) { if (l.size() == 1) make(l.begin()[0]); else make(l.begin()[0], l.begin()[1]); }
    array_t(std::vector<long> l) { if (l.size() == 1) make(l[0]); else make(l[0], l[1]); }
    const T *data() const { return (const T *)p_; }
    const T *data(int64_t i) const { if (i < 0 || i >= a_) emlv_throw(); return (const T *)p_ + i; }
    T *mutable_data() { return (T *)p_; }
    T *mutable_data(int64_t i) { if (i < 0 || i >= a_) emlv_throw(); return (T *)p_ + i; }
    const T &at(int64_t i) const { if (n_ != 1 || i < 0 || i >= a_) emlv_throw(); return ((const T *)p_)[i]; }
    T &mutable_at(int64_t i) { if (n_ != 1 || i < 0 || i >= a_) emlv_throw(); return ((T *)p_)[i]; }
    template <int N> emlv_raw1<const T> unchecked() const { if (n_ != N) emlv_throw(); return emlv_raw1<const T>{(const T *)p_, a_}; }
    template <int N> emlv_raw1<T> mutable_unchecked() { if (n_ != N) emlv_throw(); return emlv_raw1<T>{(T *)p_, a_}; }
};
}
#endif
