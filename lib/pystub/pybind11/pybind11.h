#ifndef EMLV_PYBIND
#define EMLV_PYBIND
#include "emlv.h"
#include <sys/types.h>
#include <string>
#include <stdexcept>
namespace pybind11 {
class object {};
class str : public object { public: str(const char *) {} str(const std::string &) {} };
struct arg { const char *n; arg(const char *s) : n(s) {} template <class T> arg &operator=(T) { return *this; } arg &none(bool = true) { return *this; } arg &noconvert(bool = true) { return *this; } };
namespace literals { inline arg operator""_a(const char *s, size_t) { return arg(s); } }
struct doc_ { doc_ &operator=(const char *) { return *this; } };
class module_ : public object {
public:
    const char *&doc() { static const char *d; return d; }
    template <class F, class... X> module_ &def(const char *, F, X...) { return *this; }
    template <class T> module_ &attr(T) { return *this; }
    template <class T> module_ &operator=(T) { return *this; }
};
typedef module_ module;
#define EMLV_EXC(n) class n : public std::runtime_error { public: n() : std::runtime_error("") {} n(const char *s) : std::runtime_error(s) {} n(const std::string &s) : std::runtime_error(s) {} };
EMLV_EXC(value_error) EMLV_EXC(type_error) EMLV_EXC(index_error) EMLV_EXC(key_error) EMLV_EXC(buffer_error) EMLV_EXC(error_already_set) EMLV_EXC(cast_error) EMLV_EXC(stop_iteration)
#undef EMLV_EXC
struct gil_scoped_release {}; struct gil_scoped_acquire {};
}
#define PYBIND11_MODULE(name, m) static void emlv_module_##name(pybind11::module_ &m)
#endif
