// Minimal stand-in for pybind11 (the submodule is empty in this checkout), enough to export the
// repository's collision-integral modules unchanged.  With -DSYMX_SYMBOLIC every `double` of the
// repository's source becomes a PyNum (see gsl/gsl_integration.h), a handle to a Python number, so
// that the code computes with whatever numbers the harness passes in.
#pragma once
#include <Python.h>
#include <algorithm>
#include <array>
#include <cassert>
#include <cfloat>
#include <climits>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <ostream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>
#include <thread>
#include <atomic>
#include <valarray>
#include <bitset>
#include <random>
#include <chrono>
#include <optional>
#include <string_view>
#include <stack>
#include <queue>
#include <unordered_set>

struct py_error {};  // a Python exception is set

inline PyObject *chk(PyObject *o) { if (!o) throw py_error(); return o; }

#ifdef SYMX_SYMBOLIC
// ------------------------------------------------------------------ number handle
class PyNum {
    PyObject *o;
public:
    struct steal {};
    PyNum() : o(chk(PyFloat_FromDouble(0.))) {}
    PyNum(PyObject *p, steal) : o(chk(p)) {}
    PyNum(double v) : o(chk(PyFloat_FromDouble(v))) {}
    PyNum(float v) : PyNum((double) v) {}
    PyNum(int v) : PyNum((double) v) {}
    PyNum(long v) : PyNum((double) v) {}
    PyNum(long long v) : PyNum((double) v) {}
    PyNum(unsigned v) : PyNum((double) v) {}
    PyNum(unsigned long v) : PyNum((double) v) {}
    PyNum(unsigned long long v) : PyNum((double) v) {}
    PyNum(bool v) : PyNum(v ? 1. : 0.) {}
    PyNum(const PyNum &x) : o(x.o) { Py_INCREF(o); }
    PyNum(PyNum &&x) noexcept : o(x.o) { x.o = Py_None; Py_INCREF(Py_None); }
    PyNum &operator=(const PyNum &x) { PyObject *n = x.o; Py_INCREF(n); Py_DECREF(o); o = n; return *this; }
    PyNum &operator=(PyNum &&x) noexcept { std::swap(o, x.o); return *this; }
    ~PyNum() { Py_DECREF(o); }
    PyObject *get() const { return o; }
    static PyNum borrow(PyObject *p) { Py_INCREF(p); return PyNum(p, steal()); }

    PyNum &operator+=(const PyNum &x);
    PyNum &operator-=(const PyNum &x);
    PyNum &operator*=(const PyNum &x);
    PyNum &operator/=(const PyNum &x);
    explicit operator bool() const;
    explicit operator int() const;
    explicit operator long() const { return (long) (int) *this; }
    explicit operator size_t() const { return (size_t) (int) *this; }
    explicit operator double() const;
    bool isfloat() const { return PyFloat_Check(o); }
    double raw() const { return PyFloat_AS_DOUBLE(o); }
};

#define SYMX_BIN(OP, FN)                                                                   \
    inline PyNum operator OP(const PyNum &a, const PyNum &b) {                             \
        if (a.isfloat() && b.isfloat()) return PyNum(a.raw() OP b.raw());                  \
        return PyNum(FN(a.get(), b.get()), PyNum::steal());                                \
    }
SYMX_BIN(+, PyNumber_Add)
SYMX_BIN(-, PyNumber_Subtract)
SYMX_BIN(*, PyNumber_Multiply)
SYMX_BIN(/, PyNumber_TrueDivide)
#undef SYMX_BIN
inline PyNum operator-(const PyNum &a) { return PyNum(PyNumber_Negative(a.get()), PyNum::steal()); }
inline PyNum operator+(const PyNum &a) { return a; }
inline PyNum &PyNum::operator+=(const PyNum &x) { return *this = *this + x; }
inline PyNum &PyNum::operator-=(const PyNum &x) { return *this = *this - x; }
inline PyNum &PyNum::operator*=(const PyNum &x) { return *this = *this * x; }
inline PyNum &PyNum::operator/=(const PyNum &x) { return *this = *this / x; }

inline bool symx_cmp(const PyNum &a, const PyNum &b, int op) {
    PyObject *r = chk(PyObject_RichCompare(a.get(), b.get(), op));
    int v = PyObject_IsTrue(r);
    Py_DECREF(r);
    if (v < 0) throw py_error();
    return v;
}
inline bool operator<(const PyNum &a, const PyNum &b) { return symx_cmp(a, b, Py_LT); }
inline bool operator<=(const PyNum &a, const PyNum &b) { return symx_cmp(a, b, Py_LE); }
inline bool operator>(const PyNum &a, const PyNum &b) { return symx_cmp(a, b, Py_GT); }
inline bool operator>=(const PyNum &a, const PyNum &b) { return symx_cmp(a, b, Py_GE); }
inline bool operator==(const PyNum &a, const PyNum &b) { return symx_cmp(a, b, Py_EQ); }
inline bool operator!=(const PyNum &a, const PyNum &b) { return symx_cmp(a, b, Py_NE); }
inline PyNum::operator bool() const { return *this != PyNum(0.); }
inline PyNum::operator int() const {
    PyObject *r = chk(PyNumber_Long(o)); long v = PyLong_AsLong(r); Py_DECREF(r); return (int) v; }
inline PyNum::operator double() const {
    double v = PyFloat_AsDouble(o); if (v == -1. && PyErr_Occurred()) throw py_error(); return v; }

inline PyObject *&symx_math() { static PyObject *m = nullptr; return m; }
inline PyNum symx_call(const char *name, const PyNum &a) {
    PyObject *m = symx_math();
    if (!m) { PyErr_SetString(PyExc_RuntimeError, "symx math module not set"); throw py_error(); }
    return PyNum(PyObject_CallMethod(m, name, "O", a.get()), PyNum::steal());
}
inline PyNum symx_call2(const char *name, const PyNum &a, const PyNum &b) {
    PyObject *m = symx_math();
    return PyNum(PyObject_CallMethod(m, name, "OO", a.get(), b.get()), PyNum::steal());
}

#define SYMX_F1(N) inline PyNum N(const PyNum &a) { \
    if (a.isfloat()) return PyNum(std::N(a.raw())); return symx_call(#N, a); }
SYMX_F1(sqrt) SYMX_F1(exp) SYMX_F1(log) SYMX_F1(sin) SYMX_F1(cos) SYMX_F1(cbrt) SYMX_F1(log1p) SYMX_F1(expm1)
#undef SYMX_F1
inline PyNum fabs(const PyNum &a) { if (a.isfloat()) return PyNum(std::fabs(a.raw())); return PyNum(PyNumber_Absolute(a.get()), PyNum::steal()); }
inline PyNum abs(const PyNum &a) { return fabs(a); }
inline PyNum pow(const PyNum &a, const PyNum &b) {
    if (a.isfloat() && b.isfloat()) return PyNum(std::pow(a.raw(), b.raw()));
    return symx_call2("pow", a, b); }
inline PyNum pow(const PyNum &a, int b) { return pow(a, PyNum(b)); }
inline PyNum pow(const PyNum &a, double b) { return pow(a, PyNum(b)); }
inline PyNum pow(double a, const PyNum &b) { return pow(PyNum(a), b); }
inline PyNum pow(int a, const PyNum &b) { return pow(PyNum(a), b); }
inline PyNum hypot(const PyNum &a, const PyNum &b) { return sqrt(a * a + b * b); }
inline PyNum fma(const PyNum &a, const PyNum &b, const PyNum &c) { return a * b + c; }
inline PyNum fmax(const PyNum &a, const PyNum &b) { return a < b ? b : a; }
inline PyNum fmin(const PyNum &a, const PyNum &b) { return b < a ? b : a; }
inline bool isnan(const PyNum &a) { return a.isfloat() && std::isnan(a.raw()); }
inline bool isinf(const PyNum &a) { return a.isfloat() && std::isinf(a.raw()); }
inline bool isfinite(const PyNum &a) { return !a.isfloat() || std::isfinite(a.raw()); }
inline bool signbit(const PyNum &a) { return a < PyNum(0.); }
inline PyNum copysign(const PyNum &a, const PyNum &b) { PyNum m = fabs(a); return b < PyNum(0.) ? -m : m; }
inline std::ostream &operator<<(std::ostream &os, const PyNum &) { return os << "<num>"; }

namespace std {
    using ::sqrt; using ::exp; using ::log; using ::sin; using ::cos; using ::cbrt; using ::fabs; using ::abs;
    using ::pow; using ::hypot; using ::isnan; using ::isinf; using ::isfinite; using ::fmax; using ::fmin;
    using ::fma; using ::signbit; using ::copysign; using ::log1p; using ::expm1;
    inline PyNum max(const PyNum &a, const PyNum &b) { return a < b ? b : a; }
    inline PyNum min(const PyNum &a, const PyNum &b) { return b < a ? b : a; }
    inline PyNum clamp(const PyNum &v, const PyNum &a, const PyNum &b) { return v < a ? a : (b < v ? b : v); }
    template <> struct numeric_limits<PyNum> {
        static constexpr bool is_specialized = true;
        static PyNum infinity() { return PyNum(numeric_limits<double>::infinity()); }
        static PyNum quiet_NaN() { return PyNum(numeric_limits<double>::quiet_NaN()); }
        static PyNum epsilon() { return PyNum(numeric_limits<double>::epsilon()); }
        static PyNum max() { return PyNum(numeric_limits<double>::max()); }
        static PyNum min() { return PyNum(numeric_limits<double>::min()); }
        static PyNum lowest() { return PyNum(numeric_limits<double>::lowest()); }
    };
}
typedef PyNum symx_real;
#else
typedef double symx_real;
#endif

// hook called by gsl_integration_qag: hook(f, a, b, epsabs, epsrel) -> (status, result, error)
inline PyObject *&symx_qag_hook() { static PyObject *h = nullptr; return h; }

template <class... A> inline int symx_printf(const char *, const A &...) { return 0; }

namespace pybind11 {

// ------------------------------------------------------------------ conversions
template <class T, class E = void> struct caster;

struct object {
    PyObject *o;
    object() : o(nullptr) {}
    object(PyObject *p) : o(p) {}
    object(const object &x) : o(x.o) { Py_XINCREF(o); }
    object &operator=(const object &x) { Py_XINCREF(x.o); Py_XDECREF(o); o = x.o; return *this; }
    ~object() { Py_XDECREF(o); }
    PyObject *ptr() const { return o; }
};
typedef object handle;

template <class T> struct class_info {
    static PyTypeObject *type;
    struct instance { PyObject_HEAD T *value; };
};
template <class T> PyTypeObject *class_info<T>::type = nullptr;

// registered classes
template <class T, class E> struct caster {
    static T &from(PyObject *o) {
        if (!class_info<T>::type || !PyObject_TypeCheck(o, class_info<T>::type)) {
            PyErr_SetString(PyExc_TypeError, "incompatible function arguments"); throw py_error(); }
        return *((typename class_info<T>::instance *) o)->value;
    }
    static PyObject *to(const T &v) {
        PyTypeObject *t = class_info<T>::type;
        PyObject *o = chk(t->tp_alloc(t, 0));
        ((typename class_info<T>::instance *) o)->value = new T(v);
        return o;
    }
};

template <> struct caster<symx_real> {
    static symx_real from(PyObject *o) {
#ifdef SYMX_SYMBOLIC
        if (PyFloat_CheckExact(o)) return PyNum::borrow(o);
        if (PyFloat_Check(o) || PyLong_Check(o)) {
            double v = PyFloat_AsDouble(o); if (v == -1. && PyErr_Occurred()) throw py_error(); return PyNum(v); }
        if (PyObject_HasAttrString(o, "p") && !PyObject_HasAttrString(o, "dtype")) return PyNum::borrow(o);
        double v = PyFloat_AsDouble(o);
        if (v == -1. && PyErr_Occurred()) {
            PyErr_Clear();
            PyObject *it = chk(PyObject_CallMethod(o, "item", nullptr));
            PyNum r = caster<PyNum>::from(it); Py_DECREF(it); return r;
        }
        return PyNum(v);
#else
        double v = PyFloat_AsDouble(o);
        if (v == -1. && PyErr_Occurred()) throw py_error();
        return v;
#endif
    }
    static PyObject *to(const symx_real &v) {
#ifdef SYMX_SYMBOLIC
        Py_INCREF(v.get()); return v.get();
#else
        return PyFloat_FromDouble(v);
#endif
    }
};
#ifdef SYMX_SYMBOLIC
template <> struct caster<double> {
    static double from(PyObject *o) { double v = PyFloat_AsDouble(o); if (v == -1. && PyErr_Occurred()) throw py_error(); return v; }
    static PyObject *to(double v) { return PyFloat_FromDouble(v); }
};
#endif
template <> struct caster<bool> {
    static bool from(PyObject *o) { int v = PyObject_IsTrue(o); if (v < 0) throw py_error(); return v; }
    static PyObject *to(bool v) { return PyBool_FromLong(v); }
};
template <class T> struct caster<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
    static T from(PyObject *o) {
        // pybind11 refuses floats for integer arguments
        if (PyFloat_Check(o)) { PyErr_SetString(PyExc_TypeError, "incompatible function arguments: float given where an integer is needed"); throw py_error(); }
        PyObject *i = PyNumber_Index(o);
        if (!i) { PyErr_Clear(); i = chk(PyNumber_Long(o)); }
        long v = PyLong_AsLong(i); Py_DECREF(i);
        if (v == -1 && PyErr_Occurred()) throw py_error();
        return (T) v;
    }
    static PyObject *to(T v) { return PyLong_FromLong((long) v); }
};
template <class T> struct caster<T, typename std::enable_if<std::is_enum<T>::value>::type> {
    static T from(PyObject *o) { return (T) caster<int>::from(o); }
    static PyObject *to(T v) { return PyLong_FromLong((long) v); }
};
template <> struct caster<std::string> {
    static std::string from(PyObject *o) { const char *s = PyUnicode_AsUTF8(o); if (!s) throw py_error(); return s; }
    static PyObject *to(const std::string &v) { return PyUnicode_FromString(v.c_str()); }
};
template <> struct caster<object> {
    static object from(PyObject *o) { Py_INCREF(o); return object(o); }
    static PyObject *to(const object &v) { Py_XINCREF(v.o); return v.o; }
};
inline std::vector<PyObject *> items_of(PyObject *o) {
    std::vector<PyObject *> out;
    PyObject *it = chk(PyObject_GetIter(o));
    while (PyObject *x = PyIter_Next(it)) out.push_back(x);
    Py_DECREF(it);
    if (PyErr_Occurred()) { for (auto x : out) Py_DECREF(x); throw py_error(); }
    return out;
}

template <class T, class A> struct caster<std::vector<T, A>> {
    static std::vector<T, A> from(PyObject *o) {
        std::vector<T, A> r; auto xs = items_of(o);
        try { for (auto x : xs) r.push_back(caster<T>::from(x)); } catch (...) { for (auto x : xs) Py_DECREF(x); throw; }
        for (auto x : xs) Py_DECREF(x);
        return r;
    }
    static PyObject *to(const std::vector<T, A> &v) {
        PyObject *l = chk(PyList_New(v.size()));
        for (size_t i = 0; i < v.size(); ++i) PyList_SET_ITEM(l, i, chk(caster<T>::to(v[i])));
        return l;
    }
};
template <class T, size_t N> struct caster<std::array<T, N>> {
    static std::array<T, N> from(PyObject *o) {
        std::array<T, N> r; auto xs = items_of(o);
        if (xs.size() != N) { PyErr_SetString(PyExc_TypeError, "incompatible function arguments: wrong array length"); throw py_error(); }
        for (size_t i = 0; i < N; ++i) r[i] = caster<T>::from(xs[i]);
        for (auto x : xs) Py_DECREF(x);
        return r;
    }
    static PyObject *to(const std::array<T, N> &v) {
        PyObject *l = chk(PyList_New(N));
        for (size_t i = 0; i < N; ++i) PyList_SET_ITEM(l, i, chk(caster<T>::to(v[i])));
        return l;
    }
};
template <class A, class B> struct caster<std::pair<A, B>> {
    static std::pair<A, B> from(PyObject *o) {
        auto xs = items_of(o);
        if (xs.size() != 2) { PyErr_SetString(PyExc_TypeError, "pair expected"); throw py_error(); }
        std::pair<A, B> r(caster<A>::from(xs[0]), caster<B>::from(xs[1]));
        for (auto x : xs) Py_DECREF(x);
        return r;
    }
    static PyObject *to(const std::pair<A, B> &v) {
        PyObject *t = chk(PyTuple_New(2));
        PyTuple_SET_ITEM(t, 0, chk(caster<A>::to(v.first)));
        PyTuple_SET_ITEM(t, 1, chk(caster<B>::to(v.second)));
        return t;
    }
};

template <class... T> struct caster<std::tuple<T...>> {
    template <size_t... I> static PyObject *mk(const std::tuple<T...> &v, std::index_sequence<I...>) {
        PyObject *t = chk(PyTuple_New(sizeof...(T)));
        int dummy[] = {0, (PyTuple_SET_ITEM(t, I, chk(caster<typename std::decay<T>::type>::to(std::get<I>(v)))), 0)...};
        (void) dummy;
        return t;
    }
    static PyObject *to(const std::tuple<T...> &v) { return mk(v, std::index_sequence_for<T...>()); }
    static std::tuple<T...> from(PyObject *) { PyErr_SetString(PyExc_TypeError, "tuple"); throw py_error(); }
};

// numpy arrays of doubles, kept as nested Python data
template <class T> struct array_t {
    PyObject *o;
    array_t() : o(nullptr) {}
    explicit array_t(PyObject *p) : o(p) { Py_XINCREF(o); }
    array_t(const array_t &x) : o(x.o) { Py_XINCREF(o); }
    array_t &operator=(const array_t &x) { Py_XINCREF(x.o); Py_XDECREF(o); o = x.o; return *this; }
    ~array_t() { Py_XDECREF(o); }
    std::vector<T> values() const { return caster<std::vector<T>>::from(o); }
    size_t size() const { return values().size(); }
    T at(size_t i) const { return values()[i]; }
};
template <class T> struct caster<array_t<T>> {
    static array_t<T> from(PyObject *o) { return array_t<T>(o); }
    static PyObject *to(const array_t<T> &v) { Py_XINCREF(v.o); return v.o; }
};

template <class F> struct vectorized {
    F f;
    // elementwise over an array or a scalar; result has the shape of the argument
    object operator()(const array_t<symx_real> &ps) const {
        PyObject *np = chk(PyImport_ImportModule("numpy"));
        bool seq = PySequence_Check(ps.o) || PyObject_HasAttrString(ps.o, "__iter__");
        if (seq && PyObject_HasAttrString(ps.o, "shape")) {
            PyObject *sh = PyObject_GetAttrString(ps.o, "shape");
            seq = PyTuple_Check(sh) && PyTuple_GET_SIZE(sh) > 0;
            Py_DECREF(sh);
        }
        if (!seq) {
            Py_DECREF(np);
            return object(chk(caster<symx_real>::to(f(caster<symx_real>::from(ps.o)))));
        }
        auto xs = caster<std::vector<symx_real>>::from(ps.o);
        PyObject *l = chk(PyList_New(xs.size()));
        for (size_t i = 0; i < xs.size(); ++i) PyList_SET_ITEM(l, i, chk(caster<symx_real>::to(f(xs[i]))));
        PyObject *r = PyObject_CallMethod(np, "array", "O", l);
        Py_DECREF(l); Py_DECREF(np);
        return object(chk(r));
    }
};
template <class F> vectorized<F> vectorize(F f) { return vectorized<F>{f}; }

// ------------------------------------------------------------------ arguments
struct arg_v;
struct arg {
    std::string name;
    explicit arg(const char *n) : name(n) {}
    template <class T> arg_v operator=(const T &v) const;
    arg &noconvert(bool = true) { return *this; }
};
struct arg_v { std::string name; PyObject *def; };
template <class T> arg_v arg::operator=(const T &v) const { return arg_v{name, caster<typename std::decay<T>::type>::to(v)}; }
template <> inline arg_v arg::operator=(const double &v) const { return arg_v{name, PyFloat_FromDouble(v)}; }
namespace literals { inline arg operator"" _a(const char *n, size_t) { return arg(n); } }

struct param { std::string name; PyObject *def; };
struct params { std::vector<param> v; std::string doc; };
inline void addp(params &p, const arg &a) { p.v.push_back({a.name, nullptr}); }
inline void addp(params &p, const arg_v &a) { p.v.push_back({a.name, a.def}); }
inline void addp(params &p, const char *d) { p.doc = d; }
template <class T> inline void addp(params &, const T &) {}
inline void addall(params &) {}
template <class A, class... R> void addall(params &p, const A &a, const R &...r) { addp(p, a); addall(p, r...); }

typedef std::function<PyObject *(std::vector<PyObject *> &)> rawfn;
struct record { std::string name; rawfn call; params ps; size_t arity; };

inline PyObject *dispatch(record *r, PyObject *args, PyObject *kw, size_t skip = 0) {
    std::vector<PyObject *> a(r->arity, nullptr);
    size_t n = PyTuple_GET_SIZE(args) - skip;
    if (n > r->arity) { PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", r->name.c_str()); return nullptr; }
    for (size_t i = 0; i < n; ++i) a[i] = PyTuple_GET_ITEM(args, i + skip);
    size_t usedkw = 0;
    for (size_t i = 0; i < r->arity; ++i) {
        if (i < r->ps.v.size() && kw) {
            PyObject *x = PyDict_GetItemString(kw, r->ps.v[i].name.c_str());
            if (x) { if (a[i]) { PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", r->name.c_str()); return nullptr; } a[i] = x; usedkw++; }
        }
        if (!a[i] && i < r->ps.v.size()) a[i] = r->ps.v[i].def;
        if (!a[i]) { PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", r->name.c_str()); return nullptr; }
    }
    if (kw && usedkw != (size_t) PyDict_Size(kw)) { PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", r->name.c_str()); return nullptr; }
    try { return r->call(a); }
    catch (const py_error &) { if (!PyErr_Occurred()) PyErr_SetString(PyExc_RuntimeError, "unknown error"); return nullptr; }
    catch (const std::exception &e) { PyErr_SetString(PyExc_RuntimeError, e.what()); return nullptr; }
}

template <class T> struct call_traits : call_traits<decltype(&T::operator())> {};
template <class R, class... A> struct call_traits<R (*)(A...)> {
    typedef R ret; typedef std::tuple<typename std::decay<A>::type...> args; enum { n = sizeof...(A) }; };
template <class C, class R, class... A> struct call_traits<R (C::*)(A...) const> {
    typedef R ret; typedef std::tuple<typename std::decay<A>::type...> args; enum { n = sizeof...(A) }; };
template <class C, class R, class... A> struct call_traits<R (C::*)(A...)> {
    typedef R ret; typedef std::tuple<typename std::decay<A>::type...> args; enum { n = sizeof...(A) }; };

template <class R> struct invoke {
    template <class F, class Args, size_t... I> static PyObject *go(F &f, std::vector<PyObject *> &a, std::index_sequence<I...>) {
        return caster<typename std::decay<R>::type>::to(f(caster<typename std::tuple_element<I, Args>::type>::from(a[I])...));
    }
};
template <> struct invoke<void> {
    template <class F, class Args, size_t... I> static PyObject *go(F &f, std::vector<PyObject *> &a, std::index_sequence<I...>) {
        f(caster<typename std::tuple_element<I, Args>::type>::from(a[I])...); Py_RETURN_NONE;
    }
};

inline PyObject *trampoline(PyObject *self, PyObject *args, PyObject *kw) {
    return dispatch((record *) PyCapsule_GetPointer(self, nullptr), args, kw);
}

template <class F> record *make_record(const char *name, F f, params ps) {
    typedef call_traits<F> tr;
    auto *r = new record{name, nullptr, ps, (size_t) tr::n};
    r->call = [f](std::vector<PyObject *> &a) mutable {
        return invoke<typename tr::ret>::template go<F, typename tr::args>(f, a, std::make_index_sequence<tr::n>());
    };
    return r;
}

struct module_ {
    PyObject *m;
    PyObject *ptr() const { return m; }
    template <class F, class... X> module_ &def(const char *name, F f, const X &...x) {
        params ps; addall(ps, x...);
        record *r = make_record(name, f, ps);
        auto *md = new PyMethodDef{strdup(name), (PyCFunction) (void *) trampoline, METH_VARARGS | METH_KEYWORDS, strdup(ps.doc.c_str())};
        PyObject *cap = PyCapsule_New(r, nullptr, nullptr);
        PyModule_AddObject(m, name, PyCFunction_New(md, cap));
        return *this;
    }
    template <class T> void set(const char *n, PyObject *o) { PyModule_AddObject(m, n, o); }
    std::string &doc() { static std::string d; return d; }
};
typedef module_ module;

// ------------------------------------------------------------------ classes
template <class... A> struct init_t {};
template <class... A> init_t<A...> init() { return {}; }

template <class T> struct class_ {
    PyTypeObject *t;
    typedef typename class_info<T>::instance inst;
    static std::vector<record *> &inits() { static std::vector<record *> v; return v; }
    static std::map<std::string, std::pair<std::function<PyObject *(T &)>, std::function<void(T &, PyObject *)>>> &props() {
        static std::map<std::string, std::pair<std::function<PyObject *(T &)>, std::function<void(T &, PyObject *)>>> m; return m; }
    static PyObject *tp_new(PyTypeObject *t, PyObject *, PyObject *) {
        PyObject *o = t->tp_alloc(t, 0); if (o) ((inst *) o)->value = nullptr; return o; }
    static int tp_init(PyObject *self, PyObject *args, PyObject *kw) {
        for (record *r : inits()) {
            PyErr_Clear();
            PyObject *cap = dispatch(r, args, kw);
            if (cap) { ((inst *) self)->value = (T *) PyCapsule_GetPointer(cap, nullptr); Py_DECREF(cap); return 0; }
        }
        return -1;
    }
    static void tp_dealloc(PyObject *self) { delete ((inst *) self)->value; PyTypeObject *t = Py_TYPE(self); t->tp_free(self); Py_DECREF(t); }
    static PyObject *tp_getattro(PyObject *self, PyObject *name) {
        auto it = props().find(PyUnicode_AsUTF8(name));
        if (it != props().end()) { try { return it->second.first(*((inst *) self)->value); } catch (const py_error &) { return nullptr; } }
        return PyObject_GenericGetAttr(self, name);
    }
    static int tp_setattro(PyObject *self, PyObject *name, PyObject *v) {
        auto it = props().find(PyUnicode_AsUTF8(name));
        if (it != props().end() && it->second.second) { try { it->second.second(*((inst *) self)->value, v); return 0; } catch (const py_error &) { return -1; } }
        return PyObject_GenericSetAttr(self, name, v);
    }
    class_(module_ &m, const char *name, const char * = "") {
        auto *slots = new PyType_Slot[7]{{Py_tp_new, (void *) tp_new}, {Py_tp_init, (void *) tp_init}, {Py_tp_dealloc, (void *) tp_dealloc},
                                {Py_tp_getattro, (void *) tp_getattro}, {Py_tp_setattro, (void *) tp_setattro}, {0, nullptr}, {0, nullptr}};
        auto *spec = new PyType_Spec{strdup((std::string("integral.") + name).c_str()), (int) sizeof(inst), 0, Py_TPFLAGS_DEFAULT, slots};
        t = (PyTypeObject *) chk(PyType_FromSpec(spec));
        class_info<T>::type = t;
        inits().clear(); props().clear();
        Py_INCREF(t);
        PyModule_AddObject(m.m, name, (PyObject *) t);
    }
    template <class... A, class... X> class_ &def(init_t<A...>, const X &...x) {
        params ps; addall(ps, x...);
        auto *r = new record{"__init__", nullptr, ps, sizeof...(A)};
        r->call = [](std::vector<PyObject *> &a) { return make(a, std::index_sequence_for<A...>(), (std::tuple<A...> *) nullptr); };
        inits().push_back(r);
        return *this;
    }
    template <size_t... I, class Tp> static PyObject *make(std::vector<PyObject *> &a, std::index_sequence<I...>, Tp *) {
        return PyCapsule_New(new T(caster<typename std::decay<typename std::tuple_element<I, Tp>::type>::type>::from(a[I])...), nullptr, nullptr);
    }
    template <class F, class... X> class_ &def(const char *, F, const X &...) { return *this; }
    template <class M> class_ &def_readwrite(const char *n, M T::*p) {
        props()[n] = {[p](T &x) { return caster<M>::to(x.*p); }, [p](T &x, PyObject *v) { x.*p = caster<M>::from(v); }}; return *this; }
    template <class M> class_ &def_readonly(const char *n, M T::*p) {
        props()[n] = {[p](T &x) { return caster<M>::to(x.*p); }, nullptr}; return *this; }
};

template <class E> struct enum_ {
    module_ &m; std::string name; PyObject *dict;
    enum_(module_ &m, const char *n) : m(m), name(n), dict(PyDict_New()) {}
    enum_ &value(const char *n, E v, const char * = "") { PyObject *i = PyLong_FromLong((long) v); PyDict_SetItemString(dict, n, i); Py_DECREF(i); publish(false); return *this; }
    void publish(bool exp) {
        PyObject *en = chk(PyImport_ImportModule("enum"));
        PyObject *t = chk(PyObject_CallMethod(en, "IntEnum", "sO", name.c_str(), dict));
        if (exp) {
            PyObject *k, *v; Py_ssize_t pos = 0;
            while (PyDict_Next(dict, &pos, &k, &v)) PyModule_AddObject(m.m, PyUnicode_AsUTF8(k), PyObject_GetAttr(t, k));
        }
        PyModule_AddObject(m.m, name.c_str(), t);
        Py_DECREF(en);
    }
    enum_ &export_values() { publish(true); return *this; }
};

inline PyObject *set_hook_(PyObject *, PyObject *h) {
    Py_XDECREF(symx_qag_hook()); if (h == Py_None) symx_qag_hook() = nullptr; else { Py_INCREF(h); symx_qag_hook() = h; } Py_RETURN_NONE; }
inline PyObject *set_math_(PyObject *, PyObject *h) {
#ifdef SYMX_SYMBOLIC
    Py_INCREF(h); symx_math() = h;
#endif
    (void) h; Py_RETURN_NONE; }

inline PyObject *start_module(const char *name, void (*f)(module_ &)) {
    static PyMethodDef extra[] = {{"_symx_set_hook", set_hook_, METH_O, ""}, {"_symx_set_math", set_math_, METH_O, ""}, {nullptr, nullptr, 0, nullptr}};
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, name, "", -1, extra, nullptr, nullptr, nullptr, nullptr};
    PyObject *mod = PyModule_Create(&def);
    if (!mod) return nullptr;
    module_ m{mod};
    try { f(m); } catch (const py_error &) { return nullptr; }
    return mod;
}
}  // namespace pybind11

#define PYBIND11_MODULE(name, var)                                                        \
    static void symx_init_##name(pybind11::module_ &);                                    \
    extern "C" PyObject *PyInit_##name() { return pybind11::start_module(#name, symx_init_##name); } \
    static void symx_init_##name(pybind11::module_ &var)
