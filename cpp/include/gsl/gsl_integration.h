#pragma once
#include <pybind11/pybind11.h>
#include "gsl_errno.h"
enum { GSL_INTEG_GAUSS15 = 1, GSL_INTEG_GAUSS21 = 2, GSL_INTEG_GAUSS31 = 3, GSL_INTEG_GAUSS41 = 4, GSL_INTEG_GAUSS51 = 5, GSL_INTEG_GAUSS61 = 6 };
struct gsl_function { symx_real (*function)(symx_real x, void *params); void *params; };
#define GSL_FN_EVAL(F, x) (*((F)->function))(x, (F)->params)
struct gsl_integration_workspace { size_t limit; size_t size; };
inline gsl_integration_workspace *gsl_integration_workspace_alloc(size_t n) { return new gsl_integration_workspace{n, 1}; }
inline void gsl_integration_workspace_free(gsl_integration_workspace *w) { delete w; }

struct symx_integrand { const gsl_function *f; };
inline PyObject *symx_call_integrand(PyObject *self, PyObject *x) {
    auto *F = (const gsl_function *) PyCapsule_GetPointer(self, nullptr);
    try { return pybind11::caster<symx_real>::to(F->function(pybind11::caster<symx_real>::from(x), F->params)); }
    catch (const py_error &) { return nullptr; }
    catch (const std::exception &e) { PyErr_SetString(PyExc_RuntimeError, e.what()); return nullptr; }
}

#ifndef SYMX_SYMBOLIC
// 15 point Gauss-Kronrod, adaptive by bisection of the worst interval
inline void symx_gk15(const gsl_function *f, double a, double b, double *res, double *err) {
    static const double x[8] = {0.991455371120812639206854697526329, 0.949107912342758524526189684047851, 0.864864423359769072789712788640926,
        0.741531185599394439863864773280788, 0.586087235467691130294144691693337, 0.405845151377397166906606412076961, 0.207784955007898467600689403773245, 0.};
    static const double wk[8] = {0.022935322010529224963732008058970, 0.063092092629978553290700663189204, 0.104790010322250183839876322541518,
        0.140653259715525918745189590510238, 0.169004726639267902826583426598550, 0.190350578064785409913256402421014, 0.204432940075298892414161999234649, 0.209482141084727828012999174891714};
    static const double wg[4] = {0.129484966168869693270611432679082, 0.279705391489276667901467771423780, 0.381830050505118944950369775488975, 0.417959183673469387755102040816327};
    double c = .5 * (a + b), h = .5 * (b - a), k = 0, g = 0;
    for (int i = 0; i < 8; ++i) {
        double s = f->function(c + h * x[i], f->params);
        if (i < 7) s += f->function(c - h * x[i], f->params);
        k += wk[i] * s;
        if (i % 2) g += wg[i / 2] * s;
    }
    *res = k * h; *err = std::fabs((k - g) * h);
}
#endif

inline int gsl_integration_qag(const gsl_function *f, symx_real a, symx_real b, symx_real epsabs, symx_real epsrel,
                               size_t limit, int, gsl_integration_workspace *w, symx_real *result, symx_real *abserr) {
    PyObject *h = symx_qag_hook();
    if (h) {
        static PyMethodDef md = {"integrand", symx_call_integrand, METH_O, ""};
        PyObject *cap = chk(PyCapsule_New((void *) f, nullptr, nullptr));
        PyObject *fn = chk(PyCFunction_New(&md, cap)); Py_DECREF(cap);
        PyObject *pa = pybind11::caster<symx_real>::to(a), *pb = pybind11::caster<symx_real>::to(b);
        PyObject *r = PyObject_CallFunction(h, "OOO", fn, pa, pb);
        Py_DECREF(fn); Py_DECREF(pa); Py_DECREF(pb);
        chk(r);
        *result = pybind11::caster<symx_real>::from(r); *abserr = 0.;
        Py_DECREF(r);
        return 0;
    }
#ifdef SYMX_SYMBOLIC
    PyErr_SetString(PyExc_RuntimeError, "no quadrature hook installed"); throw py_error();
#else
    struct iv { double a, b, r, e; };
    std::vector<iv> v;
    iv first{a, b, 0, 0};
    symx_gk15(f, a, b, &first.r, &first.e);
    v.push_back(first);
    size_t n = 1;
    while (true) {
        double r = 0, e = 0; size_t worst = 0;
        for (size_t i = 0; i < v.size(); ++i) { r += v[i].r; e += v[i].e; if (v[i].e > v[worst].e) worst = i; }
        *result = r; *abserr = e; if (w) w->size = v.size();
        if (!(e > std::max(epsabs, epsrel * std::fabs(r)))) return std::isnan(r) ? GSL_EROUND : 0;
        if (n >= std::min<size_t>(limit, 300)) return 0;
        iv x = v[worst]; double m = .5 * (x.a + x.b);
        iv l{x.a, m, 0, 0}, q{m, x.b, 0, 0};
        symx_gk15(f, l.a, l.b, &l.r, &l.e); symx_gk15(f, q.a, q.b, &q.r, &q.e);
        v[worst] = l; v.push_back(q); ++n;
    }
#endif
}
inline int gsl_integration_qags(const gsl_function *f, symx_real a, symx_real b, symx_real ea, symx_real er, size_t limit,
                                gsl_integration_workspace *w, symx_real *r, symx_real *e) {
    return gsl_integration_qag(f, a, b, ea, er, limit, 1, w, r, e); }

#ifdef SYMX_SYMBOLIC
// from here on (the repository's own source) a double is a handle to a Python number
#define double PyNum
#define printf symx_printf
#define constexpr const
#endif
