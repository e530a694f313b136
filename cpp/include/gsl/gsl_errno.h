#pragma once
#include <pybind11/pybind11.h>
#define GSL_SUCCESS 0
#define GSL_EMAXITER 11
#define GSL_EROUND 18
#define GSL_ESING 21
#define GSL_EDIVERGE 22
typedef void gsl_error_handler_t(const char *, const char *, int, int);
inline gsl_error_handler_t *gsl_set_error_handler_off() { return nullptr; }
inline gsl_error_handler_t *gsl_set_error_handler(gsl_error_handler_t *) { return nullptr; }
inline const char *gsl_strerror(int) { return "gsl error"; }
