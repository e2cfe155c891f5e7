/* calls of the wrapped library into the verification runtime */
#ifndef VH_H
#define VH_H
#include <Python.h>
#include <string>
#include <string.h>
#include <stdint.h>
extern "C" {
void vh_ev(const char *name);
void vh_i(long long v);
void vh_u(unsigned long long v);
void vh_d(double v);
void vh_f(float v);
void vh_s(const char *p, size_t n);
void vh_z(const char *p);
void vh_o(PyObject *o);
void vh_gil(void);
unsigned long long vh_int(const char *name, int bits);
int vh_choose(const char *name, int n);
int vh_id(void);
void vh_incref(PyObject *o);
void vh_gil_release(void);
void vh_gil_restore(void);
}
static inline double vh_dbl(const char *n) { unsigned long long u = vh_int(n, 64); double d; memcpy(&d, &u, 8); return d; }
static inline float vh_flt(const char *n) { uint32_t u = (uint32_t) vh_int(n, 32); float d; memcpy(&d, &u, 4); return d; }
static inline std::string vh_str(const char *n) {
  char b[2]; int k = vh_choose(n, 3);
  if (k > 0) b[0] = (char) vh_int(n, 8);
  if (k > 1) b[1] = (char) vh_int(n, 8);
  return std::string(b, (size_t) k);
}
static inline void vh_ss(const std::string &s) { vh_s(s.c_str(), s.size()); }
#endif
