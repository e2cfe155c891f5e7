// the runtime behind vh.h for really compiled modules: values come from the driver
#include <Python.h>
#include <map>
#include <string>
#include <vector>
#include <stdio.h>
static std::map<std::string, unsigned long long> g_val;
static std::map<std::string, int> g_seq;
static std::vector<std::string> g_log;
static int g_id;
static std::string key(const char *n) { char b[200]; snprintf(b, sizeof b, "%s#%d", n, g_seq[n]++); return b; }
static int gil() { return PyGILState_Check(); }
static void put(const std::string &s) { if (g_log.empty()) g_log.push_back("?"); g_log.back() += s; }
extern "C" {
void vh_ev(const char *name) { g_log.push_back(std::string(name) + "\x1f" + (gil() ? "1" : "0")); }
void vh_i(long long v) { char b[40]; snprintf(b, sizeof b, "\x1fi%lld", v); put(b); }
void vh_u(unsigned long long v) { char b[40]; snprintf(b, sizeof b, "\x1fi%llu", v); put(b); }
void vh_d(double v) { unsigned long long u; memcpy(&u, &v, 8); char b[40]; snprintf(b, sizeof b, "\x1f" "d%llu", u); put(b); }
void vh_f(float v) { unsigned u; memcpy(&u, &v, 4); char b[40]; snprintf(b, sizeof b, "\x1f" "f%u", u); put(b); }
void vh_s(const char *p, size_t n) { std::string s = "\x1fs"; for (size_t i = 0; i < n; i++) { char b[8]; snprintf(b, sizeof b, "%02x", (unsigned char) p[i]); s += b; } put(s); }
void vh_z(const char *p) { if (!p) put("\x1fn"); else vh_s(p, strlen(p)); }
void vh_o(PyObject *o) { char b[40]; snprintf(b, sizeof b, "\x1fo%llu", (unsigned long long) (size_t) o); put(b); }
void vh_gil(void) { put(gil() ? "\x1fi1" : "\x1fi0"); }
unsigned long long vh_int(const char *name, int bits) { unsigned long long v = g_val[key(name)]; return bits < 64 ? v & ((1ULL << bits) - 1) : v; }
int vh_choose(const char *name, int n) { int v = (int) g_val["?" + key(name)]; return v < n ? v : 0; }
int vh_id(void) { return ++g_id; }
void vh_incref(PyObject *o) { Py_INCREF(o); }
static PyThreadState *g_ts[64]; static int g_held[64], g_tn;
void vh_gil_release(void) { g_held[g_tn] = gil(); g_ts[g_tn] = g_held[g_tn] ? PyEval_SaveThread() : 0; g_tn++; }
void vh_gil_restore(void) { --g_tn; if (g_held[g_tn]) PyEval_RestoreThread(g_ts[g_tn]); }
// for the driver (ctypes)
void rt_set(const char *n, unsigned long long v) { g_val[n] = v; }
void rt_reset(void) { g_val.clear(); g_seq.clear(); g_log.clear(); g_id = 0; }
void rt_clear_log(void) { g_log.clear(); }
int rt_nlog(void) { return (int) g_log.size(); }
const char *rt_log(int i) { return g_log[i].c_str(); }
}
