// Native side of the harness interface: replays one recorded input against the real code.
// usage: replay ENTRY INPUTFILE [OBSFILE]; exit 0 passed, 42 a check failed, 77 an assumption does not hold.
#include "dw.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <dlfcn.h>
static std::map<std::string, double> *F; static std::map<std::string, long> *L; static std::map<std::string, int> *cnt;
extern "C" __attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes();
static FILE *obs; static double tolA = 1e-3, tolR = 1e-3;
static std::string nm(const char *n) { int k = (*cnt)[n]++; return std::string(n) + "#" + std::to_string(k); }
static void failed(const char *m, double a, double b, bool two) { if (two) fprintf(stderr, "DWFAIL %s: actual %.9g expected %.9g\n", m, a, b); else fprintf(stderr, "DWFAIL %s\n", m); fflush(nullptr); _Exit(42); }
extern "C" {
long dw_sym_int(const char *n, long lo, long hi) { std::string s = nm(n); if (lo == hi) return lo; auto i = L->find(s); return i == L->end() ? lo : i->second; }
float dw_sym_float(const char *n) { std::string s = nm(n); auto i = F->find(s); return i == F->end() ? 0.f : (float)i->second; }
void dw_sym_floats(const char *n, float *p, unsigned long k) { for (unsigned long i = 0; i < k; i++) p[i] = dw_sym_float(n); }
void dw_sym_bytes(const char *n, void *p, unsigned long k) { for (unsigned long i = 0; i < k; i++) { std::string s = nm(n); auto it = L->find(s); ((unsigned char *)p)[i] = it == L->end() ? 0 : (unsigned char)it->second; } }
void dw_assume(bool c) { if (!c) { fprintf(stderr, "DWASSUME\n"); _Exit(77); } }
void dw_check(bool c, const char *m) { if (!c) failed(m, 0, 0, false); }
void dw_check_eqf(float a, float b, const char *m) {
  if (obs) fprintf(obs, "%.9g\n", (double)a);
  double d = std::fabs((double)a - (double)b), g = std::fmax(std::fabs((double)a), std::fabs((double)b));
  if (a == b || (std::isnan(a) && std::isnan(b))) return;
  if (!(d <= tolA + tolR * g)) failed(m, a, b, true);
}
long dw_split(long v) { return v; }
void dw_fail(const char *m) { failed(m, 0, 0, false); abort(); }
long dw_heap_live() { return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0; }
int dw_symbolic() { return 0; }
void dw_exp_limit(double) {}
void dw_exp_ieee(int) {}
void dw_bit_precise(int) {}
void dw_text_begin(void *) {}
float dw_text_float(long) { return 0; }
long dw_text_int(long) { return 0; }
long dw_text_take(void *, char *, long) { return 0; }
void dw_stop() { if (obs) fclose(obs); _Exit(0); }
void dw_reach(const char *) {}
void dw_race_on() {}
}
int main(int c, char **v) {
  F = new std::map<std::string, double>; L = new std::map<std::string, long>; cnt = new std::map<std::string, int>;
  if (c < 3) return 2;
  if (FILE *f = fopen(v[2], "r")) { char n[256], k; char val[256]; while (fscanf(f, "%255s %c %255s", n, &k, val) == 3) { if (k == 'f') (*F)[n] = strtod(val, nullptr); else (*L)[n] = strtol(val, nullptr, 10); } fclose(f); } else return 2;
  if (c > 3) obs = fopen(v[3], "w");
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, v[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", v[1]); return 2; }
  try { fn(); } catch (std::exception &e) { fprintf(stderr, "DWFAIL uncaught exception\n"); fflush(nullptr); _Exit(43); } catch (...) { fprintf(stderr, "DWFAIL uncaught exception\n"); _Exit(43); }
  if (obs) fclose(obs);
  fflush(nullptr); _Exit(0);
}
