// Every random draw of the library becomes a symbolic (natively: replayed) value in the range the distribution allows.
// A generator is its seed and its position: copies of one generator, and generators with the same seed, repeat the same draws.
#pragma once
#include <random>
#include <vector>
extern "C" { long dw_sym_int(const char *, long, long); float dw_sym_float(const char *); void dw_assume(bool); long dw_split(long); [[noreturn]] void dw_stop(); }
inline float dw_draw[64];        // the draws so far, for the harness
inline int dw_ndraw = 0, dw_draw_side = 0, dw_draw_budget = -1; // beyond the budget the path is not followed (rejection loops)
static inline void dw_drew(float u) { if (dw_draw_budget >= 0 && dw_ndraw >= dw_draw_budget) dw_stop(); if (dw_ndraw < 64) dw_draw[dw_ndraw] = u; dw_ndraw++; }
struct DwDraw { bool known = false; int kind = 0; long a = 0, b = 0, i = 0; float f = 0; };
inline unsigned long dw_rng_seed, dw_rng_pos;
inline unsigned long dw_rng_seeds[16]; inline std::vector<DwDraw> dw_rng_log[16]; inline int dw_rng_n = 0; // more seeds than that: fresh draws
namespace std {
template <> inline void mt19937::seed(result_type s) { _M_x[0] = s; _M_p = 0; }
template <> inline void mt19937::discard(unsigned long long z) { if (!z) { dw_rng_seed = _M_x[0]; dw_rng_pos = _M_p++; } else _M_p += z; }
}
// the draw at the generator's position, null when it cannot have been made before
static inline DwDraw *dw_next(std::mt19937 &g, int kind, long a, long b) {
  g.discard(0); int k = 0; while (k < dw_rng_n && dw_rng_seeds[k] != dw_rng_seed) k++;
  if (k == dw_rng_n) { if (k == 16) return nullptr; dw_rng_seeds[k] = dw_rng_seed; dw_rng_n++; }
  std::vector<DwDraw> &l = dw_rng_log[k]; if (dw_rng_pos >= (1ul << 20)) return nullptr; if (l.size() <= dw_rng_pos) l.resize(dw_rng_pos + 1);
  DwDraw &d = l[dw_rng_pos]; if (d.known && (d.kind != kind || d.a != a || d.b != b)) return nullptr;
  d.kind = kind; d.a = a; d.b = b; return &d;
}
static inline float dw_unit(std::mt19937 &g) {
  DwDraw *d = dw_next(g, 0, 0, 0); float u = d && d->known ? d->f : dw_sym_float("rand"); if (d) { d->known = true; d->f = u; }
  dw_assume(u >= 0.f && u < 1.f); if (dw_draw_side) { if (dw_ndraw % dw_draw_side) dw_assume(u > 0.95f); else dw_assume(u < 0.05f); } dw_drew(u); return u;
}
static inline long dw_pickint(std::mt19937 &g, long a, long b) {
  DwDraw *d = dw_next(g, 1, a, b); long v = d && d->known ? d->i : dw_sym_int("rand", a, b); if (b - a <= 16) v = dw_split(v); if (d) { d->known = true; d->i = v; } dw_drew(0); return v;
}
namespace std {
template <> inline float generate_canonical<float, 24, mt19937>(mt19937 &g) { return dw_unit(g); }
template <> inline double generate_canonical<double, 53, mt19937>(mt19937 &g) { return dw_unit(g); }
template <> inline mt19937::result_type mt19937::operator()() { DwDraw *d = dw_next(*this, 2, 0, 0); long v = d && d->known ? d->i : dw_sym_int("rand", 0, 4294967295L); if (d) { d->known = true; d->i = v; } dw_drew(0); return (result_type)(unsigned)v; }
#define DW_UID(T) template <> template <> inline T uniform_int_distribution<T>::operator()(mt19937 &g, const param_type &p) { return (T)dw_pickint(g, (long)p.a(), (long)p.b()); }
DW_UID(int) DW_UID(unsigned) DW_UID(long) DW_UID(unsigned long)
#undef DW_UID
}
