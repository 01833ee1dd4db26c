#pragma once
#include "dw.h"
#include <cmath>
#include <vector>
#include <string>
#include <array>
#include <deepworks/nn.hpp>
#include <deepworks/tensor.hpp>
#include <deepworks/layer_info.hpp>
#include <deepworks/parameter.hpp>
#include "expression/placeholder_impl.hpp"
#include "expression/call_impl.hpp"
#include "runtime/cpu/layers/cpulayer.hpp"
#ifdef DW_THOROUGH // the thorough tier decides the same entries over wider ranges
#define DEEP(quick, thorough) (thorough)
#else
#define DEEP(quick, thorough) (quick)
#endif
namespace dw = deepworks;
using dw::Shape; using dw::Tensor;
typedef std::vector<float> VF;

// Large tensors: inside the scope of a Vast, only the first, middle and last element of an array are symbolic, the others hold a fixed pattern.
static int dw_vast = 0; static float dw_vast_add = 0;
struct Vast { Vast(float add = 0) { dw_vast = 1; dw_vast_add = add; } ~Vast() { dw_vast = 0; } };
static inline void dw_fill(const char *n, float *p, size_t k) {
  if (!dw_vast || k < 8) { dw_sym_floats(n, p, k); return; }
  unsigned h = 0; for (const char *c = n; *c; c++) h = h * 31 + (unsigned char)*c;
  h %= 2039; for (size_t i = 0; i < k; i++) { p[i] = ((int)h - 1019) / 256.f + 1 / 512.f + dw_vast_add; h += 37; if (h >= 2039) h -= 2039; }
  dw_sym_floats(n, p, 1); dw_sym_floats(n, p + k / 2, 1); dw_sym_floats(n, p + k - 1, 1);
}
#define dw_sym_floats dw_fill

static inline int size_in(const char *n, int lo, int hi) { return (int)dw_split(dw_sym_int(n, lo, hi)); }
static inline bool flag(const char *n) { return dw_split(dw_sym_int(n, 0, 1)) != 0; }
static inline Tensor sym_tensor(const char *n, const Shape &s) { Tensor t(s); dw_sym_floats(n, t.data(), t.total()); return t; }
static inline VF values(const Tensor &t) { return VF(t.data(), t.data() + t.total()); }
static inline void set(Tensor t, const VF &v) { for (size_t i = 0; i < v.size(); i++) t.data()[i] = v[i]; }
static inline void check_all(const Tensor &t, const VF &e, const char *m) { dw_check(t.total() == e.size(), "the result has the expected number of elements"); for (size_t i = 0; i < e.size(); i++) dw_check_eqf(t.data()[i], e[i], m); }
static inline void check_same(const Tensor &t, const VF &e, const char *m) { check_all(t, e, m); }
static inline float fmaxr(float a, float b) { return a < b ? b : a; }
static inline void bounded(const VF &v, float b) { for (float x : v) dw_assume(x >= -b && x <= b); }

// A layer, created the way a model creates it: operation applied to a placeholder, then the CPU implementation.
struct Layer {
  dw::LayerInfo info; Shape in, out; std::shared_ptr<dw::cpu::ICPULayer> cpu;
  Tensor param(const char *n) { return info.impl().params.at(n).data(); }
  Tensor grad(const char *n) { return info.impl().params.at(n).grad(); }
  Tensor buffer(const char *n) { return info.impl().buffers.at(n); }
  void train(bool m) { for (auto &p : info.impl().params) p.second.train(m); }
  void forward(const std::vector<Tensor> &i, std::vector<Tensor> &o) { cpu->forward(i, o); }
};
template <class Op, class... S> static inline Layer make(Op op, const Shape &first, const S &... rest) {
  Layer l; l.in = first;
  dw::Placeholder o = op(dw::Placeholder(first), dw::Placeholder(rest)...);
  l.info = o.impl().call->impl().info; l.out = o.shape();
  l.cpu = dw::cpu::ICPULayer::create(l.info);
  return l;
}
static inline Tensor fwd(Layer &l, const Tensor &x, const Shape &os) { std::vector<Tensor> i{x}, o{Tensor(os)}; dw_sym_floats("garbage", o[0].data(), o[0].total()); l.cpu->forward(i, o); return o[0]; }
template <class F> static inline bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
static inline long prod(const Shape &s) { long p = 1; for (int d : s) p *= d; return p; }
static inline bool same(const Shape &a, const Shape &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }
static inline bool row_major(const Tensor &t) { const Shape &s = t.shape(); if (t.strides().size() != s.size()) return false; size_t e = 1; for (size_t i = s.size(); i--;) { if (t.strides()[i] != e) return false; e *= (size_t)(long)s[i]; } return true; }
static inline float pick(bool c, float a, float b) { return c ? a : b; } // both sides computed: no path split
