#include "common.hpp"
// kind: 0 ReLU, 1 LeakyReLU, 2 ELU, 3 Sigmoid
static Layer act(int k, float a, const Shape &s) { return k == 0 ? make(dw::ReLU("a"), s) : k == 1 ? make(dw::LeakyReLU(a, "a"), s) : k == 2 ? make(dw::ELU(a, "a"), s) : make(dw::Sigmoid("a"), s); }
static float f(int k, float a, float x) {
  if (k == 0) return pick(x > 0, x, 0);
  if (k == 1) { float n = a * x; return pick(x >= 0, x, n); }
  if (k == 2) { float n = a * (std::exp(x) - 1); return pick(x >= 0, x, n); }
  return 1 / (1 + std::exp(-x));
}
static float df(int k, float a, float x) {
  if (k == 3) { float s = 1 / (1 + std::exp(-x)); return s * (1 - s); }
  float n = k == 0 ? 0 : a; if (k == 2) n = a * std::exp(x);
  return pick(x > 0, 1, n);
}
static float RANGE(int k) { return k < 2 ? 1e30f : 80; }
static Shape shp(int n) { int r = size_in("rank", 1, 4); return r == 1 ? Shape{n} : r == 2 ? Shape{1, n} : r == 3 ? Shape{n, 1, 2} : Shape{1, 2, n, 1}; }
static void fw(int k, const Shape &s, int steps = 2) {
  float a = dw_sym_float("alpha"); dw_assume(a >= -8 && a <= 8); Layer l = act(k, a, s);
  for (int step = 0; step < steps; step++) {
    Tensor x = sym_tensor("x", s); VF X = values(x); bounded(X, RANGE(k)); VF e; for (float v : X) e.push_back(f(k, a, v));
    Tensor y = fwd(l, x, s); check_all(y, e, "activation output is f(x) for every element"); check_all(x, X, "forward leaves the input alone");
  }
}
static void bw(int k, const Shape &s) {
  float a = dw_sym_float("alpha"); dw_assume(a >= -8 && a <= 8); Layer l = act(k, a, s);
  Tensor xa = sym_tensor("x", s), xb = sym_tensor("x", s); VF XA = values(xa), XB = values(xb); bounded(XA, RANGE(k)); bounded(XB, RANGE(k));
  if (k != 3) for (VF *v : {&XA, &XB}) for (float x : *v) dw_assume(x != 0);
  Tensor ya = fwd(l, xa, s), yb = fwd(l, xb, s); VF YA = values(ya); // the gradient belongs to the tensors it is given, not to the last forward
  Tensor gy = sym_tensor("gy", s), gx = sym_tensor("gx", s); VF G = values(gy), e = values(gx);
  for (size_t i = 0; i < e.size(); i++) e[i] += G[i] * df(k, a, XA[i]);
  std::vector<Tensor> gi{gx}; l.cpu->backward({xa}, {ya}, {gy}, gi);
  check_all(gx, e, "activation backward adds dy*f'(x) to the input gradient"); check_all(gy, G, "backward leaves the output gradient alone"); check_all(xa, XA, "backward leaves the input alone"); check_all(ya, YA, "backward leaves the output alone");
}
static int N(int lo, int hi) { return size_in("n", lo, DEEP(hi, hi + 5)); }
ENTRY e_relu() { fw(0, shp(N(1, 3))); }   ENTRY e_leaky() { fw(1, shp(N(1, 3))); }   ENTRY e_elu() { fw(2, shp(N(1, 3))); }   ENTRY e_sigmoid() { fw(3, shp(N(1, 3))); }
ENTRY e_relu_b() { bw(0, shp(N(1, 3))); } ENTRY e_leaky_b() { bw(1, shp(N(1, 3))); } ENTRY e_elu_b() { bw(2, shp(N(1, 3))); } ENTRY e_sigmoid_b() { bw(3, shp(N(1, 3))); }
ENTRY e_large() { fw(size_in("kind", 0, 3), {5, DEEP(9, size_in("w", 7, 21))}); } ENTRY e_large_b() { bw(size_in("kind", 0, 3), {5, DEEP(9, size_in("w", 7, 21))}); }
ENTRY e_mismatch() {
  int k = size_in("kind", 0, 3); Layer l = act(k, 0.5f, {2, 2}); Shape s{size_in("a", 1, 3), size_in("b", 1, 3)}, o{size_in("c", 1, 3), size_in("d", 1, 3)};
  Tensor x = sym_tensor("x", s); Tensor y = Tensor::zeros(o); std::vector<Tensor> i{x}, out{y};
  dw_check(throws([&] { l.cpu->forward(i, out); }) == !same(s, o), "a forward into a tensor of another shape is refused, any other is not");
}
// arguments at which exp over- or underflows: the saturated value, never NaN or infinity
static void far(int k, bool back) {
  float a = dw_sym_float("alpha"); dw_assume(a >= -8 && a <= 8); Shape s{2}; Layer l = act(k, a, s); Tensor x = sym_tensor("x", s); VF X = values(x);
  for (float v : X) dw_assume((v >= 105 && v <= 1e37f) || (v <= -105 && v >= -1e37f));
  dw_exp_ieee(1); Tensor y = fwd(l, x, s); VF e, d;
  for (float v : X) { bool p = v > 0; e.push_back(k == 0 ? pick(p, v, 0) : k == 1 ? pick(p, v, a * v) : k == 2 ? pick(p, v, -a) : pick(p, 1, 0)); d.push_back(k == 3 ? 0 : pick(p, 1, k == 1 ? a : 0)); }
  if (!back) { check_all(y, e, "activation output saturates for inputs far from zero"); return; }
  Tensor gy = sym_tensor("gy", s), gx = sym_tensor("gx", s); VF G = values(gy), g = values(gx); bounded(G, 100); for (size_t i = 0; i < g.size(); i++) g[i] += G[i] * d[i];
  std::vector<Tensor> gi{gx}; l.cpu->backward({x}, {y}, {gy}, gi); check_all(gx, g, "activation gradient saturates for inputs far from zero");
}
ENTRY e_far() { far(size_in("kind", 0, 3), false); }
ENTRY e_far_b() { far(size_in("kind", 0, 3), true); }
// long tensors: one sign per element, so that every block of a vectorised kernel is exercised
static void big(int k, bool back) {
  float a = dw_sym_float("alpha"); dw_assume(a >= -8 && a <= 8); Shape s{5, 131}; Layer l = act(k, a, s); Tensor x = sym_tensor("x", s); VF X = values(x); bounded(X, RANGE(k));
  for (size_t i = 0; i < X.size(); i++) if (i % 3 != 1) dw_assume(X[i] > 0); else dw_assume(X[i] < 0);
  Tensor y = fwd(l, x, s); if (!back) { VF e; for (float v : X) e.push_back(f(k, a, v)); check_all(y, e, "activation output is f(x) for every element"); return; }
  Tensor gy = sym_tensor("gy", s), gx = sym_tensor("gx", s); VF G = values(gy), e = values(gx); for (size_t i = 0; i < e.size(); i++) e[i] += G[i] * df(k, a, X[i]);
  std::vector<Tensor> gi{gx}; l.cpu->backward({x}, {y}, {gy}, gi); check_all(gx, e, "activation backward adds dy*f'(x) to the input gradient");
}
ENTRY e_big() { big(size_in("kind", 0, 3), false); }
ENTRY e_big_b() { big(size_in("kind", 0, 3), true); }
// very long tensors
ENTRY e_vast() { Vast big; int k = size_in("kind", 0, 3); fw(k, {3, k < 2 ? DEEP(22001, 50001) : DEEP(1401, 5001)}, 1); }
ENTRY e_vast_b() { Vast big; int k = size_in("kind", 0, 3); bw(k, {3, k < 2 ? DEEP(22001, 50001) : DEEP(1401, 5001)}); }
