#include "common.hpp"
typedef std::array<int, 2> A2;
struct G { int N, C, H, W, O; A2 k, p, s; int OH() const { return (H + 2 * p[0] - k[0]) / s[0] + 1; } int OW() const { return (W + 2 * p[1] - k[1]) / s[1] + 1; } bool fits() const { return H + 2 * p[0] >= k[0] && W + 2 * p[1] >= k[1]; } };
// calls fn(out index, weight index, input index, channel, n) for every multiplication of the direct convolution
template <class F> static void direct(const G &g, int N, F fn) {
  int oh = g.OH(), ow = g.OW();
  for (int n = 0; n < N; n++) for (int o = 0; o < g.O; o++) for (int y = 0; y < oh; y++) for (int x = 0; x < ow; x++)
    for (int c = 0; c < g.C; c++) for (int i = 0; i < g.k[0]; i++) for (int j = 0; j < g.k[1]; j++) {
      int r = y * g.s[0] - g.p[0] + i, q = x * g.s[1] - g.p[1] + j;
      if (r < 0 || r >= g.H || q < 0 || q >= g.W) continue;
      fn(((n * g.O + o) * oh + y) * ow + x, ((o * g.C + c) * g.k[0] + i) * g.k[1] + j, ((n * g.C + c) * g.H + r) * g.W + q);
    }
}
static Layer conv(const G &g) {
  Layer l = make(dw::Convolution(g.O, g.k, g.p, g.s, "c"), Shape{g.N, g.C, g.H, g.W});
  dw_sym_floats("w", l.param("weight").data(), l.param("weight").total()); dw_sym_floats("b", l.param("bias").data(), g.O);
  return l;
}
static void fw(const G &g, int steps, const int *batches) {
  dw_assume(g.fits()); Layer l = conv(g); VF W = values(l.param("weight")), B = values(l.param("bias"));
  dw_check(same(l.out, {g.N, g.O, g.OH(), g.OW()}), "output geometry");
  for (int t = 0; t < steps; t++) {
    int N = batches[t]; Tensor x = sym_tensor("x", {N, g.C, g.H, g.W}); VF X = values(x);
    Tensor y = fwd(l, x, {N, g.O, g.OH(), g.OW()});
    VF e; for (int n = 0; n < N; n++) for (int o = 0; o < g.O; o++) for (int i = 0; i < g.OH() * g.OW(); i++) e.push_back(B[o]);
    direct(g, N, [&](int oi, int wi, int xi) { e[oi] += W[wi] * X[xi]; });
    check_all(y, e, "convolution output is the cross-correlation of input and weights plus bias");
    check_all(x, X, "forward leaves the input alone"); check_all(l.param("weight"), W, "forward leaves the weights alone"); check_all(l.param("bias"), B, "forward leaves the bias alone");
  }
}
static void bw(const G &g, int N0, int N) {
  dw_assume(g.fits()); Layer l = conv(g); VF W = values(l.param("weight")); Shape os{N, g.O, g.OH(), g.OW()}, is{N, g.C, g.H, g.W};
  if (N0) { Tensor x0 = sym_tensor("x0", {N0, g.C, g.H, g.W}); fwd(l, x0, {N0, g.O, g.OH(), g.OW()}); }
  Tensor x = sym_tensor("x", is); VF X = values(x); Tensor y = fwd(l, x, os);
  Tensor gy = sym_tensor("gy", os), gx = sym_tensor("gx", is); VF GY = values(gy), ex = values(gx);
  dw_sym_floats("gw0", l.grad("weight").data(), W.size()); dw_sym_floats("gb0", l.grad("bias").data(), g.O);
  VF ew(W.size()), eb(g.O); int P = g.OH() * g.OW();
  direct(g, N, [&](int oi, int wi, int xi) { ex[xi] += W[wi] * GY[oi]; ew[wi] += X[xi] * GY[oi]; });
  for (int n = 0; n < N; n++) for (int o = 0; o < g.O; o++) for (int i = 0; i < P; i++) eb[o] += GY[(n * g.O + o) * P + i];
  std::vector<Tensor> gi{gx}; bool first = flag("weights_first");
  if (first) l.cpu->updateGradients({x}, {gy});
  l.cpu->backward({x}, {y}, {gy}, gi);
  if (!first) l.cpu->updateGradients({x}, {gy});
  check_all(gx, ex, "convolution backward adds the input gradient"); check_all(l.grad("weight"), ew, "convolution weight gradient"); check_all(l.grad("bias"), eb, "convolution bias gradient is the sum of dy over batch and positions");
  check_all(gy, GY, "backward leaves the output gradient alone"); check_all(x, X, "backward leaves the input alone"); check_all(l.param("weight"), W, "backward leaves the weights alone");
}
static G rows() { return {1, 1, size_in("h", 1, DEEP(4, 8)), 3, 1, {size_in("kh", 1, DEEP(3, 5)), 2}, {size_in("ph", 0, DEEP(2, 4)), 1}, {size_in("sh", 1, DEEP(3, 5)), 2}}; }
static G cols() { return {1, 1, 2, size_in("w", 1, DEEP(4, 8)), 1, {2, size_in("kw", 1, DEEP(3, 5))}, {0, size_in("pw", 0, DEEP(2, 4))}, {1, size_in("sw", 1, DEEP(3, 5))}}; }
static G chans(int m) { return {1, size_in("c", 1, m), 3, 2, size_in("o", 1, m), {2, 1}, {1, 0}, {2, 1}}; }
ENTRY e_conv_rows() { int b[] = {1, 2}; fw(rows(), 2, b); }
ENTRY e_conv_cols() { int b[] = {2, 1}; fw(cols(), 2, b); }
ENTRY e_conv_channels() { G g = chans(DEEP(3, 5)); int b[] = {size_in("n1", 1, DEEP(3, 5)), size_in("n2", 1, DEEP(3, 5))}; fw(g, 2, b); }
ENTRY e_conv_square() { int k = size_in("k", 1, 3), p = size_in("p", 0, 1), s = size_in("s", 1, 2); G g{2, 2, 4, 4, 2, {k, k}, {p, p}, {s, s}}; int b[] = {2}; fw(g, 1, b); }
ENTRY e_conv_large() { G g{9, 2, 5, 6, 3, {3, 3}, {1, 1}, {1, 1}}; int b[] = {9}; fw(g, 1, b); }
ENTRY e_conv_b_rows() { bw(rows(), 0, 2); }
ENTRY e_conv_b_cols() { bw(cols(), 0, 2); }
ENTRY e_conv_b_channels() { G g = chans(DEEP(2, 3)); int n0 = size_in("n0", 0, DEEP(3, 4)), n = size_in("n", 1, DEEP(3, 5)); bw(g, n0, n); }
ENTRY e_conv_b_square() { int k = size_in("k", 1, 3), p = size_in("p", 0, 1), s = size_in("s", 1, 2); G g{2, 2, 4, 4, 2, {k, k}, {p, p}, {s, s}}; bw(g, 0, 2); }
ENTRY e_conv_b_large() { G g{9, 2, 4, 5, 2, {3, 3}, {1, 1}, {1, 1}}; bw(g, 0, 9); }
ENTRY e_conv_order() { Layer l = make(dw::Convolution(1, A2{1, 1}, A2{0, 0}, A2{1, 1}, "c"), Shape{1, 1, 2, 2}); Tensor t = Tensor::zeros({1, 1, 2, 2}); std::vector<Tensor> gi{t}; dw_check(throws([&] { l.cpu->backward({t}, {t}, {t}, gi); }), "backward without a forward is refused"); dw_check(throws([&] { l.cpu->updateGradients({t}, {t}); }), "gradients without a forward are refused"); }
ENTRY e_conv_attrs() {
  A2 k{(int)dw_sym_int("k", 1, 1), 1}, p{size_in("p", -1, 1), size_in("p", -1, 0)}, s{size_in("s", -1, 1), size_in("s", -1, 1)}; dw_assume(s[0] != 0 && s[1] != 0);
  Layer l; try { l = make(dw::Convolution(1, k, p, s, "c"), Shape{1, 1, 5, 5}); } catch (...) { return; }
  bool ok = p[0] >= 0 && p[1] >= 0 && s[0] > 0 && s[1] > 0; if (ok) return;
  Tensor x = Tensor::zeros({1, 1, 5, 5}), y = Tensor::zeros({1, 1, 9, 9}); std::vector<Tensor> i{x}, o{y};
  dw_check(throws([&] { l.cpu->forward(i, o); }), "negative padding or non-positive stride is refused");
}
// both axes free at once
static G mixed() { return {1, 1, DEEP(5, size_in("h", 4, 6)), 4, 1, {size_in("kh", 1, DEEP(3, 4)), size_in("kw", 1, 3)}, {size_in("ph", 0, 2), size_in("pw", 0, 2)}, {size_in("sh", 1, 3), size_in("sw", 1, 3)}}; }
ENTRY e_conv_mixed() { int b[] = {1}; fw(mixed(), 1, b); }
ENTRY e_conv_b_mixed() { bw(mixed(), 0, 1); }
// larger kernels, paddings and strides
static G wide() { bool v = flag("vertical"); int n = size_in("n", 5, DEEP(8, 14)), k = size_in("k", 4, DEEP(7, 11)), p = size_in("p", 0, DEEP(3, 5)), s = size_in("s", 1, DEEP(4, 6)); G g{1, 1, 2, n, 1, {2, k}, {0, p}, {1, s}}; if (v) { std::swap(g.H, g.W); std::swap(g.k[0], g.k[1]); std::swap(g.p[0], g.p[1]); std::swap(g.s[0], g.s[1]); } return g; }
ENTRY e_conv_wide() { int b[] = {1}; fw(wide(), 1, b); }
ENTRY e_conv_b_wide() { bw(wide(), 0, 1); }
// many channels, filters or pixels
static G big() { int k = size_in("big", 0, 2); return k == 0 ? G{1, 17, 2, 3, 2, {2, 2}, {0, 0}, {1, 1}} : k == 1 ? G{1, 2, 2, 3, 19, {2, 2}, {0, 0}, {1, 1}} : G{1, 1, 13, 11, 1, {3, 3}, {1, 1}, {1, 1}}; }
ENTRY e_conv_big() { int b[] = {1}; fw(big(), 1, b); }
ENTRY e_conv_b_big() { bw(big(), 0, 1); }
ENTRY e_conv_vast() { Vast v; int k = size_in("big", 0, 3), b[] = {k == 3 ? 1100 : 1}; G g = k == 0 ? G{1, 2, 70, 40, 1, {3, 3}, {1, 1}, {1, 1}} : k == 1 ? G{1, 70, 4, 5, 3, {3, 2}, {1, 0}, {2, 1}} : k == 2 ? G{1, 2, 4, 5, 70, {2, 3}, {0, 1}, {1, 2}} : G{1100, 1, 4, 3, 2, {2, 2}, {1, 1}, {1, 1}}; fw(g, 1, b); }
ENTRY e_conv_real() { Vast v; int b[] = {2}; fw(G{2, 3, 32, 32, 8, {3, 3}, {1, 1}, {1, 1}}, 1, b); }
ENTRY e_conv_b_real() { Vast v; bw(G{2, 3, 32, 32, 8, {3, 3}, {1, 1}, {1, 1}}, 0, 2); }
ENTRY e_conv_b_vast() { Vast v; int k = size_in("big", 0, 3); G g = k == 0 ? G{1, 2, 70, 40, 1, {3, 3}, {1, 1}, {1, 1}} : k == 1 ? G{1, 70, 4, 5, 3, {3, 2}, {1, 0}, {2, 1}} : k == 2 ? G{1, 2, 4, 5, 70, {2, 3}, {0, 1}, {1, 2}} : G{1100, 1, 4, 3, 2, {2, 2}, {1, 1}, {1, 1}}; bw(g, 0, k == 3 ? 1100 : 1); }
