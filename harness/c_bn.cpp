#include "common.hpp"
#include <deepworks/utils/utils.hpp>
struct BN { bool two; int C, H, W; int P() const { return H * W; } Shape shape(int n) const { return two ? Shape{n, C, H, W} : Shape{n, C}; } int at(int n, int c, int i) const { return (n * C + c) * P() + i; } };
static Layer bn(const BN &b, float eps, float alpha) {
  Layer l = b.two ? make(dw::BatchNorm2D(eps, alpha, "b"), b.shape(2)) : make(dw::BatchNorm1D(eps, alpha, "b"), b.shape(2));
  for (const char *n : {"gamma", "beta"}) dw_sym_floats(n, l.param(n).data(), b.C);
  dw_sym_floats("mean0", l.buffer("running_mean").data(), b.C); dw_sym_floats("var0", l.buffer("running_var").data(), b.C);
  for (int c = 0; c < b.C; c++) dw_assume(l.buffer("running_var").data()[c] >= 0 && l.buffer("running_var").data()[c] <= 1e6f);
  return l;
}
static void stats(const BN &b, const VF &X, int N, VF &m, VF &v) {
  m.assign(b.C, 0); v.assign(b.C, 0); int K = N * b.P();
  for (int c = 0; c < b.C; c++) {
    for (int n = 0; n < N; n++) for (int i = 0; i < b.P(); i++) m[c] += X[b.at(n, c, i)]; m[c] /= K;
    for (int n = 0; n < N; n++) for (int i = 0; i < b.P(); i++) { float d = X[b.at(n, c, i)] - m[c]; v[c] += d * d; } v[c] /= K;
  }
}
static void fw(const BN &b, int steps, const int *N, const bool *train, float R = 8) {
  float eps = dw_sym_float("eps"), al = dw_sym_float("alpha"); dw_assume(eps >= 1e-12f && eps <= 100 && al >= 0 && al <= 1);
  Layer l = bn(b, eps, al); VF g = values(l.param("gamma")), be = values(l.param("beta")), rm = values(l.buffer("running_mean")), rv = values(l.buffer("running_var"));
  for (int t = 0; t < steps; t++) {
    l.train(train[t]);
    Tensor x = sym_tensor("x", b.shape(N[t])); VF X = values(x); bounded(X, R); VF m, v;
    if (train[t]) { stats(b, X, N[t], m, v); for (int c = 0; c < b.C; c++) { rm[c] = rm[c] * al + m[c] * (1 - al); rv[c] = rv[c] * al + v[c] * (1 - al); } } else { m = rm; v = rv; }
    Tensor y = fwd(l, x, b.shape(N[t]));
    VF e(X.size()); for (int c = 0; c < b.C; c++) { float s = std::sqrt(v[c] + eps); for (int n = 0; n < N[t]; n++) for (int i = 0; i < b.P(); i++) e[b.at(n, c, i)] = (X[b.at(n, c, i)] - m[c]) / s * g[c] + be[c]; }
    check_all(y, e, train[t] ? "training: output is the batch-normalised input scaled by gamma plus beta" : "evaluation: output is normalised with the running statistics");
    check_all(l.buffer("running_mean"), rm, "running mean"); check_all(l.buffer("running_var"), rv, "running variance");
    check_all(x, X, "forward leaves the input alone"); check_all(l.param("gamma"), g, "forward leaves gamma alone"); check_all(l.param("beta"), be, "forward leaves beta alone");
  }
}
static void bw(const BN &b, int N0, int N, float R = 8) {
  float eps = dw_sym_float("eps"); dw_assume(eps >= 1e-12f && eps <= 100);
  Layer l = bn(b, eps, 0.1f); VF g = values(l.param("gamma"));
  if (N0) { Tensor x0 = sym_tensor("x0", b.shape(N0)); bounded(values(x0), 8); fwd(l, x0, b.shape(N0)); }
  Tensor x = sym_tensor("x", b.shape(N)); VF X = values(x); bounded(X, R); Tensor y = fwd(l, x, b.shape(N));
  VF m, v; stats(b, X, N, m, v); int K = N * b.P();
  Tensor gy = sym_tensor("gy", b.shape(N)), gx = sym_tensor("gx", b.shape(N)); VF G = values(gy), ex = values(gx), eg(b.C), eb(b.C);
  dw_sym_floats("gg0", l.grad("gamma").data(), b.C); dw_sym_floats("gb0", l.grad("beta").data(), b.C);
  for (int c = 0; c < b.C; c++) {
    float s = std::sqrt(v[c] + eps);
    for (int n = 0; n < N; n++) for (int i = 0; i < b.P(); i++) { float h = (X[b.at(n, c, i)] - m[c]) / s; eg[c] += G[b.at(n, c, i)] * h; eb[c] += G[b.at(n, c, i)]; }
    for (int n = 0; n < N; n++) for (int i = 0; i < b.P(); i++) { float h = (X[b.at(n, c, i)] - m[c]) / s; ex[b.at(n, c, i)] += g[c] / s * (G[b.at(n, c, i)] - eb[c] / K - h * eg[c] / K); }
  }
  std::vector<Tensor> gi{gx}; bool first = dw_vast ? false : flag("params_first");
  if (first) l.cpu->updateGradients({x}, {gy});
  l.cpu->backward({x}, {y}, {gy}, gi);
  if (!first) l.cpu->updateGradients({x}, {gy});
  check_all(gx, ex, "batch normalisation backward adds the gradient of the normalisation"); check_all(l.grad("gamma"), eg, "gamma gradient"); check_all(l.grad("beta"), eb, "beta gradient");
  check_all(gy, G, "backward leaves the output gradient alone"); check_all(l.param("gamma"), g, "backward leaves gamma alone");
}
static void two(const BN &b, int mx) { int N[] = {size_in("n1", 1, mx), size_in("n2", 1, mx)}; bool t[] = {flag("train1"), flag("train2")}; fw(b, 2, N, t); }
ENTRY e_bn1() { two({false, size_in("c", 1, DEEP(2, 3)), 1, 1}, DEEP(3, 4)); }
ENTRY e_bn2() { two({true, size_in("c", 1, 2), size_in("h", 1, 2), size_in("w", 1, 2)}, 2); }
ENTRY e_bn_modes() { int N[] = {2, 1, 2, 2}; bool t[] = {flag("t1"), flag("t2"), flag("t3"), DEEP(false, flag("t4"))}; fw({flag("two"), 1, 1, 1}, DEEP(3, 4), N, t); }
ENTRY e_bn_large() { int N[] = {7}; bool t[] = {flag("train")}; fw({false, 5, 1, 1}, 1, N, t); }
ENTRY e_bn2_large() { int N[] = {3}; bool t[] = {flag("train")}; fw({true, 3, 2, 3}, 1, N, t); }
ENTRY e_bn1_b() { int c = size_in("c", 1, 2), n0 = size_in("n0", 0, 3), n = size_in("n", 1, DEEP(3, 4)); bw({false, c, 1, 1}, n0, n); }
ENTRY e_bn2_b() { int c = size_in("c", 1, 2), h = size_in("h", 1, 2), w = size_in("w", 1, 2), n0 = size_in("n0", 0, 2), n = size_in("n", 1, 2); dw_assume(h * w * n <= DEEP(4, 8)); bw({true, c, h, w}, n0, n); }
ENTRY e_bn1_b_large() { bw({false, 3, 1, 1}, 0, DEEP(5, size_in("n", 4, 7))); }
ENTRY e_bn_mixed() { Layer l = bn({flag("two"), 2, 1, 1}, 1e-5f, 0.1f); bool g = flag("g"), b = flag("b"); l.info.impl().params.at("gamma").train(g); l.info.impl().params.at("beta").train(b); Tensor x = Tensor::constant(l.in, 1.f), y = Tensor::zeros(l.in); std::vector<Tensor> i{x}, o{y}; dw_check(throws([&] { l.cpu->forward(i, o); }) == (g != b), "gamma and beta must agree on the mode"); }
static void layout(const Shape &s) {
  int N = s[0], C = s[1], H = s[2], W = s[3]; Tensor x = sym_tensor("x", s), y({N, H, W, C}), z(s); VF X = values(x), e(X.size());
  dw_sym_floats("garbage", y.data(), y.total()); dw_sym_floats("garbage", z.data(), z.total());
  dw::utils::NCHW2NHWC(x, y); for (int n = 0; n < N; n++) for (int c = 0; c < C; c++) for (int h = 0; h < H; h++) for (int w = 0; w < W; w++) e[((n * H + h) * W + w) * C + c] = X[((n * C + c) * H + h) * W + w];
  check_all(y, e, "NCHW to NHWC moves element (n,c,h,w) to (n,h,w,c)"); dw::utils::NHWC2NCHW(y, z); check_all(z, X, "NHWC to NCHW is its inverse"); check_all(x, X, "source unchanged"); check_all(y, e, "source unchanged");
}
ENTRY e_layout() { layout({size_in("n", 0, DEEP(2, 3)), size_in("c", 1, DEEP(3, 5)), size_in("h", 1, DEEP(3, 5)), size_in("w", 1, DEEP(3, 5))}); }
ENTRY e_layout_large() { layout({3, 5, 4, 7}); }
ENTRY e_layout_huge() { bool w = flag("wide"); layout(w ? Shape{1, 3, 33, 35} : Shape{2, 35, 5, 9}); }
ENTRY e_bn_tall() { int N[] = {DEEP(37, 70)}; bool t[] = {flag("train")}; fw({false, 2, 1, 1}, 1, N, t); }
ENTRY e_bn_wide() { int N[] = {2}; bool t[] = {flag("train")}; fw({false, DEEP(35, 70), 1, 1}, 1, N, t); }
ENTRY e_bn2_wide() { int N[] = {2}; bool t[] = {flag("train")}; fw({true, DEEP(19, 35), 1, 2}, 1, N, t); }
ENTRY e_bn2_area() { int N[] = {1}; bool t[] = {flag("train")}; fw({true, 2, 5, 7}, 1, N, t); }
ENTRY e_bn1_b_wide() { bw({false, DEEP(19, 35), 1, 1}, 0, 2); }
ENTRY e_bn2_b_wide() { bw({true, DEEP(11, 19), 1, 2}, 0, 1); }
ENTRY e_bn2_b_large() { bw({true, 2, 2, 3}, 0, DEEP(1, 2)); }
// inputs of any size
ENTRY e_bn_far() { int N[] = {2, 2}; bool t[] = {true, false}; bool two = flag("two"); fw({two, 1, 1, 1}, 2, N, t, 1e4f); }
ENTRY e_bn_b_far() { bool two = flag("two"); bw({two, 1, 1, 1}, 0, 2, 1e4f); }
ENTRY e_bn1_b_tall() { bw({false, 1, 1, 1}, 0, DEEP(19, 35)); }
ENTRY e_bn2_b_tall() { bw({true, 1, 1, 1}, 0, DEEP(11, 19)); }
// rounding counts: a large common offset of the batch must not drown its variance
static void offset(bool two, int N) {
  dw_bit_precise(1);
  float k = (float)dw_sym_int("k", 0, 8191);
  Layer l = two ? make(dw::BatchNorm2D(0.001f, 0.5f, "b"), Shape{N, 1, 1, 1}) : make(dw::BatchNorm1D(0.001f, 0.5f, "b"), Shape{N, 1}); l.train(true);
  Shape s = two ? Shape{N, 1, 1, 1} : Shape{N, 1}; Tensor x(s); for (int i = 0; i < N; i++) x.data()[i] = k + i;
  Tensor y = fwd(l, x, s);
  float m = (N - 1) / 2.f, v = (N * N - 1) / 12.f;
  for (int i = 0; i < N; i++) dw_check(std::fabs(y.data()[i] - (i - m) / std::sqrt(v + 0.001f)) <= 0.03f, "training: a common offset of the batch does not change the output");
  dw_check(std::fabs(l.buffer("running_var").data()[0] - 0.5f * v) <= 0.03f, "training: a common offset of the batch does not change the variance");
}
ENTRY e_bn_offset() { offset(flag("two"), 2); }
static void vast(bool bwd) { Vast v(4); int k = size_in("big", 0, 3); BN b = k == 0 ? BN{false, 3, 1, 1} : k == 1 ? BN{false, bwd ? 140 : 300, 1, 1} : k == 2 ? BN{true, bwd ? 1 : 2, 20, 17} : BN{true, 70, 2, 1}; int N[] = {k == 0 ? (bwd ? 520 : 1100) : 2}; bool t[] = {true}; if (bwd) bw(b, 0, N[0]); else { t[0] = flag("train"); fw(b, 1, N, t); } }
ENTRY e_bn_vast() { vast(false); } ENTRY e_bn_b_vast() { vast(true); }
ENTRY e_layout_vast() { Vast v; int k = size_in("big", 0, 2); layout(k == 0 ? Shape{1, 3, 130, 70} : k == 1 ? Shape{2, 1100, 3, 5} : Shape{5000, 2, 3, 2}); }
