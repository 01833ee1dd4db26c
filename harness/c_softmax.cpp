#include "common.hpp"
static void sm(int N, int C, bool bwd) {
  Layer l = make(dw::Softmax("s"), Shape{N, C});
  Tensor x = sym_tensor("x", {N, C}); VF X = values(x);
  for (int n = 0; n < N; n++) for (int c = 0; c < C; c++) for (int d = 0; d < c; d++) dw_assume(X[n * C + c] - X[n * C + d] <= 60 && X[n * C + d] - X[n * C + c] <= 60);
  bounded(X, 3e38f);
  dw_exp_ieee(1); Tensor y = fwd(l, x, {N, C}); dw_exp_ieee(0); VF Y = values(y);
  if (!bwd) for (int n = 0; n < N; n++) {
    float s = 0;
    for (int c = 0; c < C; c++) { float r = 0; for (int d = 0; d < C; d++) r += std::exp(X[n * C + d] - X[n * C + c]); dw_check_eqf(Y[n * C + c], 1 / r, "softmax is exp(x_i)/sum_j exp(x_j) along axis 1"); dw_check(Y[n * C + c] > 0 && Y[n * C + c] <= 1.0001f, "softmax values lie in [0, 1]"); s += Y[n * C + c]; }
    dw_check_eqf(s, 1.f, "softmax rows sum to one");
  }
  check_all(x, X, "forward leaves the input alone");
  if (!bwd) return;
  Tensor gy = sym_tensor("gy", {N, C}), gx = sym_tensor("gx", {N, C}), p = sym_tensor("p", {N, C}); VF G = values(gy), e = values(gx), P = values(p);
  for (int n = 0; n < N; n++) for (int c = 0; c < C; c++) { float k = 0; for (int d = 0; d < C; d++) k += G[n * C + d] * P[n * C + d]; e[n * C + c] += P[n * C + c] * (G[n * C + c] - k); }
  std::vector<Tensor> gi{gx}; l.cpu->backward({x}, {p}, {gy}, gi);
  check_all(gx, e, "softmax backward adds y*(dy - sum(dy*y)) to the input gradient"); check_all(gy, G, "backward leaves the output gradient alone"); check_all(p, P, "backward leaves the output alone");
}
ENTRY e_softmax() { sm(size_in("n", 1, DEEP(2, 3)), size_in("c", 1, 3), false); }
// any scores at all: classes far below the maximum of their row vanish, the others form the distribution
static void sm_far(int N, int C) {
  Layer l = make(dw::Softmax("s"), Shape{N, C}); Tensor x = sym_tensor("x", {N, C}); VF X = values(x); bounded(X, 3e38f);
  for (int n = 0; n < N; n++) for (int c = 0; c < C; c++) for (int d = 0; d < c; d++) { float t = X[n * C + c] - X[n * C + d]; dw_assume(t >= -60 && t <= 60 || t > 200 || t < -200); }
  dw_exp_ieee(1); Tensor y = fwd(l, x, {N, C}); dw_exp_ieee(0); VF Y = values(y);
  for (int n = 0; n < N; n++) for (int c = 0; c < C; c++) {
    float r = 0; bool gone = false;
    for (int d = 0; d < C; d++) { float t = X[n * C + d] - X[n * C + c]; if (t > 200) gone = true; else if (t >= -60) r += std::exp(t); }
    dw_check_eqf(Y[n * C + c], gone ? 0.f : 1 / r, "softmax is exp(x_i)/sum_j exp(x_j) for scores of any size");
  }
}
ENTRY e_softmax_far() { sm_far(size_in("n", 1, DEEP(2, 3)), size_in("c", 1, 2)); }
ENTRY e_softmax_far3() { sm_far(1, 3); }
ENTRY e_softmax_wide() { sm(1, size_in("c", 4, DEEP(5, 6)), false); }
ENTRY e_softmax_tall() { Layer l = make(dw::Softmax("s"), Shape{17, 1}); Tensor x = sym_tensor("x", {17, 1}); bounded(values(x), 3e38f); check_all(fwd(l, x, {17, 1}), VF(17, 1.f), "softmax of one class is one"); }
ENTRY e_softmax_b() { sm(size_in("n", 1, DEEP(2, 3)), size_in("c", 1, DEEP(3, 4)), true); }
ENTRY e_softmax_b_large() {
  Layer l = make(dw::Softmax("s"), Shape{5, 7}); int N = 5, C = 7; Tensor gy = sym_tensor("gy", {N, C}), gx = sym_tensor("gx", {N, C}), p = sym_tensor("p", {N, C}); VF G = values(gy), e = values(gx), P = values(p);
  for (int n = 0; n < N; n++) for (int c = 0; c < C; c++) { float k = 0; for (int d = 0; d < C; d++) k += G[n * C + d] * P[n * C + d]; e[n * C + c] += P[n * C + c] * (G[n * C + c] - k); }
  std::vector<Tensor> gi{gx}; l.cpu->backward({p}, {p}, {gy}, gi); check_all(gx, e, "softmax backward");
}
ENTRY e_softmax_reject() {
  int r = size_in("rank", 1, 4); Shape s; for (int i = 0; i < r; i++) s.push_back(2); Layer l = make(dw::Softmax("s"), Shape{2, 2}); Tensor x = Tensor::zeros(s), y = Tensor::zeros(s); std::vector<Tensor> i{x}, o{y};
  dw_check(throws([&] { l.cpu->forward(i, o); }) == (r != 2), "softmax takes exactly 2-D tensors");
}
// many classes: the largest score is known to be at one place, the others follow in a fixed order
ENTRY e_softmax_ranked() {
  bool tall = flag("tall"); int N = tall ? 19 : DEEP(2, 3), C = tall ? 2 : DEEP(11, 19); Layer l = make(dw::Softmax("s"), Shape{N, C}); Tensor x = sym_tensor("x", {N, C}); VF X = values(x); bounded(X, 3e38f); size_t at = size_in("largest", 0, 2) * 5 % C;
  for (int n = 0; n < N; n++) { int prev = -1; for (int j = 0; j < C; j++) { int c = (int)(at + n * 3 + j * 7) % C; if (prev >= 0) { float t = X[n * C + prev] - X[n * C + c]; dw_assume(t > 0.01f && t < 5); } prev = c; } }
  dw_exp_ieee(1); Tensor y = fwd(l, x, {N, C}); dw_exp_ieee(0); VF Y = values(y);
  for (int n = 0; n < N; n++) for (int c = 0; c < C; c++) { float r = 0; for (int d = 0; d < C; d++) r += std::exp(X[n * C + d] - X[n * C + c]); dw_check_eqf(Y[n * C + c], 1 / r, "softmax is exp(x_i)/sum_j exp(x_j) along axis 1"); }
}
ENTRY e_softmax_vast() { // only one row is symbolic
  int k = size_in("big", 0, 1), N = k ? 520 : 2, C = k ? 3 : 300, at = size_in("row", 0, 2); at = at == 0 ? 0 : at == 1 ? N / 2 : N - 1; Layer l = make(dw::Softmax("s"), Shape{N, C}); Tensor x({N, C}); for (int n = 0; n < N; n++) for (int c = 0; c < C; c++) x.data()[n * C + c] = (float)((n * 5 + c * 3) % 11) / 4; float a = dw_sym_float("x"); dw_assume(a >= -3 && a <= 9 && a != 2.5f); x.data()[at * C + 1] = a; VF X = values(x);
  dw_exp_ieee(1); Tensor y = fwd(l, x, {N, C}); dw_exp_ieee(0); VF Y = values(y);
  for (int n = 0; n < N; n++) { float s = 0, m = X[n * C]; for (int d = 1; d < C; d++) if (m < X[n * C + d]) m = X[n * C + d]; for (int d = 0; d < C; d++) s += std::exp(X[n * C + d] - m); for (int c = 0; c < C; c++) dw_check_eqf(Y[n * C + c], std::exp(X[n * C + c] - m) / s, "softmax is exp(x_i)/sum_j exp(x_j) along axis 1"); }
}
ENTRY e_softmax_b_vast() {
  Vast v; int k = size_in("big", 0, 1), N = k ? 5000 : 2, C = k ? 3 : 300; Layer l = make(dw::Softmax("s"), Shape{N, C}); Tensor gy = sym_tensor("gy", {N, C}), gx = sym_tensor("gx", {N, C}), p = sym_tensor("p", {N, C}); VF G = values(gy), e = values(gx), P = values(p);
  for (int n = 0; n < N; n++) { float k = 0; for (int d = 0; d < C; d++) k += G[n * C + d] * P[n * C + d]; for (int c = 0; c < C; c++) e[n * C + c] += P[n * C + c] * (G[n * C + c] - k); }
  std::vector<Tensor> gi{gx}; l.cpu->backward({p}, {p}, {gy}, gi); check_all(gx, e, "softmax backward");
}
