#include "common.hpp"
#include <deepworks/loss.hpp>
#include <deepworks/metrics.hpp>
static void ce(dw::loss::CrossEntropyLoss &L, int N, int C, bool split, bool fwd_, bool bwd) {
  Tensor p = sym_tensor("p", {N, C}), t({N, 1}); VF P = values(p); for (float v : P) dw_assume(v >= 1e-37f && v <= 1e6f);
  std::vector<int> lab; for (int n = 0; n < N; n++) { int k = split ? size_in("label", 0, C - 1) : (n * 7 + 3) % C; lab.push_back(k); t.data()[n] = k; } VF T = values(t);
  if (fwd_) {
    float got = L.forward(p, t), e = 0; for (int n = 0; n < N; n++) e -= std::log(P[n * C + lab[n]]);
    dw_check_eqf(got, e / N, "the loss is the mean of -log p[label]");
    check_all(p, P, "the loss leaves the predictions alone"); check_all(t, T, "the loss leaves the labels alone");
  }
  if (!bwd) return;
  Tensor g = sym_tensor("g", {N, C}); VF eg(N * C); for (int n = 0; n < N; n++) eg[n * C + lab[n]] = -1 / (N * P[n * C + lab[n]]);
  L.backward(p, t, g); check_all(g, eg, "the loss gradient is -1/(N p[label]) at the label and 0 elsewhere");
  check_all(p, P, "backward leaves the predictions alone"); check_all(t, T, "backward leaves the labels alone");
}
ENTRY e_ce() { dw::loss::CrossEntropyLoss L; int n = size_in("n", 1, DEEP(3, 4)), c = size_in("c", 1, DEEP(3, 4)); ce(L, n, c, true, true, true); }
ENTRY e_ce_reuse() { dw::loss::CrossEntropyLoss L; int a = size_in("n", 1, DEEP(3, 6)), c = size_in("c", 1, DEEP(3, 6)), b = size_in("n2", 1, DEEP(3, 6)), c2 = size_in("c2", 1, DEEP(3, 6)); ce(L, a, c, false, true, flag("b1")); ce(L, b, c2, false, true, true); }
ENTRY e_ce_backonly() { dw::loss::CrossEntropyLoss L; ce(L, 2, 2, true, false, true); ce(L, 1, 3, true, false, true); ce(L, 2, 2, true, true, false); }
ENTRY e_ce_large() { dw::loss::CrossEntropyLoss L; ce(L, 33, 11, false, true, true); ce(L, 64, 3, false, true, true); }
ENTRY e_ce_huge() { dw::loss::CrossEntropyLoss L; if (flag("tall")) ce(L, 131, 3, false, true, true); else ce(L, 3, 131, false, true, true); }
ENTRY e_ce_classes() { dw::loss::CrossEntropyLoss L; int N = 1, C = 1030; Tensor p = Tensor::constant({N, C}, 0.5f), t({N, 1}), g({N, C}); int k = size_in("label", 0, 5); static const int K[] = {0, 127, 128, 255, 256, 1029}; t.data()[0] = K[k]; float v = dw_sym_float("p"); dw_assume(v >= 1e-37f && v <= 1e6f); p.data()[K[k]] = v;
  dw_check_eqf(L.forward(p, t), -std::log(v), "the loss is the mean of -log p[label]"); VF e(C); e[K[k]] = -1 / v; dw_sym_floats("garbage", g.data(), 3); L.backward(p, t, g); check_all(g, e, "the loss gradient is -1/(N p[label]) at the label and 0 elsewhere"); }
ENTRY e_ce_reject() {
  dw::loss::CrossEntropyLoss L; Tensor p = Tensor::constant({2, 2}, 0.5f), g = Tensor::zeros({2, 2}); int w = size_in("case", 0, 6);
  Shape ps{2, 2}, ts{2, 1}, gs{2, 2}; if (w == 1) ts = {2}; if (w == 2) ts = {1, 1}; if (w == 3) ts = {2, 2}; if (w == 4) ps = {4}; if (w == 5) ps = {2, 2, 1}; if (w == 6) ts = {1, 2};
  Tensor pp = Tensor::constant(ps, 0.5f), t = Tensor::zeros(ts), gg = Tensor::zeros(ps);
  dw_check(throws([&] { L.forward(pp, t); }) == (w != 0), "forward refuses wrong shapes"); dw_check(throws([&] { L.backward(pp, t, gg); }) == (w != 0), "backward refuses wrong shapes");
  Tensor g2 = Tensor::zeros(flag("g") ? Shape{2, 1} : Shape{2, 2, 1}), t2 = Tensor::zeros({2, 1}); dw_check(throws([&] { L.backward(p, t2, g2); }), "backward refuses a gradient of another shape");
}
// accuracy: the share of rows whose largest score is at the label (no ties)
static int best(const VF &v, int r, int C) { int b = 0; for (int c = 1; c < C; c++) if (v[r * C + b] < v[r * C + c]) b = c; return b; }
static void distinct(const VF &v, int N, int C) { for (int r = 0; r < N; r++) for (int i = 0; i < C; i++) for (int j = 0; j < i; j++) dw_assume(v[r * C + i] != v[r * C + j]); }
ENTRY e_acc() {
  int N = size_in("n", 1, DEEP(3, 4)), C = size_in("c", 1, 3), rank = size_in("label_rank", 1, 2); Tensor p = sym_tensor("p", {N, C}), t(rank == 1 ? Shape{N} : Shape{N, 1}); VF P = values(p); distinct(P, N, C); float hit = 0;
  for (int n = 0; n < N; n++) { int k = size_in("label", 0, C - 1); t.data()[n] = k; } VF T = values(t);
  float a = dw::metric::accuracy(p, t); for (int n = 0; n < N; n++) hit += best(P, n, C) == (int)T[n];
  dw_check_eqf(a, hit / N, "accuracy is the share of rows whose largest score is at the label"); check_all(p, P, "inputs unchanged"); check_all(t, T, "inputs unchanged");
}
ENTRY e_acc_hot() {
  int N = size_in("n", 1, DEEP(2, 3)), C = size_in("c", 1, DEEP(3, 4)); Tensor p = sym_tensor("p", {N, C}), t = Tensor::zeros({N, C}); VF P = values(p); distinct(P, N, C); float hit = 0; std::vector<int> lab;
  for (int n = 0; n < N; n++) { int k = size_in("label", 0, C - 1); lab.push_back(k); t.data()[n * C + k] = 1; } VF T = values(t);
  float a = dw::metric::accuracyOneHot(p, t); for (int n = 0; n < N; n++) hit += best(P, n, C) == lab[n];
  dw_check_eqf(a, hit / N, "one-hot accuracy is the share of rows whose largest score is at the label"); check_all(p, P, "inputs unchanged"); check_all(t, T, "inputs unchanged");
}
static void acc_ranked(int N, int C) { Tensor p = sym_tensor("p", {N, C}), t({N, 1}), h = Tensor::zeros({N, C}); VF P = values(p); float hit = 0, hh = 0;
  for (int n = 0; n < N; n++) { for (int c = 0; c + 1 < C; c++) dw_assume(P[n * C + (7 * c + n) % C] + 1 < P[n * C + (7 * (c + 1) + n) % C]); int win = (7 * (C - 1) + n) % C; long k = n % 11 == 5 ? dw_sym_int("label", 0, C - 1) : (n * 3 + 1) % C; t.data()[n] = k; hit += pick(k == win, 1.f, 0.f); h.data()[n * C + (n % 4 ? win : n % C)] = 1; hh += (n % 4 ? win : n % C) == win; }
  dw_check_eqf(dw::metric::accuracy(p, t), hit / N, "accuracy is the share of rows whose largest score is at the label"); dw_check_eqf(dw::metric::accuracyOneHot(p, h), hh / N, "one-hot accuracy is the share of rows whose largest score is at the label");
}
ENTRY e_acc_large() { acc_ranked(43, 6); }
ENTRY e_acc_huge() { if (flag("tall")) acc_ranked(131, 2); else acc_ranked(12, 67); }
ENTRY e_acc_classes() { int C = 300; static const int K[] = {0, 43, 255, 256, 299}; int w = K[size_in("best", 0, 4)], k = K[size_in("label", 0, 4)]; Tensor p = Tensor::zeros({1, C}), t = Tensor::zeros({1}), h = Tensor::zeros({1, C}); for (int c = 0; c < C; c++) p.data()[c] = -(float)c; float v = dw_sym_float("p"); dw_assume(v > 1); p.data()[w] = v; t.data()[0] = k; h.data()[k] = 1;
  dw_check_eqf(dw::metric::accuracy(p, t), k == w, "accuracy is the share of rows whose largest score is at the label"); dw_check_eqf(dw::metric::accuracyOneHot(p, h), k == w, "one-hot accuracy is the share of rows whose largest score is at the label"); }
ENTRY e_acc_rows() { int N = 66001; Tensor p = Tensor::zeros({N, 2}), t = Tensor::zeros({N}); long hit = 0; for (int n = 0; n < N; n++) { p.data()[2 * n + n % 2] = 1; bool ok = n % 7 != 3; t.data()[n] = ok ? n % 2 : 1 - n % 2; hit += ok; } t.data()[66000] = dw_sym_int("label", 0, 1); hit -= 66000 % 7 != 3; float e = hit + pick(t.data()[66000] == 1, 1, 0); dw_check_eqf(dw::metric::accuracy(p, t), e / N, "accuracy is the share of rows whose largest score is at the label"); }
ENTRY e_acc_reject() {
  int w = size_in("case", 0, 4); Shape ps{2, 3}, ts{2}; if (w == 1) ts = {3}; if (w == 2) ts = {1}; if (w == 3) ps = {6}; if (w == 4) ps = {2, 3, 1}; Tensor p = Tensor::zeros(ps), t = Tensor::zeros(ts);
  dw_check(throws([&] { dw::metric::accuracy(p, t); }) == (w != 0), "accuracy refuses wrong shapes");
  int v = size_in("case2", 0, 3); Shape hs{2, 3}, qs{2, 3}; if (v == 1) hs = {3, 2}; if (v == 2) hs = {2}; if (v == 3) { hs = {6}; qs = {6}; } Tensor a = Tensor::zeros(qs), b = Tensor::zeros(hs); dw_check(throws([&] { dw::metric::accuracyOneHot(a, b); }) == (v != 0), "one-hot accuracy refuses wrong shapes");
}
ENTRY e_ce_vast() { Vast v(4); dw::loss::CrossEntropyLoss L; int k = size_in("big", 0, 2); if (k == 2) ce(L, 300, 230, false, true, true); else if (k) ce(L, 5000, 3, false, true, true); else ce(L, 70, 130, false, true, true); }
