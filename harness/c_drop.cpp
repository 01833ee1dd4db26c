#include "common.hpp"
#include <deepworks/dataloader.hpp>
#include <deepworks/initializers.hpp>
static float prob() { float p = dw_sym_float("p"); dw_assume(p >= 0 && p <= 0.99f); return p; }
// one training step: every output is 0 or x/(1-p), and the gradient passes exactly where the value did
static void step(Layer &l, const Shape &s, float p, bool train, bool bwd) {
  l.train(train); Tensor x = sym_tensor("x", s); VF X = values(x); for (float v : X) dw_assume(v != 0 && v <= 100 && v >= -100);
  Tensor y = fwd(l, x, s); VF Y = values(y); std::vector<int> kept;
  check_all(x, X, "forward leaves the input alone");
  for (size_t i = 0; i < X.size(); i++) {
    bool k = train ? Y[i] != 0 : true; kept.push_back(k);
    if (k) dw_check_eqf(Y[i], train ? X[i] / (1 - p) : X[i], train ? "training: a kept element is x/(1-p), a dropped one 0" : "evaluation: dropout is the identity");
    else dw_check(p > 0, "nothing is dropped when p is 0");
  }
  if (!bwd) return;
  Tensor gy = sym_tensor("gy", s), gx = sym_tensor("gx", s); VF G = values(gy), e = values(gx);
  for (size_t i = 0; i < G.size(); i++) e[i] += kept[i] ? (train ? G[i] / (1 - p) : G[i]) : 0;
  std::vector<Tensor> gi{gx}; l.cpu->backward({x}, {y}, {gy}, gi);
  check_all(gx, e, train ? "dropout backward adds dy/(1-p) where the element was kept, nothing where it was dropped" : "evaluation: dropout backward adds dy");
  check_all(gy, G, "backward leaves the output gradient alone");
}
ENTRY e_drop() { float p = prob(); int n1 = size_in("n1", 1, DEEP(3, 4)), n2 = size_in("n2", 1, DEEP(3, 5)); bool t1 = flag("train1"), t2 = flag("train2"); Layer l = make(dw::Dropout(p, "d"), Shape{2, 1}); step(l, {n1, 1}, p, t1, false); step(l, {n2, 1}, p, t2, true); }
ENTRY e_drop4d() { float p = prob(); Layer l = make(dw::Dropout(p, "d"), Shape{1, 2, 1, 2}); step(l, {1, 2, 1, 2}, p, true, true); }
ENTRY e_drop_modes() { float p = prob(); Layer l = make(dw::Dropout(p, "d"), Shape{2, 1}); for (int t = 0; t < DEEP(2, 3); t++) step(l, {2, 1}, p, flag("train"), flag("bwd")); step(l, {1, 1}, p, flag("train"), true); }
ENTRY e_drop_large() { float p = prob(); Layer l = make(dw::Dropout(p, "d"), Shape{40, 3}); Shape s{40, 3}; l.train(false); Tensor x = sym_tensor("x", s); VF X = values(x); Tensor y = fwd(l, x, s); check_all(y, X, "evaluation: dropout is the identity"); Tensor gy = sym_tensor("gy", s), gx = sym_tensor("gx", s); VF G = values(gy), e = values(gx); for (size_t i = 0; i < G.size(); i++) e[i] += G[i]; std::vector<Tensor> gi{gx}; l.cpu->backward({x}, {y}, {gy}, gi); check_all(gx, e, "evaluation: dropout backward adds dy"); }
// p = 0: no draw can drop anything, at any size
ENTRY e_drop_none() { Layer l = make(dw::Dropout(0.f, "d"), Shape{20, 3}); Shape s{20, 3}; l.train(true); Tensor x = sym_tensor("x", s); VF X = values(x); Tensor y = fwd(l, x, s); check_all(y, X, "nothing is dropped when p is 0"); }
// the probability: with one uniform draw per element, the dropped draws are exactly [0,p) or exactly [1-p,1)
ENTRY e_drop_rate() {
  float p = prob(); Layer l = make(dw::Dropout(p, "d"), Shape{1, 1}); bool k[2]; float u[2];
  for (int t = 0; t < 2; t++) {
    Tensor x = sym_tensor("x", {1, 1}); dw_assume(x.data()[0] > 1 && x.data()[0] < 2); int b = dw_ndraw; Tensor y = fwd(l, x, {1, 1});
    k[t] = y.data()[0] != 0; if (dw_ndraw != b + 1) return; u[t] = dw_draw[b];
  }
  bool low = k[0] == (u[0] >= p) && k[1] == (u[1] >= p), high = k[0] == (u[0] < 1 - p) && k[1] == (u[1] < 1 - p);
  bool edge = u[0] == p || u[1] == p || u[0] == 1 - p || u[1] == 1 - p;
  dw_check(low || high || edge, "an element is dropped with probability p");
  if (k[0] && !k[1]) dw_reach("kept, then dropped"); if (!k[0] && k[1]) dw_reach("dropped, then kept");
}
ENTRY e_drop_spread() { // each element has its own draw
  Layer l = make(dw::Dropout(0.5f, "d"), Shape{2, 1}); Tensor x = Tensor::constant({2, 1}, 1.f); Tensor y = fwd(l, x, {2, 1}); bool a = y.data()[0] != 0, b = y.data()[1] != 0;
  if (a && !b) dw_reach("first kept, second dropped"); if (!a && b) dw_reach("first dropped, second kept"); if (a && b) dw_reach("both kept"); if (!a && !b) dw_reach("both dropped");
}
// ---- data loader
struct Set : dw::IDataset {
  int S, calls = 0, bad = 0; VF D, L; std::vector<int> got;
  Set(int s, bool fixed = false) : S(s), D(s * 2), L(s) { if (fixed) for (int i = 0; i < s; i++) { D[2 * i] = 10 * i + 1; D[2 * i + 1] = -i - 0.5f; L[i] = 7 * i + 3; } else if (s) { dw_sym_floats("sample", D.data(), D.size()); dw_sym_floats("label", L.data(), L.size()); } }
  size_t size() override { return S; }
  OutShape shape() override { return {Shape{2}, Shape{1}}; }
  void pull(int i, Tensor &X, Tensor &y) override {
    i = (int)dw_split(i); calls++; dw_check(i >= 0 && i < S, "the dataset is asked for an existing sample only"); got.push_back(i);
    dw_check(same(X.shape(), {2}) && same(y.shape(), {1}), "the dataset receives slices of its own shapes");
    X.data()[0] = D[2 * i]; X.data()[1] = D[2 * i + 1]; y.data()[0] = L[i];
  }
};
static void epochs(int S, int B, bool shuffle, int n) {
  auto d = std::make_shared<Set>(S, shuffle); dw::DataLoader ld(d, B, shuffle); Tensor X, y; if (flag("preallocated")) { X.allocate({B, 2}); y.allocate({B, 1}); }
  for (int e = 0; e < n; e++) {
    for (int k = 0; k < S / B; k++) {
      d->got.clear(); dw_check(ld.pull(X, y), "a full batch is available");
      dw_check(same(X.shape(), {B, 2}) && same(y.shape(), {B, 1}), "a batch has shape [batch, sample shape]");
      dw_check((int)d->got.size() == B, "one sample per row");
      for (int r = 0; r < B; r++) {
        int i = d->got[r];
        if (!shuffle) dw_check(i == k * B + r, "without shuffling the samples come in order");
        for (int q = 0; q < r; q++) dw_check(d->got[q] != i, "a batch has no sample twice");
      }
      // the row content: every sample of the batch sits in one row, with its own label; in order when not shuffled
      if (!shuffle) for (int r = 0; r < B; r++) { int i = d->got[r]; dw_check_eqf(X.data()[2 * r], d->D[2 * i], "row content"); dw_check_eqf(X.data()[2 * r + 1], d->D[2 * i + 1], "row content"); dw_check_eqf(y.data()[r], d->L[i], "row label"); }
      else for (int r = 0; r < B; r++) { bool any = false; for (int q = 0; q < B; q++) { int i = d->got[q]; any |= X.data()[2 * r] == d->D[2 * i] && X.data()[2 * r + 1] == d->D[2 * i + 1] && y.data()[r] == d->L[i]; } dw_check(any, "a row holds a sample of the batch with its own label"); }
      if (shuffle && B == 1 && S == 3) { if (d->got[0] == 0) dw_reach("first sample drawn"); if (d->got[0] == 2) dw_reach("last sample drawn"); }
    }
    int c = d->calls; dw_check(!ld.pull(X, y), "after the last full batch pull reports the end of the epoch"); dw_check(d->calls == c, "an incomplete batch is skipped");
  }
}
ENTRY e_seq() { epochs(size_in("size", 0, DEEP(7, 16)), size_in("batch", 1, DEEP(4, 9)), false, DEEP(3, 4)); }
ENTRY e_seq_large() { epochs(size_in("size", DEEP(37, 30), DEEP(40, 70)), size_in("batch", DEEP(5, 3), DEEP(10, 33)), false, 2); }
ENTRY e_shuffle() { int S = size_in("size", 0, DEEP(4, 5)), B = size_in("batch", 1, DEEP(3, 5)); dw_draw_budget = DEEP(4, 6); epochs(S, B, true, 1); }
ENTRY e_shuffle2() { dw_draw_budget = DEEP(6, 8); epochs(size_in("size", 1, DEEP(2, 3)), 1, true, 2); }
ENTRY e_loader_shape() {
  auto d = std::make_shared<Set>(4); dw::DataLoader ld(d, 2, flag("shuffle")); Shape sx{2, 2}, sy{2, 1}; int w = size_in("which", 0, 4);
  if (w == 1) sx = {1, 2}; if (w == 2) sx = {2, 3}; if (w == 3) sy = {3, 1}; if (w == 4) sx = {3, 2}; dw_draw_budget = 4;
  Tensor X(sx), y(sy); bool t = throws([&] { ld.pull(X, y); }); dw_check(t == (w != 0), "a batch tensor of the wrong shape is refused");
}
// other sample shapes, many samples, many epochs
struct Wide : dw::IDataset {
  Shape xs, ys; int S; std::vector<int> got; Wide(const Shape &a, const Shape &b, int s) : xs(a), ys(b), S(s) {}
  size_t size() override { return S; }
  OutShape shape() override { return {xs, ys}; }
  static float val(int i, int k) { return (float)(i * 64 + k) + 0.25f; }
  void pull(int i, Tensor &X, Tensor &y) override { i = (int)dw_split(i); dw_check(i >= 0 && i < S, "the dataset is asked for an existing sample only"); got.push_back(i); dw_check(same(X.shape(), xs) && same(y.shape(), ys), "the dataset receives slices of its own shapes"); for (int k = 0; k < prod(xs); k++) X.data()[k] = val(i, k); for (int k = 0; k < prod(ys); k++) y.data()[k] = -val(i, k); }
};
static void wide_epochs(const Shape &a, const Shape &b, int S, int B, int n) {
  auto d = std::make_shared<Wide>(a, b, S); dw::DataLoader ld(d, B, false); Tensor X, y; int pa = prod(a), pb = prod(b);
  for (int e = 0; e < n; e++) {
    for (int k = 0; k < S / B; k++) { dw_check(ld.pull(X, y), "a full batch is available"); Shape ex{B}, ey{B}; ex.insert(ex.end(), a.begin(), a.end()); ey.insert(ey.end(), b.begin(), b.end()); dw_check(same(X.shape(), ex) && same(y.shape(), ey), "a batch has shape [batch, sample shape]"); for (int r = 0; r < B; r++) { for (int q = 0; q < pa; q++) dw_check(X.data()[r * pa + q] == Wide::val(k * B + r, q), "row content"); for (int q = 0; q < pb; q++) dw_check(y.data()[r * pb + q] == -Wide::val(k * B + r, q), "row label"); } }
    dw_check(!ld.pull(X, y), "after the last full batch pull reports the end of the epoch");
  }
  dw_check((int)d->got.size() == n * (S / B) * B, "one sample per row");
}
ENTRY e_loader_wide() { int w = size_in("shape", 0, 3); static const Shape A[] = {{2, 3}, {3, 2, 2}, {1}, {4}}, Bs[] = {{1}, {2}, {3}, {2, 2}}; wide_epochs(A[w], Bs[w], size_in("size", 1, DEEP(5, 9)), size_in("batch", 1, DEEP(3, 4)), 3); }
ENTRY e_loader_many() { int B = size_in("batch", 0, 3); static const int Bs[] = {1, 16, 64, 70}; wide_epochs({1}, {1}, DEEP(133, 300), Bs[B], 2); }
ENTRY e_loader_epochs() { wide_epochs({1}, {1}, 5, 2, DEEP(35, 130)); }
// every draw on a given side, at a size where no path split could follow
ENTRY e_drop_wide() {
  float p = prob(); dw_assume(p >= 0.1f && p <= 0.9f); int N = 21, C = 3, n = N * C; Layer l = make(dw::Dropout(p, "d"), Shape{N, C}); Shape s{N, C}; l.train(true); Tensor x = sym_tensor("x", s); VF X = values(x); for (float v : X) dw_assume(v > 0.5f && v < 2); int pat = size_in("pattern", 2, 4);
  dw_draw_side = pat; Tensor y = fwd(l, x, s); dw_draw_side = 0; VF Y = values(y); float k = 1 / (1 - p); std::vector<int> kept;
  for (int i = 0; i < n; i++) { bool z = Y[i] == 0; kept.push_back(!z); dw_check_eqf(Y[i], z ? 0.f : X[i] * k, "training: a kept element is x/(1-p), a dropped one 0"); }
  Tensor gy = sym_tensor("gy", s), gx = sym_tensor("gx", s); VF G = values(gy), e = values(gx); for (int i = 0; i < n; i++) if (kept[i]) e[i] += G[i] * k;
  std::vector<Tensor> gi{gx}; l.cpu->backward({x}, {y}, {gy}, gi); check_all(gx, e, "dropout backward adds dy/(1-p) where the element was kept, nothing where it was dropped");
}
ENTRY e_shuffle_big() { dw_draw_budget = 2; int S = DEEP(17, 30), B = size_in("batch", 1, 2); auto d = std::make_shared<Set>(S, true); dw::DataLoader ld(d, B, true); Tensor X, y; dw_check(ld.pull(X, y), "a full batch is available"); dw_check((int)d->got.size() == B, "one sample per row"); for (int r = 0; r < B; r++) { bool any = false; for (int i : d->got) any |= X.data()[2 * r] == d->D[2 * i] && X.data()[2 * r + 1] == d->D[2 * i + 1] && y.data()[r] == d->L[i]; dw_check(any, "a row holds a sample of the batch with its own label"); } if (B == 2) dw_check(d->got[0] != d->got[1] && X.data()[0] != X.data()[2], "a batch has no sample twice"); if (B == 1 && d->got[0] == 0) dw_reach("first of many drawn"); if (B == 1 && d->got[0] == S - 1) dw_reach("last of many drawn"); }
ENTRY e_drop_vast() { // evaluation, and training at rate 0
  Vast v; bool train = flag("train"); Shape s = train ? Shape{301, 3} : Shape{3, 22001}; Layer l = make(dw::Dropout(train ? 0.f : 0.5f, "d"), s); l.train(train); Tensor x = sym_tensor("x", s); VF X = values(x); bounded(X, 100); Tensor y = fwd(l, x, s); check_all(y, X, train ? "nothing is dropped when p is 0" : "evaluation: dropout is the identity");
  Tensor gy = sym_tensor("gy", s), gx = sym_tensor("gx", s); VF G = values(gy), e = values(gx); for (size_t i = 0; i < G.size(); i++) e[i] += G[i]; std::vector<Tensor> gi{gx}; l.cpu->backward({x}, {y}, {gy}, gi); check_all(gx, e, "dropout backward adds dy");
}
ENTRY e_loader_vast() { int w = size_in("shape", 0, 2); if (w == 2) wide_epochs({1}, {1}, 66005, DEEP(1100, 2100), 1); else if (w) wide_epochs({DEEP(1030, 3000)}, {2}, 5, 2, 2); else wide_epochs({1}, {1}, DEEP(300, 700), size_in("batch", 0, 1) ? 260 : 7, 2); }
// a later batch, a later epoch and another loader draw again
ENTRY e_shuffle_again() {
  bool other = flag("other"), ep = flag("epoch"); auto d = std::make_shared<Set>(2, true); dw::DataLoader ld(d, 1, true), l2(d, 1, true); Tensor X, y;
  dw_check(ld.pull(X, y), "a full batch is available"); int a = d->got.back(); if (ep && !other) { ld.pull(X, y); dw_check(!ld.pull(X, y), "the epoch ends"); } dw_check((other ? l2 : ld).pull(X, y), "a full batch is available"); int b = d->got.back();
  if (a == 0 && b == 1) dw_reach(other ? "another loader draws again" : ep ? "another epoch draws again" : "another batch draws again");
}
ENTRY e_drop_again() { // the next call, and another layer, have their own draws
  bool other = flag("other"); Layer l = make(dw::Dropout(0.5f, "d"), Shape{1, 1}), k = make(dw::Dropout(0.5f, "e"), Shape{1, 1}); Tensor x = Tensor::constant({1, 1}, 1.f); bool a = fwd(l, x, {1, 1}).data()[0] != 0, b = fwd(other ? k : l, x, {1, 1}).data()[0] != 0;
  if (a && !b) dw_reach(other ? "another layer draws again" : "another call draws again");
}
