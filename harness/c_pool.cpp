#include "common.hpp"
#include <cfloat>
typedef std::array<int, 2> A2;
struct G { int H, W; A2 k, p, s; int OH() const { return (H + 2 * p[0] - k[0]) / s[0] + 1; } int OW() const { return (W + 2 * p[1] - k[1]) / s[1] + 1; } bool ok() const { return H + 2 * p[0] >= k[0] && W + 2 * p[1] >= k[1] && p[0] < k[0] && p[1] < k[1]; } };
static std::vector<int> window(const G &g, int plane, int y, int x) {
  std::vector<int> r; for (int i = 0; i < g.k[0]; i++) for (int j = 0; j < g.k[1]; j++) { int a = y * g.s[0] - g.p[0] + i, b = x * g.s[1] - g.p[1] + j; if (a >= 0 && a < g.H && b >= 0 && b < g.W) r.push_back((plane * g.H + a) * g.W + b); } return r;
}
static void one(Layer &l, const G &g, int N, int C, bool bwd, int ranked) {
  int oh = g.OH(), ow = g.OW(); Shape is{N, C, g.H, g.W}, os{N, C, oh, ow};
  long topat = -1; Tensor x = ranked < 0 ? Tensor(is) : sym_tensor("x", is); if (ranked < 0) { size_t n = x.total(); for (size_t i = 0; i < n; i++) x.data()[i] = (float)(i * 100 % 661) - 700; float a = dw_sym_float("top"); dw_assume(a > 0 && a < 1000); x.data()[topat = (long)(ranked == -1 ? 0 : ranked == -2 ? n / 2 : ranked == -3 ? n - n / 8 : n - 1)] = a; }
  VF X = values(x); if (ranked >= 0) for (float v : X) dw_assume(v >= -FLT_MAX && v <= FLT_MAX);
  if (ranked > 0) { // a fixed (scrambled) strict order of the elements, so that no comparison is open
    size_t n = X.size(), st = 7; while (n % st == 0) st += 2; for (size_t i = 0; i + 1 < n; i++) dw_assume(X[(i * st + ranked) % n] + 1 < X[((i + 1) * st + ranked) % n]); }
  else if (bwd && !ranked) for (int q = 0; q < N * C; q++) for (int a = 0; a < oh; a++) for (int b = 0; b < ow; b++) { auto w = window(g, q, a, b); for (size_t i = 0; i < w.size(); i++) for (size_t j = 0; j < i; j++) dw_assume(X[w[i]] != X[w[j]]); }
  Tensor y = fwd(l, x, os); VF Y = values(y);
  Tensor gy = sym_tensor("gy", os), gx = sym_tensor("gx", is); VF GY = values(gy), ex = values(gx);
  for (int q = 0; q < N * C; q++) for (int a = 0; a < oh; a++) for (int b = 0; b < ow; b++) {
    int o = (q * oh + a) * ow + b; auto w = window(g, q, a, b); float m = X[w[0]];
    if (ranked < 0) { int best = w[0]; for (int i : w) if (best != topat && (i == topat || X[i] > X[best])) best = i; if (!bwd) dw_check_eqf(Y[o], X[best], "max pooling output is the largest input element of the window"); ex[best] += GY[o]; continue; }
    for (int i : w) m = pick(m < X[i], X[i], m);
    if (!bwd) dw_check_eqf(Y[o], m, "max pooling output is the largest input element of the window");
    for (int i : w) ex[i] += pick(X[i] == m, GY[o], 0);
  }
  check_all(x, X, "forward leaves the input alone");
  if (!bwd) return;
  std::vector<Tensor> gi{gx}; l.cpu->backward({x}, {y}, {gy}, gi);
  check_all(gx, ex, "max pooling backward adds each dy to the element that was the maximum"); check_all(gy, GY, "backward leaves the output gradient alone");
}
static Layer pool(const G &g, int N, int C) { dw_assume(g.ok()); Layer l = make(dw::MaxPooling(g.k, g.p, g.s, "p"), Shape{N, C, g.H, g.W}); dw_check(same(l.out, {N, C, g.OH(), g.OW()}), "output geometry"); return l; }
static G rows() { return {size_in("h", 1, DEEP(4, 6)), 1, {size_in("kh", 1, DEEP(3, 4)), 1}, {size_in("ph", 0, DEEP(2, 3)), 0}, {size_in("sh", 1, DEEP(3, 5)), 1}}; }
static G cols() { return {1, size_in("w", 1, DEEP(4, 6)), {1, size_in("kw", 1, DEEP(3, 4))}, {0, size_in("pw", 0, DEEP(2, 3))}, {1, size_in("sw", 1, DEEP(3, 5))}}; }
static void small(bool b) { G g = rows(); Layer l = pool(g, 1, 1); one(l, g, 1, 1, b, 0); }
static void small2(bool b) { G g = cols(); Layer l = pool(g, 1, 1); one(l, g, 1, 1, b, 0); }
static void sq(bool b) { G g{2, 3, {2, 2}, {size_in("p", 0, 1), size_in("p", 0, 1)}, {size_in("s", 1, 2), size_in("s", 1, 2)}}; dw_assume(g.OH() * g.OW() <= DEEP(4, 12)); Layer l = pool(g, 1, 1); one(l, g, 1, 1, b, 0); }
static void planes(bool b) { G g{2, 1, {2, 1}, {0, 0}, {1, 1}}; int N = size_in("n", 1, 3), C = size_in("c", 1, 2), N2 = size_in("n2", 1, DEEP(2, 3)); Layer l = pool(g, N, C); one(l, g, N, C, false, 0); one(l, g, N2, C, b, 0); }
static void large(bool b) { int v = size_in("order", 1, DEEP(3, 40)), p = size_in("p", 0, 1), s = size_in("s", 1, 2); G g{4, 5, {3, 2}, {p, p}, {s, 3 - s}}; Layer l = pool(g, 3, 2); one(l, g, 3, 2, b, v); }
ENTRY e_pool_rows() { small(false); } ENTRY e_pool_cols() { small2(false); } ENTRY e_pool_square() { sq(false); } ENTRY e_pool_planes() { planes(false); } ENTRY e_pool_large() { large(false); }
ENTRY e_pool_b_rows() { small(true); } ENTRY e_pool_b_cols() { small2(true); } ENTRY e_pool_b_square() { sq(true); } ENTRY e_pool_b_planes() { planes(true); } ENTRY e_pool_b_large() { large(true); }
ENTRY e_pool_order() { Layer l = make(dw::MaxPooling(A2{1, 1}, A2{0, 0}, A2{1, 1}, "c"), Shape{1, 1, 2, 2}); Tensor t = Tensor::zeros({1, 1, 2, 2}); std::vector<Tensor> gi{t}; dw_check(throws([&] { l.cpu->backward({t}, {t}, {t}, gi); }), "backward without a forward is refused"); }
// larger geometries, values in a fixed scrambled order
static void wide(bool b) { bool v = flag("vertical"); int n = size_in("n", 5, DEEP(7, 12)), k = size_in("k", 3, DEEP(5, 8)), p = size_in("p", 0, DEEP(2, 4)), s = size_in("s", 1, DEEP(4, 6)); G g{2, n, {2, k}, {0, p}, {1, s}}; if (v) g = G{n, 2, {k, 2}, {p, 0}, {s, 1}}; Layer l = pool(g, 1, 1); one(l, g, 1, 1, b, size_in("order", 1, DEEP(2, 5))); }
static void mixed(bool b) { G g{5, 4, {size_in("kh", 1, DEEP(3, 4)), size_in("kw", 1, DEEP(3, 4))}, {size_in("ph", 0, DEEP(1, 2)), size_in("pw", 0, DEEP(1, 2))}, {size_in("sh", 1, 3), size_in("sw", 1, 3)}}; Layer l = pool(g, 1, 1); one(l, g, 1, 1, b, 1); }
ENTRY e_pool_wide() { wide(false); } ENTRY e_pool_b_wide() { wide(true); } ENTRY e_pool_mixed() { mixed(false); } ENTRY e_pool_b_mixed() { mixed(true); }
ENTRY e_pool_attrs() {
  A2 k{1, 1}, p{size_in("p", -1, 1), size_in("p", -1, 0)}, s{size_in("s", -1, 1), size_in("s", -1, 1)}; dw_assume(s[0] != 0 && s[1] != 0);
  Layer l; try { l = make(dw::MaxPooling(k, p, s, "c"), Shape{1, 1, 5, 5}); } catch (...) { return; }
  bool ok = p[0] >= 0 && p[1] >= 0 && s[0] > 0 && s[1] > 0; if (ok) return;
  Tensor x = Tensor::zeros({1, 1, 5, 5}), y = Tensor::zeros({1, 1, 9, 9}); std::vector<Tensor> i{x}, o{y};
  dw_check(throws([&] { l.cpu->forward(i, o); }), "negative padding or non-positive stride is refused");
}
// global average pooling and addition
static void gap(const Shape &s, int steps) {
  Layer l = make(dw::GlobalAvgPooling("g"), s); int P = s[2] * s[3], Q = s[0] * s[1];
  for (int t = 0; t < steps; t++) {
    Tensor x = sym_tensor("x", s); VF X = values(x); Tensor y = fwd(l, x, {s[0], s[1], 1, 1});
    VF e(Q); for (int q = 0; q < Q; q++) { for (int i = 0; i < P; i++) e[q] += X[q * P + i]; e[q] /= P; }
    check_all(y, e, "global pooling averages every plane"); check_all(x, X, "forward leaves the input alone");
    Tensor gy = sym_tensor("gy", {s[0], s[1], 1, 1}), gx = sym_tensor("gx", s); VF G = values(gy), ex = values(gx);
    for (int q = 0; q < Q; q++) for (int i = 0; i < P; i++) ex[q * P + i] += G[q] / P;
    std::vector<Tensor> gi{gx}; l.cpu->backward({x}, {y}, {gy}, gi); check_all(gx, ex, "global pooling backward spreads dy evenly and adds it"); check_all(gy, G, "backward leaves the output gradient alone");
  }
}
ENTRY e_gap() { gap({size_in("n", 1, DEEP(2, 4)), size_in("c", 1, DEEP(3, 4)), size_in("h", 1, DEEP(3, 5)), size_in("w", 1, DEEP(3, 5))}, 2); }
ENTRY e_gap_large() { gap({5, 4, 3, 7}, 1); }
static void add(const Shape &s) {
  Layer l = make(dw::Add("a"), s, s);
  Tensor a = sym_tensor("a", s), b = sym_tensor("b", s), y(s); VF A = values(a), B = values(b); dw_sym_floats("garbage", y.data(), y.total());
  std::vector<Tensor> in{a, b}, out{y}; l.cpu->forward(in, out); VF e(A.size()); for (size_t i = 0; i < e.size(); i++) e[i] = A[i] + B[i];
  check_all(y, e, "Add is the element-wise sum"); check_all(a, A, "forward leaves the input alone"); check_all(b, B, "forward leaves the input alone");
  Tensor gy = sym_tensor("gy", s), g1 = sym_tensor("g1", s), g2 = sym_tensor("g2", s); VF G = values(gy), e1 = values(g1), e2 = values(g2);
  for (size_t i = 0; i < G.size(); i++) { e1[i] += G[i]; e2[i] += G[i]; }
  std::vector<Tensor> gi{g1, g2}; l.cpu->backward(in, out, {gy}, gi);
  check_all(g1, e1, "Add backward adds dy to the first gradient"); check_all(g2, e2, "Add backward adds dy to the second gradient"); check_all(gy, G, "backward leaves the output gradient alone");
  Tensor gs = sym_tensor("gs", s); VF es = values(gs); for (size_t i = 0; i < G.size(); i++) es[i] += 2 * G[i];
  std::vector<Tensor> same2{gs, gs}; l.cpu->backward({a, a}, out, {gy}, same2); check_all(gs, es, "adding a tensor to itself passes dy twice");
}
ENTRY e_add() { int r = size_in("rank", 1, 4); Shape s; for (int i = 0; i < r; i++) s.push_back(size_in("d", 1, DEEP(2, 3))); add(s); }
ENTRY e_add_large() { add({7, 11}); }
ENTRY e_gap_huge() { gap(flag("area") ? Shape{1, 2, 17, 19} : Shape{3, 37, 2, 1}, 1); }
ENTRY e_add_huge() { add({5, 131}); }
static void bigpool(bool b) { bool a = flag("area"); G g = a ? G{17, 9, {2, 2}, {0, 0}, {2, 2}} : G{2, 3, {2, 2}, {0, 0}, {1, 1}}; int N = a ? 1 : 2, C = a ? 1 : 17; Layer l = pool(g, N, C); one(l, g, N, C, b, 1); }
ENTRY e_pool_big() { bigpool(false); } ENTRY e_pool_b_big() { bigpool(true); }
static void vastpool(bool b) { Vast v; int k = size_in("big", 0, 3); G g = k == 0 ? G{70, 66, {2, 2}, {0, 0}, {2, 2}} : k == 1 ? G{35, 40, {3, 3}, {1, 1}, {1, 1}} : G{2, 3, {2, 2}, {0, 0}, {1, 1}}; int N = k == 2 ? 5000 : 1, C = k == 3 ? 5000 : 1; Layer l = pool(g, N, C); one(l, g, N, C, b, 0); }
ENTRY e_pool_vast() { vastpool(false); } ENTRY e_pool_b_vast() { vastpool(true); }
ENTRY e_gap_vast() { Vast v; int k = size_in("big", 0, 2); gap(k == 0 ? Shape{1, 2, 70, 66} : k == 1 ? Shape{5000, 1, 2, 2} : Shape{1, 5000, 2, 2}, 1); }
ENTRY e_add_vast() { Vast v; add({2, 11003}); }
// windows of more than 256 elements
static void bigwin(bool b) { int k = size_in("big", 0, 3), at = size_in("at", 1, 4); G g = k == 0 ? G{17, 19, {17, 18}, {0, 0}, {1, 1}} : k == 1 ? G{1, 301, {1, 300}, {0, 1}, {1, 1}} : k == 2 ? G{301, 1, {300, 1}, {1, 0}, {1, 1}} : G{20, 33, {20, 33}, {0, 0}, {1, 1}}; Layer l = pool(g, 1, 1); one(l, g, 1, 1, b, -at); }
ENTRY e_pool_window() { bigwin(false); } ENTRY e_pool_b_window() { bigwin(true); }
