#include "common.hpp"
#include <deepworks/optimizer.hpp>
static const char *NM[] = {"a.weight", "b.bias", "c"};
struct Params { dw::ParamMap m; std::vector<VF> w; Params(const std::vector<Shape> &s, bool frozen = false) { for (size_t i = 0; i < s.size(); i++) { Tensor t = sym_tensor("w", s[i]); w.push_back(values(t)); m.emplace(NM[i], dw::Parameter(std::move(t))); } if (frozen && flag("frozen_at_first")) m.at(NM[0]).train(false); }
  dw::Parameter &p(int i) { return m.at(NM[i]); } };
enum { SGD, MOM, ADAM };
template <class O> static void go(Params &P, O &o, int kind, int steps, bool frozen, float lr, float g1, float b1, float b2, float eps, int t0, bool plain = false) {
  int n = P.w.size(); std::vector<VF> v, m; for (auto &w : P.w) { v.emplace_back(w.size()); m.emplace_back(w.size()); } double q1 = 1, q2 = 1; if (plain) { q1 = std::pow((double)b1, t0); q2 = std::pow((double)b2, t0); } else for (int i = 0; i < t0; i++) { q1 *= b1; q2 *= b2; }
  for (int t = 0; t < steps; t++) {
    if (t == 1) { lr = dw_sym_float("lr2"); dw_assume(lr >= (plain ? 0.5f : -10) && lr <= (plain ? 1 : 10)); o.set_lr(lr); }
    dw_check_eqf(o.get_lr(), lr, "get_lr returns the learning rate in force");
    std::vector<VF> G; std::vector<bool> tr;
    for (int i = 0; i < n; i++) { bool f = frozen ? flag("trainable") : true; P.p(i).train(f); tr.push_back(f); Tensor g = P.p(i).grad(); if (plain) for (size_t k = 0; k < g.total(); k++) g.data()[k] = kind == ADAM ? -0.75f : (float)((int)(t * 5 + k * 3) % 7 - 3) / 4; else dw_sym_floats("g", g.data(), g.total()); G.push_back(values(g)); }
    o.step(); q1 *= b1; q2 *= b2;
    for (int i = 0; i < n; i++) {
      for (size_t k = 0; k < P.w[i].size() && tr[i]; k++) {
        float g = G[i][k], &w = P.w[i][k];
        if (kind == SGD) w -= lr * g;
        if (kind == MOM) { v[i][k] = g1 * v[i][k] + lr * g; w -= v[i][k]; }
        if (kind == ADAM) { m[i][k] = b1 * m[i][k] + (1 - b1) * g; v[i][k] = b2 * v[i][k] + (1 - b2) * g * g; w -= lr * (m[i][k] / (1 - q1)) / (std::sqrt(v[i][k] / (1 - q2)) + eps); }
      }
      if (plain && kind == ADAM) for (size_t k = 0; k < P.w[i].size(); k++) { float d = P.p(i).data().data()[k] - P.w[i][k]; dw_check(d < 0.001f && d > -0.001f, "a trainable parameter follows the update rule"); } // constants of the two sides differ by rounding
      else check_all(P.p(i).data(), P.w[i], tr[i] ? "a trainable parameter follows the update rule" : "a frozen parameter does not change");
      check_all(P.p(i).grad(), G[i], "a step leaves the gradients alone"); dw_check(P.p(i).is_trainable() == tr[i], "a step leaves the trainable flags alone");
    }
  }
}
static float sym(const char *n, float lo, float hi) { float f = dw_sym_float(n); dw_assume(f >= lo && f <= hi); return f; }
static const std::vector<Shape> TWO{{2}, {2}}, ONE{{1}}, BIG{{37}, {3, 5, 2}, {4}}, HUGE_{{301}, {3, 5, 2}, {4}};
ENTRY e_sgd() { Params P(TWO, true); float lr = sym("lr", -10, 10); dw::optimizer::SGD o(P.m, lr); go(P, o, SGD, DEEP(3, 5), true, lr, 0, 0, 0, 0, 0); }
ENTRY e_sgd_large() { Params P(BIG); float lr = sym("lr", -10, 10); dw::optimizer::SGD o(P.m, lr); go(P, o, SGD, 2, false, lr, 0, 0, 0, 0, 0); }
ENTRY e_mom() { Params P(TWO, true); float lr = sym("lr", -10, 10), g = sym("gamma", 0, 1); dw::optimizer::SGDMomentum o(P.m, lr, g); go(P, o, MOM, DEEP(3, 5), true, lr, g, 0, 0, 0, 0); }
ENTRY e_mom_default() { Params P(ONE); float lr = sym("lr", -10, 10); dw::optimizer::SGDMomentum o(P.m, lr); go(P, o, MOM, DEEP(5, 16), false, lr, 0.9f, 0, 0, 0, 0); }
ENTRY e_mom_large() { Params P(BIG); float lr = sym("lr", -10, 10), g = sym("gamma", 0, 1); dw::optimizer::SGDMomentum o(P.m, lr, g); go(P, o, MOM, 2, false, lr, g, 0, 0, 0, 0); }
ENTRY e_adam() { Params P(TWO, true); float lr = sym("lr", -10, 10); dw::optimizer::Adam o(P.m, lr); go(P, o, ADAM, DEEP(3, 4), true, lr, 0, 0.9f, 0.999f, 0.001f, 0); }
ENTRY e_adam_long() { Params P(ONE); float lr = sym("lr", -10, 10); dw::optimizer::Adam o(P.m, lr, {0.5f, 0.75f}, 0.25f); go(P, o, ADAM, DEEP(6, 9), false, lr, 0, 0.5f, 0.75f, 0.25f, 0); }
ENTRY e_adam_sym() { Params P(ONE); float lr = sym("lr", -10, 10), a = sym("beta1", 0, 0.95f), b = sym("beta2", 0, 0.95f), e = sym("eps", 0.001f, 1); dw::optimizer::Adam o(P.m, lr, {a, b}, e); go(P, o, ADAM, 2, true, lr, 0, a, b, e, 0); }
ENTRY e_adam_resume() { Params P(ONE); float lr = sym("lr", -10, 10); int t0 = size_in("done", 0, DEEP(6, 60)); dw::optimizer::Adam o(P.m, lr, {0.5f, 0.75f}, 0.25f, t0); go(P, o, ADAM, 2, false, lr, 0, 0.5f, 0.75f, 0.25f, t0); }
ENTRY e_adam_late() { Params P(ONE); float lr = sym("lr", -10, 10); static const int T[] = {9, 10, 31, 99, 100, 255}; int t0 = T[size_in("done", 0, 5)]; dw::optimizer::Adam o(P.m, lr, {0.5f, 0.25f}, 0.25f, t0); go(P, o, ADAM, 2, false, lr, 0, 0.5f, 0.25f, 0.25f, t0); }
ENTRY e_adam_large() { Params P(BIG); float lr = sym("lr", -10, 10); dw::optimizer::Adam o(P.m, lr, {0.5f, 0.75f}, 0.25f); go(P, o, ADAM, 2, false, lr, 0, 0.5f, 0.75f, 0.25f, 0); }
// long histories and long tensors, with given gradients
ENTRY e_sgd_history() { Params P(ONE); float lr = sym("lr", -10, 10); dw::optimizer::SGD o(P.m, lr); go(P, o, SGD, DEEP(40, 140), false, lr, 0, 0, 0, 0, 0, true); }
ENTRY e_mom_history() { Params P(ONE); float lr = sym("lr", -10, 10); dw::optimizer::SGDMomentum o(P.m, lr, 0.5f); go(P, o, MOM, DEEP(40, 140), false, lr, 0.5f, 0, 0, 0, 0, true); }
ENTRY e_adam_history() { Params P(ONE); float lr = sym("lr", 0.5f, 1); dw::optimizer::Adam o(P.m, lr, {0.5f, 0.5f}, 0.25f); go(P, o, ADAM, DEEP(40, 140), false, lr, 0, 0.5f, 0.5f, 0.25f, 0, true); }
ENTRY e_sgd_huge() { Params P(HUGE_); float lr = sym("lr", -10, 10); dw::optimizer::SGD o(P.m, lr); go(P, o, SGD, 2, false, lr, 0, 0, 0, 0, 0); }
ENTRY e_mom_huge() { Params P(HUGE_); float lr = sym("lr", -10, 10), g = sym("gamma", 0, 1); dw::optimizer::SGDMomentum o(P.m, lr, g); go(P, o, MOM, 2, false, lr, g, 0, 0, 0, 0); }
ENTRY e_adam_huge() { Params P(HUGE_); float lr = sym("lr", -10, 10); dw::optimizer::Adam o(P.m, lr, {0.5f, 0.75f}, 0.25f); go(P, o, ADAM, 2, false, lr, 0, 0.5f, 0.75f, 0.25f, 0, true); }
ENTRY e_adam_late_default() { Params P(ONE); float lr = sym("lr", 0.5f, 1); static const int T[] = {9, 99, 999, 4999}; int t0 = T[size_in("done", 0, 3)]; dw::optimizer::Adam o(P.m, lr, {0.9f, 0.999f}, 0.001f, t0); go(P, o, ADAM, 1, false, lr, 0, 0.9f, 0.999f, 0.001f, t0, true); }
static const std::vector<Shape> VAST{{6, 11003}, {3}};
ENTRY e_sgd_vast() { Vast v; Params P(VAST); float lr = 0.5f; dw::optimizer::SGD o(P.m, lr); go(P, o, SGD, 1, false, lr, 0, 0, 0, 0, 0); }
ENTRY e_mom_vast() { Vast v; Params P(VAST); float lr = 0.5f; dw::optimizer::SGDMomentum o(P.m, lr, 0.5f); go(P, o, MOM, 1, false, lr, 0.5f, 0, 0, 0, 0); }
ENTRY e_adam_vast() { Vast v; Params P({{6, 1003}, {3}}); float lr = sym("lr", -10, 10); dw::optimizer::Adam o(P.m, lr, {0.5f, 0.75f}, 0.25f); go(P, o, ADAM, 2, false, lr, 0, 0.5f, 0.75f, 0.25f, 0); }
