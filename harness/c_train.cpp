#include "layers.hpp"
#include <deepworks/model.hpp>
#include <deepworks/loss.hpp>
#include <deepworks/optimizer.hpp>
#include "ade/ade_standin.hpp"
// a chain of layers as a model, and the same layers called one after the other
struct Chain { std::vector<int> kind; std::vector<Attr> at; Shape in; };
struct Twin { // the model and the loose layers, with the same symbolic state
  dw::Model m; std::vector<Layer> l; std::vector<int> kind; std::vector<std::string> names;
  Twin(const Chain &c) {
    dw::Placeholder in(c.in), x = in; Shape s = c.in;
    for (size_t j = 0; j < c.kind.size(); j++) { names.push_back("l" + std::to_string(j)); x = apply(c.kind[j], c.at[j], x, names[j]); l.push_back(direct(c.kind[j], c.at[j], s, "loose")); s = l[j].out; dw_check(same(s, x.shape()), "shapes"); }
    kind = c.kind; m = dw::Model(in, x);
    for (size_t j = 0; j < l.size(); j++) {
      symbolic_state(kind[j], l[j]);
      for (auto &p : l[j].info.impl().params) if (p.first != "mask") set(m.params().at(names[j] + "." + p.first).data(), values(p.second.data()));
      for (auto &b : l[j].info.impl().buffers) set(m.state().at(names[j] + "." + b.first), values(b.second));
    }
    m.compile();
  }
  void train(bool t) { m.train(t); for (auto &q : l) q.train(t); }
  std::vector<Tensor> v; // what each loose layer produced
  Tensor forward(const Tensor &x) {
    v.assign(1, x);
    for (size_t j = 0; j < l.size(); j++) { Shape o = l[j].out; o[0] = x.shape()[0]; std::vector<Tensor> i{v[j]}, y{Tensor::zeros(o)}; if (kind[j] == ADD) i.push_back(v[j]); l[j].cpu->forward(i, y); v.push_back(y[0]); }
    return v.back();
  }
  void backward(const Tensor &g) {
    Tensor gy = g;
    for (int j = (int)l.size() - 1; j >= 0; j--) { Tensor gx = Tensor::zeros(v[j].shape()); std::vector<Tensor> i{v[j]}, gi{gx}; if (kind[j] == ADD) { i.push_back(v[j]); gi.push_back(gx); } l[j].cpu->updateGradients(i, {gy}); l[j].cpu->backward(i, {v[j + 1]}, {gy}, gi); gy = gx; }
  }
  void check(bool grads) {
    for (size_t j = 0; j < l.size(); j++) {
      for (auto &p : l[j].info.impl().params) if (p.first != "mask") { auto &q = m.params().at(names[j] + "." + p.first); check_all(q.data(), values(p.second.data()), "the model holds the parameters its layers would hold"); if (grads) check_all(q.grad(), values(p.second.grad()), "the model gives every parameter the gradient its layers would give"); }
      for (auto &b : l[j].info.impl().buffers) check_all(m.state().at(names[j] + "." + b.first), values(b.second), "the model keeps the running statistics its layers would keep");
    }
  }
};
static void chain(const Chain &c, int steps, bool evals) {
  Twin t(c); bool train = !evals || flag("train"); t.train(train);
  for (int s = 0; s < steps; s++) {
    Tensor x = sym_tensor("x", c.in); VF X = values(x); bounded(X, 8); 
    Tensor e = t.forward(x), y = sym_tensor("garbage", e.shape()); VF E = values(e);
    t.m.forward(x, y); check_all(y, E, "a model output is the composition of its layers"); check_all(x, X, "the inputs are left alone");
    if (train) { Tensor g = sym_tensor("g", e.shape()), h(e.shape()); set(h, values(g)); t.m.backward(x, y, g); t.backward(h); }
    t.check(train);
  }
}
static const int K2[] = {LINEAR, RELU, ELU, LEAKY, SIGMOID, SOFTMAX, BN1, DROP, ADD}, K4[] = {LINEAR, RELU, ELU, LEAKY, SIGMOID, BN2, POOL, CONV, DROP, GAP, ADD};
static Attr attr(int k) { Attr a; if (k == DROP) a.a = 0.f; if (k == POOL || k == CONV) a.k = A2{1, 2}; return a; }
ENTRY e_chain2d() { Chain c; c.in = Shape{2, 1}; for (int j = 0; j < 2; j++) { int k = K2[size_in("kind", 0, 8)]; c.kind.push_back(k); c.at.push_back(attr(k)); } chain(c, 1, true); }
ENTRY e_chain4d() { Chain c; c.in = Shape{1, 1, 2, 3}; int w = 3; for (int j = 0; j < 2; j++) { bool flat = j && c.kind[0] == LINEAR; int k = flat ? K2[size_in("kind2", 0, 8)] : K4[size_in("kind", 0, 10)]; dw_assume(w >= 2 || (k != POOL && k != CONV)); if (k == GAP) w = 1; if (k == POOL || k == CONV) w--; c.kind.push_back(k); c.at.push_back(attr(k)); } chain(c, 1, true); }
// the training loop: forward, loss, backward, step; the next forward uses the updated parameters
struct Loose { VF v, m; };
template <class O> static void loop(const Chain &c, O &&make_opt, int kind, int steps, bool freeze, bool evalbetween) {
  Twin t(c); float lr = dw_sym_float("lr"); dw_assume(lr >= 0 && lr <= 1); auto o = make_opt(t.m.params(), lr); dw::loss::CrossEntropyLoss loss; std::map<std::string, Loose> st; std::map<std::string, bool> on; float q1 = 1, q2 = 1;
  t.train(true);
  if (freeze) for (size_t j = 0; j < t.l.size(); j++) { if (t.l[j].info.impl().params.empty()) continue; bool f = flag("frozen"); for (auto &p : t.l[j].info.impl().params) { t.m.params().at(t.names[j] + "." + p.first).train(!f); p.second.train(!f); } }
  Tensor y = Tensor::zeros(t.m.outputs()[0].shape()), g = Tensor::zeros(y.shape()); int N = y.shape()[0], C = y.shape()[1];
  for (int s = 0; s < steps; s++) {
    Tensor x = sym_tensor("x", c.in), lab({N, 1}); bounded(values(x), 2); for (int n = 0; n < N; n++) lab.data()[n] = (n * 3 + s) % C;
    Tensor e = t.forward(x); VF E = values(e); t.m.forward(x, y); check_all(y, E, "a forward pass uses the parameters of the last step");
    loss.forward(y, lab); loss.backward(y, lab, g); t.m.backward(x, y, g);
    Tensor ge = Tensor::zeros(y.shape()); for (int n = 0; n < N; n++) { int k = n * C + (int)((n * 3 + s) % C); ge.data()[k] = -1 / (N * E[k]); }
    t.backward(ge); o.step(); q1 *= 0.5f; q2 *= 0.75f;
    for (size_t j = 0; j < t.l.size(); j++) for (auto &p : t.l[j].info.impl().params) {
      if (!p.second.is_trainable() || p.first == "mask") continue;
      VF G = values(p.second.grad()), W = values(p.second.data()); Loose &L = st[t.names[j] + p.first]; L.v.resize(W.size()); L.m.resize(W.size());
      for (size_t i = 0; i < W.size(); i++) { float gg = G[i]; if (kind == 0) W[i] -= lr * gg; else if (kind == 1) { L.v[i] = 0.5f * L.v[i] + lr * gg; W[i] -= L.v[i]; } else { L.m[i] = 0.5f * L.m[i] + 0.5f * gg; L.v[i] = 0.75f * L.v[i] + 0.25f * gg * gg; W[i] -= lr * (L.m[i] / (1 - q1)) / (std::sqrt(L.v[i] / (1 - q2)) + 0.25f); } }
      set(p.second.data(), W);
    }
    t.check(true);
    if (evalbetween) { // a validation pass changes nothing
      t.train(false); Tensor z = sym_tensor("xv", c.in); bounded(values(z), 2); Tensor ez = t.forward(z); VF EZ = values(ez); t.m.forward(z, y); check_all(y, EZ, "a validation pass uses the trained parameters"); t.check(true); t.train(true);
    }
  }
}
static Chain mlp(int act) { Chain c; c.in = Shape{2, 1}; c.kind = {LINEAR, act, SOFTMAX}; for (int k : c.kind) c.at.push_back(attr(k)); return c; }
ENTRY e_loop_sgd() { Chain c = mlp(LINEAR); loop(c, [](dw::ParamMap &p, float lr) { return dw::optimizer::SGD(p, lr); }, 0, 2, true, false); }
ENTRY e_loop_momentum() { Chain c = mlp(LINEAR); loop(c, [](dw::ParamMap &p, float lr) { return dw::optimizer::SGDMomentum(p, lr, 0.5f); }, 1, 2, true, false); }
ENTRY e_loop_adam() { Chain c = mlp(SIGMOID); loop(c, [](dw::ParamMap &p, float lr) { return dw::optimizer::Adam(p, lr, {0.5f, 0.75f}, 0.25f); }, 2, 2, true, false); }
ENTRY e_loop_sample() { // the network of the samples: Linear, ReLU, BatchNorm1D, Linear, Softmax
  Chain c; c.in = Shape{2, 1}; c.kind = {LINEAR, RELU, BN1, LINEAR, SOFTMAX}; for (int k : c.kind) c.at.push_back(attr(k)); c.at[0].u = 1; loop(c, [](dw::ParamMap &p, float lr) { return dw::optimizer::SGDMomentum(p, lr, 0.5f); }, 1, 1, false, true); }
ENTRY e_loop_conv() { Chain c; c.in = Shape{2, 1, 2, 2}; c.kind = {CONV, RELU, POOL, LINEAR, SOFTMAX}; for (int k : c.kind) c.at.push_back(attr(k)); c.at[0].u = 1; c.at[2].k = A2{2, 1}; loop(c, [](dw::ParamMap &p, float lr) { return dw::optimizer::SGD(p, lr); }, 0, 1, false, true); }
