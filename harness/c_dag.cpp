#include "layers.hpp"
#include <deepworks/model.hpp>
#include "ade/ade_standin.hpp"
// a branching graph of layers of any type as a model, and the same layers called one after the other; node 0 is the input
struct Node { int kind; Attr at; int a, b; };
static void dag(const Shape &in, const std::vector<Node> &ops, const std::vector<int> &outs, bool train) {
  ade::passes::order() = flag("order");
  std::vector<dw::Placeholder> ph{dw::Placeholder(in)}; std::vector<Layer> l; auto nm = [](size_t j) { return "l" + std::to_string(j); };
  for (size_t j = 0; j < ops.size(); j++) { const Node &o = ops[j]; ph.push_back(o.kind == ADD ? dw::Add(nm(j))(ph[o.a], ph[o.b]) : apply(o.kind, o.at, ph[o.a], nm(j))); l.push_back(direct(o.kind, o.at, ph[o.a].shape(), "loose")); dw_check(same(l[j].out, ph.back().shape()), "shapes"); }
  dw::Placeholders po; for (int o : outs) po.push_back(ph[o]);
  dw::Model m(dw::Placeholders{ph[0]}, po);
  for (size_t j = 0; j < l.size(); j++) {
    symbolic_state(ops[j].kind, l[j]);
    for (auto &p : l[j].info.impl().params) if (p.first != "mask") set(m.params().at(nm(j) + "." + p.first).data(), values(p.second.data()));
    for (auto &b : l[j].info.impl().buffers) set(m.state().at(nm(j) + "." + b.first), values(b.second));
  }
  m.compile(); m.train(train); for (auto &q : l) q.train(train);
  std::vector<Tensor> v{sym_tensor("x", in)}, g{Tensor::zeros(in)}; VF X = values(v[0]); bounded(X, 8);
  auto args = [&](const std::vector<Tensor> &t, size_t j) { std::vector<Tensor> r{t[ops[j].a]}; if (ops[j].kind == ADD) r.push_back(t[ops[j].b]); return r; };
  for (size_t j = 0; j < l.size(); j++) { std::vector<Tensor> y{Tensor::zeros(l[j].out)}; l[j].cpu->forward(args(v, j), y); v.push_back(y[0]); g.push_back(Tensor::zeros(l[j].out)); }
  std::vector<Tensor> out, go; std::vector<VF> G; for (int o : outs) { out.push_back(sym_tensor("garbage", ph[o].shape())); go.push_back(sym_tensor("g", ph[o].shape())); G.push_back(values(go.back())); }
  Tensor x(in); set(x, X); m.forward(std::vector<Tensor>{x}, out);
  for (size_t i = 0; i < outs.size(); i++) check_all(out[i], values(v[outs[i]]), "a model output is the composition of the layers along the graph");
  check_all(x, X, "the inputs are left alone");
  if (train) {
    for (size_t i = 0; i < outs.size(); i++) for (size_t e = 0; e < G[i].size(); e++) g[outs[i]].data()[e] += G[i][e];
    for (int j = (int)l.size() - 1; j >= 0; j--) { auto gi = args(g, j); auto vi = args(v, j); l[j].cpu->updateGradients(vi, {g[j + 1]}); l[j].cpu->backward(vi, {v[j + 1]}, {g[j + 1]}, gi); }
    m.backward(std::vector<Tensor>{x}, out, go);
    for (size_t i = 0; i < outs.size(); i++) { check_all(out[i], values(v[outs[i]]), "backward leaves the outputs alone"); check_all(go[i], G[i], "backward leaves the output gradients alone"); }
    check_all(x, X, "the inputs are left alone");
  }
  for (size_t j = 0; j < l.size(); j++) {
    for (auto &p : l[j].info.impl().params) if (p.first != "mask") { auto &q = m.params().at(nm(j) + "." + p.first); check_all(q.data(), values(p.second.data()), "a pass does not change the parameters"); if (train) check_all(q.grad(), values(p.second.grad()), "a parameter gradient is the derivative of the outputs"); }
    for (auto &b : l[j].info.impl().buffers) check_all(m.state().at(nm(j) + "." + b.first), values(b.second), "the model keeps the running statistics its layers would keep");
  }
}
static const int K2[] = {LINEAR, RELU, ELU, LEAKY, SIGMOID, SOFTMAX, BN1, DROP}, K4[] = {RELU, ELU, LEAKY, SIGMOID, BN2, POOL, CONV, DROP};
static Attr attr(int k) { Attr a; a.u = 1; if (k == DROP) a.a = 0.f; if (k == POOL || k == CONV) { a.k = A2{1, 3}; a.p = A2{0, 1}; } return a; } // keeps the shape
// x -> L -> A, x' -> B, both also summed: every layer reads a tensor that another layer reads too
static void diamond(const Shape &in, const int *K, int n, int first) {
  int a = K[size_in("a", 0, n - 1)], b = K[size_in("b", 0, n - 1)]; bool train = flag("train");
  std::vector<Node> ops{{first, attr(first), 0, 0}, {a, attr(a), 1, 1}, {b, attr(b), 1, 1}, {ADD, {}, 2, 3}}; dag(in, ops, flag("inner") ? std::vector<int>{4, 2} : std::vector<int>{4}, train);
}
ENTRY e_dag2d() { diamond(Shape{2, 1}, K2, 8, LINEAR); }
ENTRY e_dag4d() { diamond(Shape{1, 1, 1, 2}, K4, 8, CONV); }
// three layers in a row: the middle one reads and writes tensors of the model only
static void row(const Shape &in, const int *K, int n, int last) {
  int a = K[size_in("a", 0, n - 1)], b = K[size_in("b", 0, n - 1)]; bool train = flag("train"); Attr z = attr(last);
  dag(in, {{a, attr(a), 0, 0}, {b, attr(b), 1, 1}, {last, z, 2, 2}}, {3}, train);
}
ENTRY e_row2d() { row(Shape{2, 1}, K2, 8, LINEAR); }
ENTRY e_row4d() { row(Shape{1, 1, 2, 2}, K4, 8, CONV); }
// several models over one expression: the whole, its head and its tail, used in turns; the layers and their parameters are shared
ENTRY e_parts() {
  ade::passes::order() = flag("order"); Shape s{1, 2};
  dw::Placeholder in(s), a = dw::Linear(2, "a")(in), b = dw::Sigmoid("b")(a), c = flag("join") ? dw::Add("j")(dw::Linear(2, "c")(b), a) : dw::Linear(2, "c")(b);
  int cut = size_in("cut", 0, 1); bool join = c.impl().call->impl().args.size() == 2; dw_assume(!(join && cut == 1)); dw::Placeholder mid = cut ? b : a;
  int first = size_in("first", 0, 2);
  dw::Model full(in, c), head(in, mid), tail(mid, c); dw::Model *ms[3] = {&full, &head, &tail};
  for (int i = 0; i < 3; i++) ms[(first + i) % 3]->compile();
  for (const char *n : {"a", "c"}) for (const char *p : {".weight", ".bias"}) { Tensor t = full.params().at(std::string(n) + p).data(); dw_sym_floats("w", t.data(), t.total()); }
  dw_check(head.params().size() == 2 && tail.params().size() == 2 && full.params().size() == 4, "a model has the parameters of its own layers");
  dw_check(head.params().at("a.weight").data().data() == full.params().at("a.weight").data().data() && tail.params().at("c.bias").data().data() == full.params().at("c.bias").data().data(), "models over one expression share their parameters");
  Tensor x = sym_tensor("x", s), y = sym_tensor("garbage", s), z = sym_tensor("garbage", s), q = sym_tensor("garbage", s); VF X = values(x); bounded(X, 4);
  full.forward(x, y); VF Y = values(y); head.forward(x, z); VF Z = values(z); check_all(y, Y, "a model leaves the tensors of another alone");
  VF w = values(full.params().at("a.weight").data()), wb = values(full.params().at("a.bias").data()), u = values(full.params().at("c.weight").data()), ub = values(full.params().at("c.bias").data()), A(2), B(2), C(2);
  for (int i = 0; i < 2; i++) { A[i] = wb[i] + X[0] * w[2 * i] + X[1] * w[2 * i + 1]; B[i] = 1 / (1 + std::exp(-A[i])); }
  for (int i = 0; i < 2; i++) C[i] = ub[i] + B[0] * u[2 * i] + B[1] * u[2 * i + 1] + (join ? A[i] : 0);
  check_all(y, C, "the whole model"); check_all(z, cut ? B : A, "the head of the model");
  Tensor v = sym_tensor("v", s); VF V = values(v); bounded(V, 4); tail.forward(v, q); check_all(v, V, "the inputs are left alone");
  VF TB = V, T(2); if (!cut) for (int i = 0; i < 2; i++) TB[i] = 1 / (1 + std::exp(-V[i]));
  for (int i = 0; i < 2; i++) T[i] = ub[i] + TB[0] * u[2 * i] + TB[1] * u[2 * i + 1] + (join ? V[i] : 0);
  check_all(q, T, "a model from an inner placeholder maps that input to its output"); check_all(y, C, "a model leaves the tensors of another alone"); check_all(z, Z, "a model leaves the tensors of another alone");
  Tensor g = sym_tensor("g", s), h = sym_tensor("g", s); VF G = values(g), H = values(h);
  tail.backward(v, q, h); full.backward(x, y, g); VF GW(4), GU(4), GA(2);
  for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) GU[2 * i + k] = G[i] * B[k];
  for (int k = 0; k < 2; k++) GA[k] = (G[0] * u[k] + G[1] * u[2 + k]) * B[k] * (1 - B[k]) + (join ? G[k] : 0);
  for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) GW[2 * i + k] = GA[i] * X[k];
  check_all(full.params().at("c.weight").grad(), GU, "a parameter gradient is the derivative of the outputs"); check_all(full.params().at("a.weight").grad(), GW, "a parameter gradient is the derivative of the outputs"); check_all(full.params().at("a.bias").grad(), GA, "a parameter gradient is the derivative of the outputs"); check_all(full.params().at("c.bias").grad(), G, "a parameter gradient is the derivative of the outputs");
  head.backward(x, z, h); VF HA(2); for (int k = 0; k < 2; k++) HA[k] = cut ? H[k] * B[k] * (1 - B[k]) : H[k]; check_all(full.params().at("a.bias").grad(), HA, "the head's gradient"); check_all(full.params().at("c.weight").grad(), GU, "a pass leaves the gradients of other layers alone"); check_all(v, V, "the inputs are left alone"); check_all(x, X, "the inputs are left alone");
}
