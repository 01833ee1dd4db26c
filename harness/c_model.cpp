#include "common.hpp"
#include <deepworks/model.hpp>
#include <map>
#include "ade/ade_standin.hpp"
// A graph over tensors of shape [batch, 2] and its own interpretation of it.
enum { LIN, SUM, SIG };
struct Op { int kind, a, b; };
struct Net { int nin; std::vector<Op> ops; std::vector<int> outs; int data() const { return nin + (int)ops.size(); } };
static std::string nm(int j) { return "op" + std::to_string(j); }
static const int D = 2;
static dw::Model build(const Net &n, int batch, bool named, dw::Placeholders &ph) {
  for (int i = 0; i < n.nin; i++) ph.push_back(dw::Placeholder(Shape{batch, D}));
  for (size_t j = 0; j < n.ops.size(); j++) { const Op &o = n.ops[j]; std::string s = named ? nm((int)j) : ""; ph.push_back(o.kind == LIN ? dw::Linear(D, s)(ph[o.a]) : o.kind == SUM ? dw::Add(s)(ph[o.a], ph[o.b]) : dw::Sigmoid(s)(ph[o.a])); }
  dw::Placeholders in(ph.begin(), ph.begin() + n.nin), out; for (int o : n.outs) out.push_back(ph[o]);
  return dw::Model(in, out);
}
static std::vector<bool> used(const Net &n) { std::vector<bool> u(n.data()); for (int o : n.outs) u[o] = true; for (int j = (int)n.ops.size() - 1; j >= 0; j--) if (u[n.nin + j]) { u[n.ops[j].a] = true; if (n.ops[j].kind == SUM) u[n.ops[j].b] = true; } return u; }
static void run(const Net &n, int batch, int steps) {
  auto u = used(n);
  ade::passes::order() = flag("order");
  dw::Placeholders ph; dw::Model m = build(n, batch, true, ph); m.compile();
  std::map<int, std::pair<VF, VF>> wb;
  for (size_t j = 0; j < n.ops.size(); j++) if (n.ops[j].kind == LIN && u[n.nin + j]) { Tensor w = m.params().at(nm((int)j) + ".weight").data(), b = m.params().at(nm((int)j) + ".bias").data(); dw_sym_floats("w", w.data(), w.total()); dw_sym_floats("b", b.data(), b.total()); wb[(int)j] = {values(w), values(b)}; }
  int E = batch * D; std::vector<std::pair<Tensor, VF>> kept; // what the user holds, with its values
  for (int t = 0; t < steps; t++) {
    std::vector<Tensor> in, out, go; std::vector<VF> v(n.data()), g(n.data(), VF(E));
    for (int i = 0; i < n.nin; i++) { in.push_back(sym_tensor("x", {batch, D})); v[i] = values(in.back()); bounded(v[i], 4); }
    for (size_t i = 0; i < n.outs.size(); i++) { out.push_back(sym_tensor("garbage", {batch, D})); go.push_back(sym_tensor("g", {batch, D})); }
    for (size_t j = 0; j < n.ops.size(); j++) { const Op &o = n.ops[j]; if (!u[n.nin + j]) continue; VF &y = v[n.nin + j]; y.resize(E);
      for (int e = 0; e < E; e++) { if (o.kind == SUM) y[e] = v[o.a][e] + v[o.b][e]; else if (o.kind == SIG) y[e] = 1 / (1 + std::exp(-v[o.a][e])); else { int r = e / D, c = e % D; y[e] = wb[(int)j].second[c]; for (int k = 0; k < D; k++) y[e] += v[o.a][r * D + k] * wb[(int)j].first[c * D + k]; } } }
    if (n.nin == 1 && n.outs.size() == 1 && t == 0) m.forward(in[0], out[0]); else m.forward(in, out);
    for (size_t i = 0; i < n.outs.size(); i++) check_all(out[i], v[n.outs[i]], "a model output is the composition of the layers along the graph");
    std::vector<VF> gv; for (auto &t : go) gv.push_back(values(t));
    for (size_t i = 0; i < n.outs.size(); i++) { VF x = values(go[i]); for (int e = 0; e < E; e++) g[n.outs[i]][e] += x[e]; }
    std::map<int, std::pair<VF, VF>> gr;
    for (int j = (int)n.ops.size() - 1; j >= 0; j--) { const Op &o = n.ops[j]; if (!u[n.nin + j]) continue; VF &y = g[n.nin + j];
      if (o.kind == SUM) for (int e = 0; e < E; e++) { g[o.a][e] += y[e]; g[o.b][e] += y[e]; }
      else if (o.kind == SIG) for (int e = 0; e < E; e++) { float s = v[n.nin + j][e]; g[o.a][e] += y[e] * s * (1 - s); }
      else { VF dw(D * D), db(D); for (int r = 0; r < batch; r++) for (int c = 0; c < D; c++) { db[c] += y[r * D + c]; for (int k = 0; k < D; k++) { dw[c * D + k] += y[r * D + c] * v[o.a][r * D + k]; g[o.a][r * D + k] += y[r * D + c] * wb[j].first[c * D + k]; } } gr[j] = {dw, db}; } }
    if (n.nin == 1 && n.outs.size() == 1 && t == 0) m.backward(in[0], out[0], go[0]); else m.backward(in, out, go);
    for (auto &p : gr) { check_all(m.params().at(nm(p.first) + ".weight").grad(), p.second.first, "the weight gradient is the derivative of the outputs"); check_all(m.params().at(nm(p.first) + ".bias").grad(), p.second.second, "the bias gradient is the derivative of the outputs"); }
    for (int i = 0; i < n.nin; i++) check_all(in[i], v[i], "the inputs are left alone"); for (size_t i = 0; i < n.outs.size(); i++) { check_all(out[i], v[n.outs[i]], "backward leaves the outputs alone"); check_all(go[i], gv[i], "backward leaves the output gradients alone"); }
    for (auto &p : kept) check_all(p.first, p.second, "a pass leaves the tensors of earlier passes alone");
    for (int i = 0; i < n.nin; i++) kept.push_back({in[i], v[i]}); for (size_t i = 0; i < n.outs.size(); i++) { kept.push_back({out[i], v[n.outs[i]]}); kept.push_back({go[i], gv[i]}); }
    for (auto &p : wb) { check_all(m.params().at(nm(p.first) + ".weight").data(), p.second.first, "a pass does not change the weights"); check_all(m.params().at(nm(p.first) + ".bias").data(), p.second.second, "a pass does not change the bias"); }
  }
}
static Net net(int nin, int nops, int kinds) {
  Net n; n.nin = nin;
  for (int j = 0; j < nops; j++) { Op o; o.kind = size_in("kind", 0, kinds - 1); o.a = size_in("a", 0, n.nin + j - 1); o.b = o.kind == SUM ? size_in("b", 0, n.nin + j - 1) : o.a; n.ops.push_back(o); }
  n.outs.push_back(n.data() - 1);
  return n;
}
ENTRY e_net_small() { Net n = net(size_in("inputs", 1, 2), size_in("ops", 1, 2), 3); if (n.ops.size() > 1 && flag("second")) { if (flag("first")) n.outs.insert(n.outs.begin(), n.nin); else n.outs.push_back(n.nin); } run(n, 1, 2); }
ENTRY e_net3() { Net n = net(1, 3, DEEP(2, 3)); int s = size_in("second", 0, 2); if (s) { if (flag("first")) n.outs.insert(n.outs.begin(), n.nin + s - 1); else n.outs.push_back(n.nin + s - 1); } run(n, 1, 1); }
ENTRY e_net3_two() { Net n = net(2, 3, DEEP(2, 3)); auto u = used(n); for (int i = 0; i < n.nin; i++) dw_assume(u[i]); run(n, 1, DEEP(1, 2)); }
ENTRY e_net_ports() { // any two placeholders as outputs: an input, the same one twice; inputs that no output needs
  int o = size_in("ops", 1, 2); Net n = net(2, o, o == 1 ? 3 : DEEP(2, 3)); n.outs = {size_in("out1", 0, n.data() - 1), size_in("out2", 0, n.data() - 1)}; run(n, 1, 1); }
ENTRY e_net4() { Net n = net(1, 4, 2); run(n, 1, 1); }
ENTRY e_net_wide() { // a residual network with shared branches and three outputs
  Net n{2, {{LIN, 0, 0}, {SIG, 2, 2}, {LIN, 1, 1}, {SUM, 3, 4}, {LIN, 5, 5}, {SUM, 6, 5}, {SUM, 7, 3}, {LIN, 7, 7}}, {8, 5, 9}}; run(n, 2, 2); }
// naming, parameters, state, train mode
static const char *PN[3] = {"weight", "gamma", ""};
struct Named { int kind; std::string name; };
static std::string lower(std::string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c - 'A' + 'a'); return s; }
static void names(int n, bool many) {
  ade::passes::order() = flag("order");
  dw::Placeholder in(Shape{2, D}), x = in, mid = in; std::vector<std::pair<int, std::string>> L; std::vector<dw::Placeholder> args, res; std::vector<std::string> given;
  for (int i = 0; i < n; i++) {
    int k = many ? (i * 5 + 1) % 3 : size_in("kind", 0, 2), how = many ? i % 6 == 4 : size_in("name", 0, 1); std::string s = how ? nm(i) : "";
    args.push_back(x); x = k == 0 ? dw::Linear(D, s)(x) : k == 1 ? dw::BatchNorm1D(0.1f, 0.1f, s)(x) : dw::Sigmoid(s)(x); res.push_back(x); L.push_back({k, s});
  }
  dw::Model m(in, x);
  dw_check(m.inputs().size() == 1 && m.outputs().size() == 1 && &m.inputs()[0].impl() == &in.impl() && &m.outputs()[0].impl() == &x.impl(), "the model keeps its inputs and outputs");
  dw_check((int)m.layers().size() == n, "one layer per operation"); size_t np = 0, ns = 0;
  for (int i = 0; i < n; i++) {
    // layers of a chain are in the order of the chain
    dw::Layer l = m.layers()[i]; static const char *T[] = {"Linear", "BatchNorm1D", "Sigmoid"};
    dw_check(l.type() == T[L[i].first], "layers keep their type"); if (!L[i].second.empty()) dw_check(l.name() == L[i].second, "a given name is kept"); else dw_check(!l.name().empty(), "a layer without a name gets one");
    for (int j = 0; j < i; j++) dw_check(m.layers()[j].name() != l.name(), "names are unique");
    dw_check(l.inputs().size() == 1 && l.outputs().size() == 1 && &l.inputs()[0].impl() == &args[i].impl() && &l.outputs()[0].impl() == &res[i].impl(), "a layer knows its inputs and outputs");
    dw::Layer q = m.getLayer(l.name()); dw_check(q.name() == l.name() && q.type() == l.type(), "getLayer finds a layer by its name");
    dw_check(l.params().size() == (L[i].first == 2 ? 0u : 2u) && l.buffers().size() == (L[i].first == 1 ? 2u : 0u), "a layer has its own parameters and buffers");
    for (auto &p : l.params()) { auto it = m.params().find(l.name() + "." + p.first); auto st = m.state().find(l.name() + "." + p.first); dw_check(it != m.params().end() && st != m.state().end(), "every parameter is in params() and state() as layer.parameter"); dw_check(it->second.data().data() == p.second.data().data() && st->second.data() == p.second.data().data() && same(st->second.shape(), p.second.data().shape()) && it->second.grad().data() == p.second.grad().data(), "params() and state() share storage with the layer"); dw_check(q.params().at(p.first).data().data() == p.second.data().data(), "getLayer gives the layer itself"); np++; ns++; }
    for (auto &b : l.buffers()) { auto st = m.state().find(l.name() + "." + b.first); dw_check(st != m.state().end() && st->second.data() == b.second.data(), "every buffer is in state() with shared storage"); ns++; }
  }
  dw_check(m.params().size() == np && m.state().size() == ns, "params() and state() contain nothing else");
  for (auto &p : m.params()) dw_check(p.second.is_trainable(), "a new model is in training mode");
  bool a = flag("mode1"), b = flag("mode2"); m.train(a); m.train(b);
  for (auto &p : m.params()) dw_check(p.second.is_trainable() == b, "train(mode) switches every parameter");
  for (auto &l : m.layers()) for (auto &p : l.params()) dw_check(p.second.is_trainable() == b, "train(mode) reaches the layers");
}
ENTRY e_names() { names(size_in("layers", 1, DEEP(3, 5)), false); }
ENTRY e_names_many() { names(DEEP(23, 60), true); }
ENTRY e_model_reject() {
  dw::Placeholder in(Shape{1, D}); int w = size_in("which", 0, 4);
  bool dup = w == 0 && flag("dup");
  if (w == 0) { const char *n1 = "fc", *n2 = dup ? "fc" : "fd"; dw::Placeholder y = dw::Linear(D, n2)(dw::Sigmoid("s")(dw::Linear(D, n1)(in))); dw_check(throws([&] { dw::Model m(in, y); }) == dup, "two layers of one name are rejected"); return; }
  dw::Model m(in, dw::Linear(D, "fc")(in)); Tensor x = Tensor::zeros({1, D}), y = Tensor::zeros({1, D}); std::vector<Tensor> X{x}, Y{y};
  if (w == 1) { static const char *bad[] = {"", "f", "fcc", "FC", "fc.weight"}; int i = size_in("bad", 0, 4); dw_check(throws([&] { m.getLayer(bad[i]); }), "an unknown layer name is rejected"); dw_check(!throws([&] { m.getLayer("fc"); }), "a known one is found"); return; }
  bool comp = flag("compiled"); if (comp) m.compile();
  if (w == 2) dw_check(throws([&] { m.forward(x, y); }) == !comp, "forward needs a compiled model");
  if (w == 3) dw_check(throws([&] { m.forward(X, Y); }) == !comp, "forward needs a compiled model");
  if (w == 4) { dw_check(throws([&] { m.backward(X, Y, Y); }) == !comp, "backward needs a compiled model"); dw_check(throws([&] { m.backward(x, y, y); }) == !comp, "backward needs a compiled model"); }
}
ENTRY e_model_modes() { // a model switched to evaluation and back: the batch normalisation follows
  dw::Placeholder in(Shape{2, 1}); dw::Model m(in, dw::BatchNorm1D(1.f, 0.5f, "bn")(in)); m.compile(); bool t = flag("train"); m.train(!t); m.train(t);
  Tensor x = sym_tensor("x", {2, 1}), y = sym_tensor("garbage", {2, 1}); VF X = values(x); bounded(X, 4); m.forward(x, y); float mu = (X[0] + X[1]) / 2, va = ((X[0] - mu) * (X[0] - mu) + (X[1] - mu) * (X[1] - mu)) / 2;
  if (t) { check_all(y, {(X[0] - mu) / std::sqrt(va + 1), (X[1] - mu) / std::sqrt(va + 1)}, "training mode normalises with the batch"); check_all(m.state().at("bn.running_mean"), {mu / 2}, "running statistics in state()"); }
  else { check_all(y, X, "evaluation mode normalises with the running statistics"); check_all(m.state().at("bn.running_mean"), {0}, "running statistics in state()"); }
}
ENTRY e_net_adds() { // a long graph of sums with shared branches and three outputs
  Net n{2, {}, {}}; int k = DEEP(24, 40); for (int j = 0; j < k; j++) n.ops.push_back({j % 7 == 3 ? SIG : SUM, j == 0 ? 0 : j % 7 == 3 ? (j * 5) % (j + 1) : j + 1, j == 0 ? 1 : (j * 3 + 1) % (j + 2)}); n.outs = {n.data() - 1, n.data() - 5, 4}; run(n, 1, 1); }
ENTRY e_names_part() { // models over parts of one expression have the layers, parameters and names of their part
  ade::passes::order() = flag("order"); dw::Placeholder x(Shape{2, D}), h = dw::BatchNorm1D(0.1f, 0.1f, "one")(x), i = dw::Sigmoid("two")(h), y = dw::Linear(D, "three")(i); int from = size_in("from", 0, 2), to = size_in("to", 1, 3); dw_assume(from < to);
  dw::Placeholder P[] = {x, h, i, y}; dw::Model m(P[from], P[to]); static const char *L[] = {"one", "two", "three"}; size_t np = 0, ns = 0;
  dw_check((int)m.layers().size() == to - from, "one layer per operation"); dw_check(&m.inputs()[0].impl() == &P[from].impl() && &m.outputs()[0].impl() == &P[to].impl(), "the model keeps its inputs and outputs");
  for (int j = 0; j < 3; j++) { bool in = j >= from && j < to; dw_check(throws([&] { m.getLayer(L[j]); }) == !in, "getLayer finds exactly the layers of the model"); if (in) { dw_check(m.layers()[j - from].name() == L[j], "layers keep their name"); np += j != 1 ? 2 : 0; ns += j == 0 ? 4 : j == 2 ? 2 : 0; } }
  dw_check(m.params().size() == np && m.state().size() == ns, "params() and state() contain the parameters of the model and nothing else");
  dw::Model full(x, y); bool b = flag("mode"); full.train(!b); m.train(b);
  for (auto &p : full.params()) { bool mine = m.params().count(p.first); dw_check(p.second.is_trainable() == (mine ? b : !b), "train(mode) switches the parameters of the model and no others"); if (mine) dw_check(m.params().at(p.first).data().data() == p.second.data().data(), "parameters share storage with the layers"); }
}
