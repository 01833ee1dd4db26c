#include "layers.hpp"
// a layer with a history behaves like a new one, and other layers of its type do not disturb it
static void history(int k, int built, int n1, int n2, int n3, bool b1, bool train) {
  Attr at; if (k == DROP) at.a = train ? 0.f : 0.5f;
  Layer a = direct(k, at, in_shape(k, built), "a"); symbolic_state(k, a);
  if (!train) a.train(false);
  Io d1, k1; if (n1) { d1 = io(k, a, n1, "x1", "g1"); no_ties(k, d1); a.cpu->forward(d1.x, d1.y); if (b1) back(a, d1); k1 = copy(d1); }
  Layer b = direct(k, at, in_shape(k, n2), "b"), c = direct(k, at, in_shape(k, n3), "c"); copy_state(a, b); symbolic_state(k, c);
  if (!train) { b.train(false); c.train(false); }
  Io d2 = io(k, a, n2, "x2", "g2"), r2 = copy(d2); no_ties(k, d2);
  a.cpu->forward(d2.x, d2.y);
  Io d3 = io(k, c, n3, "x3", "g3"); c.cpu->forward(d3.x, d3.y);
  b.cpu->forward(r2.x, r2.y);
  check_io(d2, r2, "forward does not depend on earlier batches");
  bool bw = train || !(k == BN1 || k == BN2);
  if (bw) { back(c, d3); back(b, r2); back(a, d2); }
  check_io(d2, r2, "backward does not depend on earlier batches or on other layers");
  for (auto &p : a.info.impl().params) { if (p.first == "mask") continue; check_all(p.second.data(), values(b.info.impl().params.at(p.first).data()), "parameters do not depend on earlier batches"); if (bw) check_all(p.second.grad(), values(b.info.impl().params.at(p.first).grad()), "parameter gradients do not depend on earlier batches"); }
  for (auto &s : a.info.impl().buffers) check_all(s.second, values(b.info.impl().buffers.at(s.first)), "buffers follow from the state and the batch alone");
  if (n1) check_io(d1, k1, "results handed out earlier are not touched by later calls");
}
static void hist(int k, int mx, bool modes) { mx = DEEP(mx, mx + 1); int n1 = size_in("n1", 0, mx), n2 = size_in("n2", 1, mx), n3 = size_in("n3", 1, 2), built = size_in("built", 1, 2) == 1 ? 1 : mx; bool b1 = n1 && flag("b1"); history(k, built, n1, n2, n3, b1, !modes || flag("train")); }
ENTRY e_hist_linear() { hist(LINEAR, 3, false); } ENTRY e_hist_relu() { hist(RELU, 2, false); } ENTRY e_hist_elu() { hist(ELU, 2, false); } ENTRY e_hist_leaky() { hist(LEAKY, 2, false); } ENTRY e_hist_sigmoid() { hist(SIGMOID, 3, false); }
ENTRY e_hist_softmax() { hist(SOFTMAX, 2, false); } ENTRY e_hist_bn1() { hist(BN1, 3, true); } ENTRY e_hist_bn2() { hist(BN2, 2, true); } ENTRY e_hist_pool() { hist(POOL, 2, false); } ENTRY e_hist_conv() { hist(CONV, 3, false); }
ENTRY e_hist_drop() { hist(DROP, 3, true); } ENTRY e_hist_gap() { hist(GAP, 3, false); } ENTRY e_hist_add() { hist(ADD, 3, false); }
// the same layer on images of another size
ENTRY e_hist_sizes() {
  static const int ks[] = {BN2, POOL, CONV, GAP, RELU, DROP, ADD}; int k = ks[size_in("kind", 0, 6)]; Attr at; if (k == DROP) at.a = 0.f; if (k == POOL || k == CONV) at.k = A2{1, 2};
  auto shape = [&](const char *h, const char *w, int n) { return Shape{n, k == CONV || k == POOL ? 1 : 2, size_in(h, 1, 2), size_in(w, 1, 2) + (k == CONV || k == POOL)}; };
  Shape s1 = shape("h1", "w1", size_in("n1", 1, 2)), s2 = shape("h2", "w2", 1);
  Layer a = direct(k, at, s1, "a"), b = direct(k, at, s2, "b"); symbolic_state(k, a);
  Io d1 = io(k, a, s1[0], "x1", "g1"); no_ties(k, d1); a.cpu->forward(d1.x, d1.y); if (flag("b1")) back(a, d1);
  Io k1 = copy(d1); copy_state(a, b); Io d2 = io(k, b, 1, "x2", "g2"), r2 = copy(d2); no_ties(k, d2);
  a.cpu->forward(d2.x, d2.y); b.cpu->forward(r2.x, r2.y); check_io(d2, r2, "forward does not depend on the size of earlier images");
  back(a, d2); back(b, r2); check_io(d2, r2, "backward does not depend on the size of earlier images"); check_io(d1, k1, "results handed out earlier are not touched by later calls");
  for (auto &p : a.info.impl().params) if (p.first != "mask") check_all(p.second.grad(), values(b.info.impl().params.at(p.first).grad()), "parameter gradients do not depend on the size of earlier images");
}
// parameters and state are read at every call: other values take effect at once, in either mode
ENTRY e_hist_reload() {
  static const int ks[] = {LINEAR, BN1, BN2, CONV}; int k = ks[size_in("kind", 0, 3)], n1 = size_in("n1", 1, 2), n2 = size_in("n2", 1, 2); bool bn = k == BN1 || k == BN2, t1 = !bn || flag("train1"), t2 = !bn || flag("train2"), b1 = t1 && flag("b1"); Attr at;
  Layer a = direct(k, at, in_shape(k, 1), "a"), b = direct(k, at, in_shape(k, n2), "b"); symbolic_state(k, a); a.train(t1);
  Io d1 = io(k, a, n1, "x1", "g1"); a.cpu->forward(d1.x, d1.y); if (b1) back(a, d1);
  symbolic_state(k, a); copy_state(a, b); a.train(t2); b.train(t2); Io d2 = io(k, b, n2, "x2", "g2"), r2 = copy(d2);
  a.cpu->forward(d2.x, d2.y); b.cpu->forward(r2.x, r2.y); check_io(d2, r2, "new parameters and state take effect at once");
  if (t2) { back(a, d2); back(b, r2); check_io(d2, r2, "backward uses the parameters in force"); for (auto &p : a.info.impl().params) check_all(p.second.grad(), values(b.info.impl().params.at(p.first).grad()), "parameter gradients use the values in force"); }
  for (auto &s : a.info.impl().buffers) check_all(s.second, values(b.info.impl().buffers.at(s.first)), "buffers follow from the state and the batch alone");
}
// several backward passes after one forward pass, on the tensors of that pass or on other ones with the same values
ENTRY e_back_again() {
  int k = size_in("kind", 0, KINDS - 1), n = size_in("n", 1, 2), order = size_in("order", 0, 2); bool moved = flag("moved"); Attr at; if (k == DROP) at.a = 0.f;
  Layer a = direct(k, at, in_shape(k, n), "a"), b = direct(k, at, in_shape(k, n), "b"); symbolic_state(k, a); copy_state(a, b);
  Io d = io(k, a, n, "x", "g"), r = copy(d); no_ties(k, d); a.cpu->forward(d.x, d.y); b.cpu->forward(r.x, r.y);
  Io e = copy(d), first = copy(d); if (moved) { for (auto &t : d.x) dw_sym_floats("other", t.data(), t.total()); dw_sym_floats("other", d.y[0].data(), d.y[0].total()); }
  Io &u = moved ? e : d; { Io f = io(k, a, n, "x", "g"); f.x = u.x; f.y = u.y; if (order == 0) back(a, f); else if (order == 1) { a.cpu->backward(f.x, f.y, f.gy, f.gx); a.cpu->updateGradients(f.x, f.gy); } else { a.cpu->updateGradients(f.x, f.gy); a.cpu->updateGradients(f.x, f.gy); } }
  back(a, u); back(b, r); check_io(u, r, "a second backward pass gives the gradients of its own output gradient");
  for (auto &p : a.info.impl().params) if (p.first != "mask") check_all(p.second.grad(), values(b.info.impl().params.at(p.first).grad()), "a second backward pass sets the parameter gradients of its own output gradient");
}
// make_layer
static bool same_attr(const dw::Attribute &x, const dw::Attribute &y) {
  if (x.type() != y.type() || x.shape() != y.shape()) return false;
  bool i = x.type() == dw::AttrType::INT;
  if (x.shape() == dw::AttrShape::VALUE) return i ? x.get<int>() == y.get<int>() : x.get<float>() == y.get<float>();
  return i ? x.get<A2>() == y.get<A2>() : x.get<std::array<float, 2>>() == y.get<std::array<float, 2>>();
}
static void mk(int k, const Attr &at, const Shape &s, bool run) {
  Layer d = direct(k, at, s, "given"); dw::Attributes attrs = d.info.impl().attrs;
  dw_check(d.info.type() == TYPES[k], "an operation carries its type name");
  dw::Placeholder x(s), x2(s); dw::Placeholders in{x}; if (k == ADD) in.push_back(x2);
  dw::Placeholder o = dw::make_layer(TYPES[k], "given", attrs, in);
  dw_check(o.impl().call.has_value() && o.impl().port == 0, "the result is produced by the new layer");
  auto &ci = o.impl().call->impl(); dw_check(ci.args.size() == in.size(), "the layer takes exactly the given inputs");
  for (size_t i = 0; i < in.size(); i++) dw_check(&ci.args[i].impl() == &in[i].impl(), "the layer takes the given inputs in order");
  auto &m = ci.info.impl(), &r = d.info.impl();
  dw_check(m.type == TYPES[k] && m.name == "given", "type and name"); dw_check(same(o.shape(), d.out), "output shape");
  dw_check(m.attrs.size() == r.attrs.size() && m.params.size() == r.params.size() && m.buffers.size() == r.buffers.size(), "same attributes, parameters and buffers");
  for (auto &e : r.attrs) { auto it = m.attrs.find(e.first); dw_check(it != m.attrs.end() && same_attr(it->second, e.second), "attribute values"); }
  for (auto &e : r.params) { auto it = m.params.find(e.first); dw_check(it != m.params.end() && same(it->second.data().shape(), e.second.data().shape()), "parameter shapes"); }
  for (auto &e : r.buffers) { auto it = m.buffers.find(e.first); dw_check(it != m.buffers.end() && same(it->second.shape(), e.second.shape()), "buffer shapes"); }
  if (!run) return;
  Layer l; l.info = ci.info; l.in = s; l.out = o.shape(); l.cpu = dw::cpu::ICPULayer::create(l.info);
  symbolic_state(k, d); copy_state(d, l); if (k == DROP) { d.train(false); l.train(false); }
  Io a = io(k, d, s[0], "x", "g"), b = copy(a); no_ties(k, a); d.cpu->forward(a.x, a.y); l.cpu->forward(b.x, b.y); check_io(a, b, "the created layer computes the same function");
}
ENTRY e_make_plain() { int k = size_in("kind", 0, KINDS - 1); dw_assume(k != POOL && k != CONV); Attr at; if (k == LINEAR) at.u = size_in("units", 1, 3); else { at.a = dw_sym_float("a"); at.b = dw_sym_float("b"); dw_assume(at.a >= 0 && at.a <= 8 && at.b >= 0 && at.b <= 8); if (k == BN1 || k == BN2) dw_assume(at.a > 0.001f); if (k == DROP) dw_assume(at.a <= 0.9f); } mk(k, at, in_shape(k, size_in("n", 1, 2)), true); }
ENTRY e_make_attrs() { int k = size_in("kind", 0, KINDS - 1); Attr at; at.u = k == LINEAR || k == CONV ? size_in("units", 1, 2) : 1; at.a = dw_sym_float("a"); at.b = dw_sym_float("b");
  if (k == POOL || k == CONV) { for (int i = 0; i < 2; i++) { at.k[i] = k == CONV ? size_in("k", 1, 2) : (int)dw_sym_int("k", 1, 9); at.p[i] = (int)dw_sym_int("p", 0, 9); at.s[i] = (int)dw_sym_int("s", 1, 9); } } mk(k, at, k == POOL || k == CONV ? Shape{1, 1, 9, 11} : in_shape(k, 1), false); }
ENTRY e_make_window() { int k = flag("conv") ? CONV : POOL; Attr at; at.k = A2{size_in("kh", 1, 2), size_in("kw", 1, 2)}; at.s = A2{size_in("sh", 1, 2), size_in("sw", 1, 2)}; at.p = A2{size_in("p", 0, 1), 0}; dw_assume(at.p[0] < at.k[0]); Shape s = in_shape(k, 1); if (k == POOL) { s = Shape{1, 1, 2, 2}; } mk(k, at, s, true); }
ENTRY e_make_reject() {
  static const char *bad[] = {"", "linear", "Conv", "ReLU ", "Linear2", "Unknown", "RELU"};
  dw::Attributes all; all["units"] = 2; all["alpha"] = 1.f; all["eps"] = 1.f; all["p"] = 0.5f; dw::Placeholder x(Shape{1, 2}); int i = size_in("which", 0, 6);
  dw_check(throws([&] { dw::make_layer(bad[i], "n", all, {x}); }), "an unknown layer type is rejected");
  dw::LayerInfo li("n", bad[i]); dw_check(throws([&] { dw::cpu::ICPULayer::create(li); }), "the CPU backend rejects an unknown layer type");
}
// parallel regions: every pair of accesses of two threads to one address is compared, for every value and geometry
static void par(int k, const Attr &at, const Shape &s, int N) {
  Layer l = direct(k, at, s, "l"), q = direct(k, at, s, "q"); symbolic_state(k, l); copy_state(l, q); if (k == DROP) { l.train(false); q.train(false); }
  Io a = io(k, l, N, "x", "g"); no_ties(k, a);
  Io one = copy(a); dw_race_on(); l.cpu->forward(a.x, a.y); back(l, a);
  if (k == BN1 || k == BN2) return;
  // a batch gives what its samples give one by one: the loops over the batch have one iteration each then
  size_t xi = one.x[0].total() / N, yi = one.y[0].total() / N; Shape sx = one.x[0].shape(), sy = one.y[0].shape(); sx[0] = sy[0] = 1; std::map<std::string, VF> sum;
  for (int b = 0; b < N; b++) {
    Io t; for (size_t i = 0; i < one.x.size(); i++) { t.x.push_back(Tensor(sx, one.x[i].data() + b * xi)); t.gx.push_back(Tensor(sx, one.gx[i].data() + b * xi)); } t.y.push_back(Tensor(sy, one.y[0].data() + b * yi)); t.gy.push_back(Tensor(sy, one.gy[0].data() + b * yi));
    q.cpu->forward(t.x, t.y); back(q, t);
    for (auto &p : q.info.impl().params) { VF &v = sum[p.first], g = values(p.second.grad()); v.resize(g.size()); for (size_t i = 0; i < g.size(); i++) v[i] += g[i]; }
  }
  check_io(a, one, "a batch gives the result of its samples"); if (k == LINEAR || k == CONV) for (auto &p : l.info.impl().params) check_all(p.second.grad(), sum[p.first], "parameter gradients of a batch are the sum over its samples");
}
ENTRY e_par() { int k = size_in("kind", 0, KINDS - 1); Attr at; dw_assume(k != CONV && k != ADD); if (k == DROP) at.a = 0.f; int n = size_in("n", 2, DEEP(3, 5)); par(k, at, in_shape(k, n), n); }
ENTRY e_par_conv() { Attr at; at.k = A2{size_in("kh", 1, 2), size_in("kw", 1, 2)}; at.s = A2{size_in("sh", 1, 2), 1}; at.p = A2{size_in("ph", 0, 1), size_in("pw", 0, 1)}; at.u = size_in("out", 1, 2); int n = size_in("n", 1, DEEP(8, 16)); par(CONV, at, {n, size_in("c", 1, 2), 2, 3}, n); }
ENTRY e_par_conv_large() { Attr at; at.k = A2{1, 2}; at.u = 1; int n = size_in("n", 9, DEEP(12, 16)); if (n == DEEP(12, 16)) n = DEEP(17, 33); par(CONV, at, {n, 1, 1, 3}, n); }
ENTRY e_par_large() { int k = flag("add") ? ADD : GAP; par(k, Attr(), in_shape(k, 17), 17); }
ENTRY e_par_add() { int n = size_in("n", 1, DEEP(8, 24)); par(ADD, Attr(), {n, 1}, n); }
// malformed calls are refused and change nothing
static void refused(Layer &l, std::vector<Tensor> in, std::vector<Tensor> out, bool bad, bool only) {
  std::vector<VF> I, O; for (auto &t : in) I.push_back(values(t)); for (auto &t : out) O.push_back(values(t)); std::map<std::string, VF> P, S; for (auto &p : l.info.impl().params) P[p.first] = values(p.second.data()); for (auto &b : l.info.impl().buffers) S[b.first] = values(b.second);
  bool t = throws([&] { l.cpu->forward(in, out); }); if (bad) dw_check(t, "a malformed call is refused"); else if (!only) dw_check(!t, "a well-formed call is accepted");
  if (!t) return;
  for (size_t i = 0; i < in.size(); i++) check_all(in[i], I[i], "a refused call changes no input"); for (size_t i = 0; i < out.size(); i++) check_all(out[i], O[i], "a refused call writes no output");
  for (auto &p : l.info.impl().params) check_all(p.second.data(), P[p.first], "a refused call changes no parameter"); for (auto &b : l.info.impl().buffers) check_all(b.second, S[b.first], "a refused call changes no running statistics");
}
static Shape out_shape(int k, const Shape &s) { return k == LINEAR ? Shape{s[0], 2} : s; }
ENTRY e_arity() { // one input and one output
  static const int ks[] = {LINEAR, RELU, ELU, LEAKY, SIGMOID, SOFTMAX, BN1, BN2, DROP}; int k = ks[size_in("kind", 0, 8)]; Attr at; if (k == DROP) at.a = 0.f; Shape s = in_shape(k, 2); Layer l = direct(k, at, s, "l"); symbolic_state(k, l); l.train(flag("train"));
  int ni = size_in("inputs", 0, 3), no = size_in("outputs", 0, 3); std::vector<Tensor> in, out; for (int i = 0; i < ni; i++) { in.push_back(sym_tensor("x", s)); bounded(values(in.back()), 8); } for (int i = 0; i < no; i++) out.push_back(sym_tensor("y", out_shape(k, s)));
  refused(l, in, out, ni != 1 || no != 1, false);
}
static Shape ranked(int r) { Shape s{2}; for (int i = 1; i < r; i++) s.push_back(i == 1 ? 2 : 1); return s; }
ENTRY e_ranks() { // tensors of the rank the layer works on
  static const int ks[] = {LINEAR, SOFTMAX, BN1, BN2}; int k = ks[size_in("kind", 0, 3)], want = k == BN2 ? 4 : 2; Layer l = direct(k, Attr(), ranked(want), "l"); symbolic_state(k, l); l.train(flag("train"));
  int ri = size_in("rank_in", 1, 5), ro = size_in("rank_out", 1, 5); Tensor x = sym_tensor("x", ranked(ri)), y = sym_tensor("y", ranked(ro)); bounded(values(x), 8);
  if (k == LINEAR) refused(l, {x}, {y}, ri == 1 || ro == 1, true); else refused(l, {x}, {y}, ri != want || ro != want, false);
}
ENTRY e_shapes() { // an output of the shape of the input
  static const int ks[] = {RELU, ELU, LEAKY, SIGMOID, DROP}; int k = ks[size_in("kind", 0, 4)]; Attr at; if (k == DROP) at.a = 0.f; Shape s{2, 2}; Layer l = direct(k, at, s, "l"); l.train(flag("train"));
  static const Shape o[] = {{2, 2}, {4}, {2, 1}, {2, 3}, {1, 2}, {3, 2}, {2, 2, 1}, {1, 2, 2}, {2, 0}}; Shape os = o[size_in("shape", 0, 8)]; Tensor x = sym_tensor("x", s), y = sym_tensor("y", os); bounded(values(x), 8); refused(l, {x}, {y}, !same(s, os), false);
}
// longer histories: three calls of various sizes, modes and depths before the one that is compared
ENTRY e_hist_long() {
  int k = size_in("kind", 0, KINDS - 1), seq = size_in("sizes", 0, DEEP(3, 7)), n = size_in("n", 1, 3), bs = size_in("backward", 0, 2); static const int Z[][3] = {{3, 1, 2}, {1, 3, 1}, {2, 3, 3}, {1, 2, 3}, {3, 3, 1}, {1, 1, 1}, {2, 1, 3}, {3, 2, 1}};
  Attr at; if (k == DROP) at.a = 0.f; bool modes = k == BN1 || k == BN2 || k == DROP; int m = modes ? size_in("modes", 0, 3) : 0; if (k == BN1 || k == BN2) dw_assume(seq < 2 && bs < 2);
  Layer a = direct(k, at, in_shape(k, 2), "a"); symbolic_state(k, a); std::vector<Io> old, kept;
  for (int t = 0; t < 3; t++) {
    bool train = m == 0 || (m == 1 && t != 1) || (m == 2 && t == 1); if (modes) a.train(train);
    Io d = io(k, a, Z[seq][t], "x", "g"); no_ties(k, d); a.cpu->forward(d.x, d.y); if ((train || !modes) && (bs == 2 || (bs == 1 && t == 1))) back(a, d);
    old.push_back(d); kept.push_back(copy(d));
    for (auto &p : a.info.impl().params) set(p.second.grad(), VF(p.second.grad().total()));
    if (k == BN1 || k == BN2) { dw_sym_floats("mean", a.buffer("running_mean").data(), 2); dw_sym_floats("var", a.buffer("running_var").data(), 2); for (float v : values(a.buffer("running_var"))) dw_assume(v >= 0 && v <= 100); }
  }
  if (modes) a.train(true); Layer b = direct(k, at, in_shape(k, n), "b"); copy_state(a, b); Io d = io(k, a, n, "x4", "g4"), r = copy(d); no_ties(k, d);
  a.cpu->forward(d.x, d.y); b.cpu->forward(r.x, r.y); check_io(d, r, "forward does not depend on earlier batches"); back(a, d); back(b, r); check_io(d, r, "backward does not depend on earlier batches or on other layers");
  for (auto &p : a.info.impl().params) if (p.first != "mask") check_all(p.second.grad(), values(b.info.impl().params.at(p.first).grad()), "parameter gradients do not depend on earlier batches");
  for (auto &s : a.info.impl().buffers) check_all(s.second, values(b.info.impl().buffers.at(s.first)), "buffers follow from the state and the batch alone");
  for (size_t t = 0; t < old.size(); t++) check_io(old[t], kept[t], "results handed out earlier are not touched by later calls");
}
ENTRY e_make_sizes() { // attributes of any size, with the parameters they call for
  int k = size_in("kind", 0, 3); Attr at; at.u = 1; Shape s; if (k == 0) { k = LINEAR; at.u = size_in("many", 0, 1) ? 300 : 67; s = {2, 3}; } else if (k == 1) { k = CONV; at.u = size_in("many", 0, 1) ? 70 : 17; at.k = A2{2, 3}; at.p = A2{1, 2}; at.s = A2{3, 2}; s = {1, 2, 6, 5}; } else if (k == 2) { k = BN1; at.a = 0.5f; s = {2, 300}; } else { k = BN2; s = {1, 70, 1, 2}; }
  mk(k, at, s, false);
}
