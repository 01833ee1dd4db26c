#include "common.hpp"
#include <deepworks/model.hpp>
#include <deepworks/serialization.hpp>
#include <fstream>
#include <map>
#include <cstring>
#include "ade/ade_standin.hpp"
typedef std::vector<char> Bytes;
static Bytes slurp(const std::string &p) { std::ifstream f(p, std::ios::in | std::ios::binary); Bytes b; char c; for (;;) { f.read(&c, 1); if (!f) break; b.push_back(c); } return b; }
static void spit(const std::string &p, const Bytes &b, size_t n) { std::ofstream f(p, std::ios::out | std::ios::binary); f.write(b.data(), (long)n); f.close(); }
static void fill(dw::Model &m, const char *n) { for (auto &l : m.layers()) { for (const char *p : {"weight", "bias", "gamma", "beta", "running_mean", "running_var"}) { auto it = m.state().find(l.name() + "." + p); if (it != m.state().end()) dw_sym_floats(n, it->second.data(), it->second.total()); } } }
static std::map<std::string, VF> dump(const dw::Model &m) { std::map<std::string, VF> r; for (auto &s : m.state()) r[s.first] = values(s.second); return r; }
static void same_state(const dw::Model &m, const std::map<std::string, VF> &e, const char *msg) { dw_check(m.state().size() == e.size(), "the state has the same entries"); for (auto &s : m.state()) { auto it = e.find(s.first); dw_check(it != e.end(), "the state has the same entries"); check_all(s.second, it->second, msg); } }
static dw::Model chain(int units, bool bn, const char *fc) { dw::Placeholder in(Shape{1, 2}), x = dw::Linear(units, fc)(in); if (bn) x = dw::BatchNorm1D(0.5f, 0.25f, "bn")(x); return dw::Model(in, x); }
ENTRY e_state() {
  int units = size_in("units", 1, DEEP(3, 9)); bool bn = flag("bn"), st = flag("stream"); dw::Model a = chain(units, bn, "fc"), b = chain(units, bn, "fc"); fill(a, "a"); fill(b, "b"); auto A = dump(a);
  if (st) { { std::ofstream f("st", std::ios::out | std::ios::binary); dw::save_state(a.state(), f); } std::ifstream g("st", std::ios::in | std::ios::binary); dw::load_state(b.state(), g); }
  else { dw::save_state(a.state(), "st"); dw::load_state(b.state(), "st"); }
  same_state(b, A, "every parameter and buffer equals the saved one"); same_state(a, A, "saving does not change the model");
  for (auto &l : b.layers()) { for (auto &p : l.params()) check_all(p.second.data(), A[l.name() + "." + p.first], "the layers see the loaded values"); for (auto &p : l.buffers()) check_all(p.second, A[l.name() + "." + p.first], "the layers see the loaded values"); }
  // saving again to the same path replaces the file; loading is repeatable
  fill(a, "c"); auto A2 = dump(a); dw::save_state(a.state(), "st"); dw::load_state(b.state(), "st"); same_state(b, A2, "a later save replaces an earlier one");
}
ENTRY e_state_reject() {
  int w = size_in("which", 0, 3); dw::Model a = chain(2, w == 2, "fc"); fill(a, "a"); dw::save_state(a.state(), "st");
  dw::Model b = w == 0 ? chain(3, false, "fc") : w == 1 ? chain(2, false, "fd") : w == 2 ? chain(2, false, "fc") : chain(2, false, "fc");
  dw_check(throws([&] { dw::load_state(b.state(), "st"); }) == (w != 3), "a state of other layers or shapes is rejected");
}
// state dictionaries of any shapes and names
static Shape any_shape(const char *n, int hi) { Shape s; int r = size_in(n, 1, 3); for (int i = 0; i < r; i++) s.push_back(size_in("dim", 1, hi)); return s; }
ENTRY e_state_shapes() {
  Shape s = any_shape("saved_rank", DEEP(2, 3)), t = any_shape("loaded_rank", DEEP(2, 3)); dw::Model::StateDict a, b; a.emplace("w", sym_tensor("a", s)); Tensor w = sym_tensor("b", t); VF A = values(a.at("w")); b.emplace("w", w); dw::save_state(a, "st");
  bool bad = throws([&] { dw::load_state(b, "st"); }); dw_check(bad == !same(s, t), "a state of another shape is rejected, one of the same shape is not");
  if (!bad) check_all(w, A, "the loaded tensor equals the saved one"); dw_check(same(w.shape(), t), "loading keeps the shape");
}
ENTRY e_state_entries() {
  static const char *N[] = {"a", "b", "ab", "a.b", "", "A"}; int i = size_in("saved", 0, 5), j = size_in("loaded", 0, 5), k = size_in("other", 0, 5); dw_assume(k != j); dw::Model::StateDict a, b; Tensor x = sym_tensor("x", {2}), y = sym_tensor("y", {2}), z = sym_tensor("z", {2}); VF X = values(x), Y = values(y), Z = values(z);
  a.emplace(N[i], x); b.emplace(N[j], y); b.emplace(N[k], z); dw::save_state(a, "st"); bool bad = throws([&] { dw::load_state(b, "st"); });
  if (i != j && i != k) { dw_check(bad, "an entry of another name is rejected"); return; }
  if (!bad) { check_all(y, i == j ? X : Y, "the entry of the name is loaded and no other"); check_all(z, i == k ? X : Z, "the entry of the name is loaded and no other"); }
}
ENTRY e_state_bits() { // every bit pattern of a float, NaN included
  dw_bit_precise(1); dw::Model::StateDict a, b; a.emplace("w", sym_tensor("a", {3})); b.emplace("w", sym_tensor("b", {3})); const float *p = a.at("w").data(), *q = b.at("w").data(); dw::save_state(a, "st"); dw::load_state(b, "st");
  for (int i = 0; i < 3; i++) { unsigned u, v; memcpy(&u, p + i, 4); memcpy(&v, q + i, 4); dw_check(u == v, "every float is restored bit for bit"); }
}
ENTRY e_save_fails() { dw::Model a = chain(1, false, "fc"); std::string p = flag("full") ? "/dev/full" : "no-such-directory/file"; int w = size_in("what", 0, 2); dw_check(throws([&] { if (w == 0) dw::save_state(a.state(), p); else if (w == 1) dw::save_cfg(a.cfg(), p); else dw::save(a, p); }), "a save that cannot be written is reported"); }
// long names, many layers, long tensors, four-dimensional parameters
static void roundtrip(dw::Model &a, dw::Model &b) {
  fill(a, "a"); fill(b, "b"); auto A = dump(a); bool st = flag("stream");
  if (st) { { std::ofstream f("st", std::ios::out | std::ios::binary); dw::save_state(a.state(), f); } std::ifstream g("st", std::ios::in | std::ios::binary); dw::load_state(b.state(), g); } else { dw::save_state(a.state(), "st"); dw::load_state(b.state(), "st"); }
  same_state(b, A, "every parameter and buffer equals the saved one"); same_state(a, A, "saving does not change the model");
}
static std::string longname(int w) { static const int L[] = {1, 15, 16, 31, 64, 127, 128, 255, 256, 300}; std::string s; for (int i = 0; i < L[w]; i++) s += (char)(' ' + (i * 7 + 65) % 95); return s; }
ENTRY e_state_names() { std::string n = longname(size_in("length", 0, 9)); dw::Model a = chain(1, false, n.c_str()), b = chain(1, false, n.c_str()); roundtrip(a, b); }
ENTRY e_state_big() { int u = DEEP(67, 131); dw::Model a = chain(u, true, "fc"), b = chain(u, true, "fc"); roundtrip(a, b); }
static dw::Model deep(int n) { dw::Placeholder in(Shape{1, 1}), x = in; for (int i = 0; i < n; i++) { std::string s = i % 3 == 1 ? "" : "layer" + std::to_string(i); x = i % 3 == 2 ? dw::BatchNorm1D(0.5f, 0.25f, s)(x) : dw::Linear(1, s)(x); } return dw::Model(in, x); }
ENTRY e_state_many() { int n = DEEP(14, 40); dw::Model a = deep(n), b = deep(n); roundtrip(a, b); }
static dw::Model image() { dw::Placeholder in(Shape{1, 2, 4, 3}); return dw::Model(in, dw::BatchNorm2D(0.5f, 0.25f, "bn")(dw::Convolution(3, std::array<int, 2>{3, 2}, std::array<int, 2>{0, 0}, std::array<int, 2>{1, 1}, "conv")(in))); }
ENTRY e_state_conv() { dw::Model a = image(), b = image(); roundtrip(a, b); }
// damaged files
static void truncated(int what, size_t cut) {
  dw::Model a = chain(1, what == 0, "fc"); if (what == 0) dw::save_state(a.state(), "f"); else if (what == 1) dw::save_cfg(a.cfg(), "f"); else dw::save(a, "f");
  Bytes b = slurp("f"); dw_assume(cut <= b.size()); if (cut == b.size()) dw_reach(what == 0 ? "whole state file" : what == 1 ? "whole config file" : "whole model file"); spit("g", b, cut); dw::Model c = chain(1, what == 0, "fc");
  dw_check(throws([&] { if (what == 0) dw::load_state(c.state(), "g"); else if (what == 1) dw::load_cfg("g"); else dw::load("g"); }) == (cut < b.size()), "a truncated file is rejected and a whole one is not");
}
ENTRY e_trunc_state() { truncated(0, size_in("cut", 0, 300)); }
ENTRY e_trunc_cfg() { truncated(1, size_in("cut", 0, 300)); }
ENTRY e_trunc_model() { truncated(2, size_in("cut", 0, 440)); }
ENTRY e_missing() { int w = size_in("what", 0, 2); dw::Model c = chain(1, false, "fc"); dw_check(throws([&] { if (w == 0) dw::load_state(c.state(), "nothing-here"); else if (w == 1) dw::load_cfg("nothing-here"); else dw::load("nothing-here"); }), "a missing file is rejected"); }
ENTRY e_wrong_kind() { int s = size_in("saved", 0, 1), w = size_in("what", 0, 2); dw::Model a = chain(2, false, "fc"); if (s == 0) dw::save_state(a.state(), "f"); else dw::save_cfg(a.cfg(), "f"); dw::Model c = chain(2, false, "fc");
  bool ok = (s == 0 && w == 0) || (s == 1 && w == 1); dw_check(throws([&] { if (w == 0) dw::load_state(c.state(), "f"); else if (w == 1) dw::load_cfg("f"); else dw::load("f"); }) == !ok, "a file of the other kind is rejected"); }
ENTRY e_bad_kind() { dw::Model a = chain(1, false, "fc"); bool st = flag("state"); if (st) dw::save_state(a.state(), "f"); else dw::save_cfg(a.cfg(), "f"); Bytes b = slurp("f"); int k = (int)dw_sym_int("kind", -3, 300); dw_assume(k != (st ? 0 : 1)); for (int i = 0; i < 4; i++) b[i] = (char)((unsigned)k >> (8 * i)); spit("f", b, b.size()); dw_check(throws([&] { if (st) dw::load_state(a.state(), "f"); else dw::load_cfg("f"); }), "an unknown kind of file is rejected"); }
// configuration
typedef std::array<int, 2> A2;
static bool same_attr(const dw::Attribute &x, const dw::Attribute &y) { if (x.type() != y.type() || x.shape() != y.shape()) return false; bool i = x.type() == dw::AttrType::INT; if (x.shape() == dw::AttrShape::VALUE) return i ? x.get<int>() == y.get<int>() : x.get<float>() == y.get<float>(); return i ? x.get<A2>() == y.get<A2>() : x.get<std::array<float, 2>>() == y.get<std::array<float, 2>>(); }
static dw::Model again(dw::Model &a, int how) { if (how == 0) { dw::save(a, "m"); return dw::load("m"); } if (how == 1) { dw::save_cfg(a.cfg(), "m"); return dw::Model::Build(dw::load_cfg("m")); } if (how == 2) { { std::ofstream f("m", std::ios::out | std::ios::binary); dw::save_cfg(a.cfg(), f); } std::ifstream g("m", std::ios::in | std::ios::binary); return dw::Model::Build(dw::load_cfg(g)); } return dw::Model::Build(a.cfg()); }
static void same_model(dw::Model &a, dw::Model &b) {
  dw_check(a.inputs().size() == b.inputs().size() && a.outputs().size() == b.outputs().size() && a.layers().size() == b.layers().size(), "as many inputs, outputs and layers");
  std::map<const void *, const void *> ph; auto link = [&](const dw::Placeholder &x, const dw::Placeholder &y) { dw_check(same(x.shape(), y.shape()), "placeholders keep their shape"); auto it = ph.emplace(&x.impl(), &y.impl()).first; dw_check(it->second == &y.impl(), "the connections are the same"); };
  for (size_t i = 0; i < a.inputs().size(); i++) link(a.inputs()[i], b.inputs()[i]);
  for (auto &l : a.layers()) { dw::Layer q = b.getLayer(l.name()); dw_check(q.type() == l.type() && q.inputs().size() == l.inputs().size() && q.outputs().size() == l.outputs().size(), "layers keep name, type and arity"); for (size_t i = 0; i < l.inputs().size(); i++) link(l.inputs()[i], q.inputs()[i]); for (size_t i = 0; i < l.outputs().size(); i++) link(l.outputs()[i], q.outputs()[i]); dw_check(l.params().size() == q.params().size() && l.buffers().size() == q.buffers().size(), "same parameters"); for (auto &p : l.params()) dw_check(same(p.second.data().shape(), q.params().at(p.first).data().shape()), "same parameter shapes"); }
  for (size_t i = 0; i < a.outputs().size(); i++) link(a.outputs()[i], b.outputs()[i]);
  dw_check(a.cfg().sorted_ops.size() == b.cfg().sorted_ops.size(), "as many operations");
  for (auto &o : a.cfg().sorted_ops) { bool found = false; for (auto &p : b.cfg().sorted_ops) if (p.name == o.name) { found = true; dw_check(p.type == o.type && p.attrs.size() == o.attrs.size(), "operations keep their type and attributes"); for (auto &e : o.attrs) { auto it = p.attrs.find(e.first); dw_check(it != p.attrs.end() && same_attr(it->second, e.second), "attributes keep their values"); } } dw_check(found, "every operation is there"); }
}
ENTRY e_cfg_types() { // one layer of every type with its attributes
  int k = size_in("kind", 0, 12); float a = dw_sym_float("a"), b = dw_sym_float("b"); A2 K{size_in("kh", 1, 2), 1}, P{(int)dw_sym_int("ph", 0, 1000), (int)dw_sym_int("pw", 0, 1000)}, S{(int)dw_sym_int("sh", 1, 1000), (int)dw_sym_int("sw", 1, 1000)}; int u = size_in("units", 1, 2);
  dw_assume(k == 8 || k == 9 || K[0] == 1); dw_assume(k == 0 || k == 9 || u == 1);
  Shape s2{1, 2}, s4{1, 2, 5, 5}; dw::Placeholder x(k == 7 || k == 8 || k == 9 || k == 11 ? s4 : s2), y(s2), o; std::string n = flag("named") ? "layer" : "";
  switch (k) { case 0: o = dw::Linear(u, n)(x); break; case 1: o = dw::ReLU(n)(x); break; case 2: o = dw::ELU(a, n)(x); break; case 3: o = dw::LeakyReLU(a, n)(x); break; case 4: o = dw::Sigmoid(n)(x); break; case 5: o = dw::Softmax(n)(x); break; case 6: o = dw::BatchNorm1D(a, b, n)(x); break; case 7: o = dw::BatchNorm2D(a, b, n)(x); break; case 8: o = dw::MaxPooling(K, P, S, n)(x); break; case 9: o = dw::Convolution(u, K, P, S, n)(x); break; case 10: o = dw::Dropout(a, n)(x); break; case 11: o = dw::GlobalAvgPooling(n)(x); break; default: o = dw::Add(n)(x, y); }
  dw::Placeholders in{x}; if (k == 12) in.push_back(y); dw::Model m(in, {o}); dw::Model r = again(m, size_in("how", 0, 1)); same_model(m, r); if (k == 0 || k == 6) { dw::Model q = again(m, 0); same_state(q, dump(m), "the state comes along"); }
}
ENTRY e_cfg_any() { // any configuration, not only one a model produces
  dw::Model::Config c; int ni = size_in("inputs", 0, 2), no = size_in("outputs", 0, 2), np = size_in("placeholders", 0, 2), nops = size_in("ops", 0, 2), kind = size_in("kinds", 0, 4); auto id = [] { return (int)dw_sym_int("id", -2147483647, 2147483647); };
  for (int i = 0; i < ni; i++) c.input_ids.push_back(id()); for (int i = 0; i < no; i++) c.output_ids.push_back(id());
  for (int i = 0; i < np; i++) { Shape s; for (int j = 0; j < 1 + 3 * i; j++) s.push_back((int)dw_sym_int("dim", -1, 2147483647)); int k = i * 1000003 - 7; c.ph_map.emplace(k, dw::Model::Config::PlaceholderInfo{s, k}); }
  for (int i = 0; i < nops; i++) { dw::Model::Config::OperationInfo o; o.name = i ? "second op" : ""; o.type = i ? "Add" : "Linear"; for (int j = 0; j < 2 - i; j++) o.in_ids.push_back(id()); for (int j = 0; j < 2 * i; j++) o.out_ids.push_back(id());
    if (kind == 0 || kind == 4) o.attrs.emplace("units", dw::Attribute(id())); if (kind == 1 || kind == 4) o.attrs.emplace("alpha", dw::Attribute(dw_sym_float("f"))); if (kind == 2 || kind == 4) o.attrs.emplace("kernel", dw::Attribute(A2{id(), id()})); if (kind == 3 || kind == 4) o.attrs.emplace("range", dw::Attribute(std::array<float, 2>{dw_sym_float("f"), dw_sym_float("f")})); c.sorted_ops.push_back(o); }
  dw::save_cfg(c, "f"); dw::Model::Config d = dw::load_cfg("f"); dw_check(c.input_ids == d.input_ids && c.output_ids == d.output_ids && c.ph_map.size() == d.ph_map.size() && c.sorted_ops.size() == d.sorted_ops.size(), "ids and counts are restored");
  for (auto &p : c.ph_map) { auto it = d.ph_map.find(p.first); dw_check(it != d.ph_map.end() && it->second.id == p.second.id && same(it->second.shape, p.second.shape), "placeholders are restored"); }
  for (int i = 0; i < nops; i++) { auto &x = c.sorted_ops[i], &y = d.sorted_ops[i]; dw_check(x.name == y.name && x.type == y.type && x.in_ids == y.in_ids && x.out_ids == y.out_ids && x.attrs.size() == y.attrs.size(), "operations are restored in order"); for (auto &e : x.attrs) { auto it = y.attrs.find(e.first); dw_check(it != y.attrs.end() && same_attr(it->second, e.second), "attributes keep their values"); } }
}
struct Op { int sum, a, b; };
static void all_used(int nin, const std::vector<Op> &ops, const std::vector<int> &outs) {
  std::vector<bool> u(nin + ops.size()); for (int o : outs) u[o] = true; for (int j = (int)ops.size() - 1; j >= 0; j--) if (u[nin + j]) u[ops[j].a] = u[ops[j].b] = true; for (int i = 0; i < nin; i++) dw_assume(u[i]);
}
static void rebuilt(int nin, const std::vector<Op> &ops, const std::vector<int> &outs, const std::vector<int> &ins, int how) {
  dw::Placeholders ph; for (int i = 0; i < nin; i++) ph.push_back(dw::Placeholder(Shape{1, 2}));
  for (size_t j = 0; j < ops.size(); j++) { std::string n = "op" + std::to_string(j); ph.push_back(ops[j].sum ? dw::Add(n)(ph[ops[j].a], ph[ops[j].b]) : dw::Linear(2, n)(ph[ops[j].a])); }
  dw::Placeholders in, out; for (int i : ins) in.push_back(ph[i]); for (int o : outs) out.push_back(ph[o]);
  ade::passes::order() = flag("order"); dw::Model m(in, out); fill(m, "w"); dw::Model r = again(m, how); same_model(m, r);
  if (how) for (auto &s : m.state()) set(r.state().at(s.first), values(s.second));
  m.compile(); r.compile(); std::vector<Tensor> X, Y, Z; for (int i = 0; i < nin; i++) X.push_back(sym_tensor("x", {1, 2})); for (size_t i = 0; i < outs.size(); i++) { Y.push_back(sym_tensor("garbage", {1, 2})); Z.push_back(sym_tensor("garbage", {1, 2})); }
  m.forward(X, Y); r.forward(X, Z); for (size_t i = 0; i < outs.size(); i++) check_all(Z[i], values(Y[i]), "the rebuilt model computes the same outputs");
}
ENTRY e_rebuild() {
  int nin = size_in("inputs", 1, 2), nops = size_in("ops", 1, DEEP(2, 3)); std::vector<Op> ops; for (int j = 0; j < nops; j++) { Op o; o.sum = flag("sum"); o.a = size_in("a", 0, nin + j - 1); o.b = o.sum ? size_in("b", 0, nin + j - 1) : o.a; ops.push_back(o); }
  std::vector<int> outs{nin + nops - 1}, ins; if (nops > 1 && flag("second")) { if (flag("first")) outs.insert(outs.begin(), nin); else outs.push_back(nin); }
  for (int i = 0; i < nin; i++) ins.push_back(i); if (nin == 2 && flag("swap")) std::swap(ins[0], ins[1]);
  all_used(nin, ops, outs); rebuilt(nin, ops, outs, ins, size_in("how", 0, 3));
}
ENTRY e_rebuild_ports() { // any two placeholders as outputs: an input, the same one twice; inputs that no output needs
  bool sum = flag("sum"); int a = size_in("a", 0, 1), b = sum ? size_in("b", 0, 1) : a; rebuilt(2, {{sum, a, b}}, {size_in("out1", 0, 2), size_in("out2", 0, 2)}, {0, 1}, size_in("how", 0, 3)); }
ENTRY e_rebuild_part() { // a model that starts inside an expression
  Shape s{1, 2}; dw::Placeholder x(s), h = dw::Linear(2, "before")(x), z = dw::Linear(2, "after")(h), y = flag("join") ? dw::Add("sum")(z, h) : z; ade::passes::order() = flag("order"); int how = size_in("how", 0, 3);
  dw::Model m(h, y); fill(m, "w"); dw::Model r = again(m, how); same_model(m, r); if (how) for (auto &e : m.state()) set(r.state().at(e.first), values(e.second));
  m.compile(); r.compile(); Tensor X = sym_tensor("x", s), Y = sym_tensor("garbage", s), Z = sym_tensor("garbage", s); m.forward(X, Y); r.forward(X, Z); check_all(Z, values(Y), "the rebuilt model computes the same outputs"); }
ENTRY e_rebuild_large() { rebuilt(3, {{0, 0, 0}, {1, 3, 1}, {0, 4, 4}, {1, 5, 3}, {1, 6, 2}, {1, 7, 7}}, {8, 4, 7}, {2, 0, 1}, size_in("how", 0, 3)); }
ENTRY e_rebuild_deep() { dw::Model m = deep(DEEP(14, 30)); fill(m, "w"); dw::Model r = again(m, size_in("how", 0, 1)); same_model(m, r); if (!r.state().empty()) { dw::Model q = again(m, 0); same_state(q, dump(m), "the state comes along"); } }
ENTRY e_rebuild_names() { std::string n = longname(size_in("length", 0, 9)); dw::Model m = chain(2, true, n.c_str()); fill(m, "w"); dw::Model r = again(m, 0); same_model(m, r); same_state(r, dump(m), "the state comes along"); }
ENTRY e_state_vast() { // long tensors: the first, middle and last element are free
  Vast v; dw::Model::StateDict a, b; Shape s{7, DEEP(10001, 20001)}; Tensor y = sym_tensor("b", s); a.emplace("w", sym_tensor("a", s)); a.emplace("v", sym_tensor("c", {3})); b.emplace("w", y); b.emplace("v", sym_tensor("d", {3})); VF A = values(a.at("w")), C = values(a.at("v")); bool st = flag("stream");
  if (st) { { std::ofstream f("st", std::ios::out | std::ios::binary); dw::save_state(a, f); } std::ifstream g("st", std::ios::in | std::ios::binary); dw::load_state(b, g); } else { dw::save_state(a, "st"); dw::load_state(b, "st"); }
  check_all(y, A, "every parameter and buffer equals the saved one"); check_all(b.at("v"), C, "every parameter and buffer equals the saved one"); check_all(a.at("w"), A, "saving does not change the model");
}
ENTRY e_state_entries_many() { // many entries
  int n = DEEP(300, 600); dw::Model::StateDict a, b; std::vector<Tensor> A, B; for (int i = 0; i < n; i++) { std::string s = "layer" + std::to_string(i * 7919 % 1000) + ".weight"; A.push_back(Tensor({1})); A.back().data()[0] = i + 0.5f; if (i % 97 == 5) dw_sym_floats("a", A.back().data(), 1); B.push_back(Tensor::zeros({1})); a.emplace(s, A.back()); b.emplace(s, B.back()); }
  dw::save_state(a, "st"); dw::load_state(b, "st"); for (int i = 0; i < n; i++) dw_check_eqf(B[i].data()[0], A[i].data()[0], "every entry is restored");
}
ENTRY e_cfg_many() { // many inputs, placeholders and operations
  int n = DEEP(300, 600); dw::Model::Config c; auto id = [&](int i) { return i % 101 == 7 ? (int)dw_sym_int("id", -2147483647, 2147483647) : i * 7919 - 1000; };
  for (int i = 0; i < n; i++) { c.input_ids.push_back(id(i)); c.output_ids.push_back(id(i + 1)); int k = i * 31 + 1; Shape s{1 + i, 300 - i % 7}; c.ph_map.emplace(k, dw::Model::Config::PlaceholderInfo{s, k}); dw::Model::Config::OperationInfo o; o.name = "op" + std::to_string(i); o.type = i % 2 ? "Add" : "Linear"; for (int j = 0; j <= i % 3; j++) o.in_ids.push_back(id(i + j)); o.out_ids.push_back(id(i + 2)); if (i % 3) o.attrs.emplace("units", dw::Attribute(id(i + 5))); c.sorted_ops.push_back(o); }
  { auto &o = c.sorted_ops[n / 2]; for (int j = 0; j < n; j++) { o.in_ids.push_back(id(j + 3)); o.out_ids.push_back(id(j + 4)); o.attrs.emplace("a" + std::to_string(j), dw::Attribute(id(j + 9))); } }
  Shape deep; for (int i = 0; i < n; i++) deep.push_back(i); c.ph_map.emplace(-5, dw::Model::Config::PlaceholderInfo{deep, -5});
  dw::save_cfg(c, "f"); dw::Model::Config d = dw::load_cfg("f"); dw_check(c.input_ids == d.input_ids && c.output_ids == d.output_ids && c.ph_map.size() == d.ph_map.size() && c.sorted_ops.size() == d.sorted_ops.size(), "ids and counts are restored");
  for (auto &p : c.ph_map) { auto it = d.ph_map.find(p.first); dw_check(it != d.ph_map.end() && it->second.id == p.second.id && same(it->second.shape, p.second.shape), "placeholders are restored"); }
  for (int i = 0; i < n; i++) { auto &x = c.sorted_ops[i], &y = d.sorted_ops[i]; dw_check(x.name == y.name && x.type == y.type && x.in_ids == y.in_ids && x.out_ids == y.out_ids && x.attrs.size() == y.attrs.size(), "operations are restored in order"); for (auto &e : x.attrs) { auto it = y.attrs.find(e.first); dw_check(it != y.attrs.end() && same_attr(it->second, e.second), "attributes keep their values"); } }
}
