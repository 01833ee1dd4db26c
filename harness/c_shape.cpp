#include "common.hpp"
typedef std::array<int, 2> A2;
static A2 a2(const char *n, int lo, int hi) { A2 r; r[0] = (int)dw_sym_int(n, lo, hi); r[1] = (int)dw_sym_int(n, lo, hi); return r; }
static A2 a2s(const char *n, int lo, int hi) { A2 r; r[0] = size_in(n, lo, hi); r[1] = size_in(n, lo, hi); return r; }
static bool is_out(long in, long k, long p, long s, long out) { // the largest number of windows that fit
  return out >= 1 && (out - 1) * s + k <= in + 2 * p && out * s + k > in + 2 * p;
}
static void params_ok(Layer &l) { for (auto &p : l.info.impl().params) { dw_check(p.second.is_trainable(), "a new layer is in training mode"); dw_check(same(p.second.grad().shape(), p.second.data().shape()), "gradients have the shape of their parameter"); check_all(p.second.grad(), VF(p.second.grad().total(), 0.f), "gradients start at zero"); } }
// spatial inference with fully symbolic geometry
ENTRY e_pool_shape() {
  A2 k = a2("kernel", 1, 64), p = a2("pad", 0, 32), s = a2("stride", 1, 64);
  Shape in{(int)dw_sym_int("n", 1, 1024), (int)dw_sym_int("c", 1, 1024), (int)dw_sym_int("h", 1, 1024), (int)dw_sym_int("w", 1, 1024)};
  dw_assume(in[2] + 2 * p[0] >= k[0] && in[3] + 2 * p[1] >= k[1]);
  dw::Placeholder o = dw::MaxPooling(k, p, s, "p")(dw::Placeholder(in));
  dw_check(o.shape().size() == 4 && o.shape()[0] == in[0] && o.shape()[1] == in[1], "pooling keeps batch and channels");
  dw_check(is_out(in[2], k[0], p[0], s[0], o.shape()[2]), "pooling height is the number of windows that fit");
  dw_check(is_out(in[3], k[1], p[1], s[1], o.shape()[3]), "pooling width is the number of windows that fit");
}
ENTRY e_conv_shape() {
  A2 k = a2s("kernel", 1, DEEP(3, 5)), p = a2("pad", 0, 16), s = a2("stride", 1, 32);
  Shape in{(int)dw_sym_int("n", 1, 1024), size_in("c", 1, DEEP(2, 3)), (int)dw_sym_int("h", 1, 1024), (int)dw_sym_int("w", 1, 1024)}; int oc = size_in("out", 1, DEEP(2, 4));
  dw_assume(in[2] + 2 * p[0] >= k[0] && in[3] + 2 * p[1] >= k[1]);
  Layer l = make(dw::Convolution(oc, k, p, s, "c"), in);
  dw_check(l.out.size() == 4 && l.out[0] == in[0] && l.out[1] == oc, "convolution keeps the batch and produces the requested channels");
  dw_check(is_out(in[2], k[0], p[0], s[0], l.out[2]), "convolution height is the number of windows that fit");
  dw_check(is_out(in[3], k[1], p[1], s[1], l.out[3]), "convolution width is the number of windows that fit");
  dw_check(same(l.param("weight").shape(), {oc, in[1], k[0], k[1]}) && same(l.param("bias").shape(), {oc}), "convolution parameters have the documented shapes");
  check_all(l.param("bias"), VF(oc, 0.f), "bias starts at zero"); dw_check(l.info.impl().params.size() == 2 && l.info.impl().buffers.empty(), "parameters"); params_ok(l);
}
ENTRY e_linear_shape() {
  int r = size_in("rank", 2, 4), u = size_in("units", 1, 3); Shape in{(int)dw_sym_int("n", 1, 4096)}; for (int i = 1; i < r; i++) in.push_back(size_in("d", 1, DEEP(3, 5)));
  Layer l = make(dw::Linear(u, "l"), in);
  dw_check(same(l.out, {in[0], u}), "Linear maps to [batch, units]"); long k = prod(in) / in[0];
  dw_check(same(l.param("weight").shape(), {u, (int)k}) && same(l.param("bias").shape(), {u}), "Linear parameters have the documented shapes");
  check_all(l.param("bias"), VF(u, 0.f), "bias starts at zero"); dw_check(l.info.impl().params.size() == 2 && l.info.impl().buffers.empty(), "parameters"); params_ok(l);
}
ENTRY e_same_shape() {
  int k = size_in("kind", 0, 5), r = size_in("rank", 1, 4); Shape in; for (int i = 0; i < r; i++) in.push_back(k == 5 ? size_in("ds", 1, 2) : (int)dw_sym_int("d", 1, 4096));
  Layer l = k == 0 ? make(dw::ReLU("a"), in) : k == 1 ? make(dw::LeakyReLU(0.1f, "a"), in) : k == 2 ? make(dw::ELU(1.f, "a"), in) : k == 3 ? make(dw::Sigmoid("a"), in) : k == 4 ? make(dw::Softmax("a"), in) : make(dw::Dropout(0.5f, "a"), in);
  dw_check(same(l.out, in), "element-wise layers keep the shape");
  dw_check(l.info.impl().params.size() == (k == 5 ? 1u : 0u) && l.info.impl().buffers.empty(), "parameters"); params_ok(l);
}
ENTRY e_bn_shape() {
  bool two = flag("two"); int c = size_in("c", 1, DEEP(3, 9)); Shape in{(int)dw_sym_int("n", 1, 4096), c}; if (two) { in.push_back((int)dw_sym_int("h", 1, 512)); in.push_back((int)dw_sym_int("w", 1, 512)); }
  Layer l = two ? make(dw::BatchNorm2D(1e-5f, 0.1f, "b"), in) : make(dw::BatchNorm1D(1e-5f, 0.1f, "b"), in);
  dw_check(same(l.out, in), "batch normalisation keeps the shape");
  dw_check(same(l.param("gamma").shape(), {c}) && same(l.param("beta").shape(), {c}) && same(l.buffer("running_mean").shape(), {c}) && same(l.buffer("running_var").shape(), {c}), "one value per channel");
  check_all(l.param("gamma"), VF(c, 1.f), "gamma starts at one"); check_all(l.param("beta"), VF(c, 0.f), "beta starts at zero"); check_all(l.buffer("running_mean"), VF(c, 0.f), "running mean starts at zero"); check_all(l.buffer("running_var"), VF(c, 0.f), "running variance starts at zero");
  dw_check(l.info.impl().params.size() == 2 && l.info.impl().buffers.size() == 2, "parameters"); params_ok(l);
}
ENTRY e_gap_add_shape() {
  Shape in; for (int i = 0; i < 4; i++) in.push_back((int)dw_sym_int("d", 1, 4096));
  Layer g = make(dw::GlobalAvgPooling("g"), in); dw_check(same(g.out, {in[0], in[1], 1, 1}), "global pooling maps to [batch, channels, 1, 1]");
  int r = size_in("rank", 1, 3); Shape a, b; for (int i = 0; i < r; i++) { a.push_back((int)dw_sym_int("a", 1, 4096)); b.push_back((int)dw_sym_int("b", 1, 4096)); } if (flag("longer")) b.push_back(1);
  bool t = throws([&] { dw::Placeholder o = dw::Add("s")(dw::Placeholder(a), dw::Placeholder(b)); dw_check(same(o.shape(), a), "Add keeps the shape"); });
  dw_check(t == !same(a, b), "Add accepts exactly operands of equal shape");
}
ENTRY e_rank_reject() {
  int r = size_in("rank", 1, 5), k = size_in("kind", 0, 4); Shape in; for (int i = 0; i < r; i++) in.push_back(4);
  if ((k == 1 || k == 3) && r < 4) { dw_assume(k != 1); dw_assume(r >= 2); } // the operation reads the channel dimension before it validates
  bool t = throws([&] {
    dw::Placeholder p(in);
    if (k == 0) dw::Linear(2, "x")(p); else if (k == 1) dw::Convolution(2, A2{1, 1}, A2{0, 0}, A2{1, 1}, "x")(p); else if (k == 2) dw::MaxPooling(A2{1, 1}, A2{0, 0}, A2{1, 1}, "x")(p); else if (k == 3) dw::BatchNorm2D(1e-5f, 0.1f, "x")(p); else dw::GlobalAvgPooling("x")(p);
  });
  dw_check(t == (k == 0 ? r == 1 : r != 4), "layers reject inputs of an unsupported rank");
}
ENTRY e_attrs() { // a layer remembers exactly the attributes it was given
  A2 k = a2s("kernel", 1, 2), p = a2("pad", 0, 5), s = a2("stride", 1, 5); float e = dw_sym_float("e"), a = dw_sym_float("a"); Shape in{1, 2, 9, 9};
  Layer c = make(dw::Convolution(2, k, p, s, "cv"), in), m = make(dw::MaxPooling(k, p, s, "mp"), in);
  for (Layer *l : {&c, &m}) { auto &at = l->info.impl().attrs; dw_check(at["kernel"].get<A2>() == k && at["padding"].get<A2>() == p && at["stride"].get<A2>() == s, "geometry attributes"); }
  dw_check(c.info.impl().attrs["out_channels"].get<int>() == 2 && c.info.name() == "cv" && c.info.type() == "Convolution" && m.info.name() == "mp" && m.info.type() == "MaxPooling", "names and types");
  Layer b1 = make(dw::BatchNorm1D(e, a, "b1"), Shape{2, 2}), b2 = make(dw::BatchNorm2D(e, a, "b2"), in);
  for (Layer *l : {&b1, &b2}) { dw_check_eqf(l->info.impl().attrs["eps"].get<float>(), e, "eps"); dw_check_eqf(l->info.impl().attrs["alpha"].get<float>(), a, "alpha"); }
  Layer el = make(dw::ELU(a, "e"), in), lr = make(dw::LeakyReLU(a, "l"), in), dr = make(dw::Dropout(a, "d"), in);
  dw_check_eqf(el.info.impl().attrs["alpha"].get<float>(), a, "alpha"); dw_check_eqf(lr.info.impl().attrs["alpha"].get<float>(), a, "alpha"); dw_check_eqf(dr.info.impl().attrs["p"].get<float>(), a, "p");
}
