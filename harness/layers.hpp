// every layer type, built directly, with symbolic state and symbolic batches
#pragma once
#include "common.hpp"
#include <map>
typedef std::array<int, 2> A2;
static const char *TYPES[] = {"Linear", "ReLU", "ELU", "LeakyReLU", "Sigmoid", "Softmax", "BatchNorm1D", "BatchNorm2D", "MaxPooling", "Convolution", "Dropout", "GlobalAvgPooling", "Add"};
enum { LINEAR, RELU, ELU, LEAKY, SIGMOID, SOFTMAX, BN1, BN2, POOL, CONV, DROP, GAP, ADD, KINDS };
struct Attr { float a = 0.5f, b = 0.25f; int u = 2; A2 k{2, 1}, p{0, 0}, s{1, 1}; };
static Shape in_shape(int k, int n) { return k == LINEAR ? Shape{n, 2} : k == BN1 || k == SOFTMAX ? Shape{n, 2} : k == BN2 ? Shape{n, 2, 1, 2} : k == POOL ? Shape{n, 2, 2, 1} : k == CONV ? Shape{n, 1, 3, 2} : k == GAP ? Shape{n, 2, 2, 1} : Shape{n, 2}; }
static Layer direct(int k, const Attr &a, const Shape &s, const char *nm) {
  switch (k) {
  case LINEAR: return make(dw::Linear(a.u, nm), s);
  case RELU: return make(dw::ReLU(nm), s);
  case ELU: return make(dw::ELU(a.a, nm), s);
  case LEAKY: return make(dw::LeakyReLU(a.a, nm), s);
  case SIGMOID: return make(dw::Sigmoid(nm), s);
  case SOFTMAX: return make(dw::Softmax(nm), s);
  case BN1: return make(dw::BatchNorm1D(a.a, a.b, nm), s);
  case BN2: return make(dw::BatchNorm2D(a.a, a.b, nm), s);
  case POOL: return make(dw::MaxPooling(a.k, a.p, a.s, nm), s);
  case CONV: return make(dw::Convolution(a.u, a.k, a.p, a.s, nm), s);
  case DROP: return make(dw::Dropout(a.a, nm), s);
  case GAP: return make(dw::GlobalAvgPooling(nm), s);
  default: return make(dw::Add(nm), s, s);
  }
}
static void copy_state(Layer &from, Layer &to) {
  for (auto &p : from.info.impl().params) { if (p.first == "mask") continue; set(to.info.impl().params.at(p.first).data(), values(p.second.data())); }
  for (auto &b : from.info.impl().buffers) set(to.info.impl().buffers.at(b.first), values(b.second));
}
static void symbolic_state(int k, Layer &l) {
  for (auto &p : l.info.impl().params) if (p.first != "mask") dw_sym_floats("p", p.second.data().data(), p.second.data().total());
  for (auto &b : l.info.impl().buffers) { dw_sym_floats("s", b.second.data(), b.second.total()); if (b.first == "running_var") for (float v : values(b.second)) dw_assume(v >= 0 && v <= 100); }
}
struct Io { std::vector<Tensor> x, y, gy, gx; };
static Io io(int k, Layer &l, int n, const char *xn, const char *gn) {
  Io r; Shape s = l.in, o = l.out; o[0] = n; s[0] = n;
  for (int i = 0; i < (k == ADD ? 2 : 1); i++) { r.x.push_back(sym_tensor(xn, s)); bounded(values(r.x.back()), 8); r.gx.push_back(sym_tensor(gn, s)); }
  r.y.push_back(sym_tensor("garbage", o)); r.gy.push_back(sym_tensor(gn, o)); return r;
}
static Io copy(const Io &a) { Io r; auto c = [](const std::vector<Tensor> &v) { std::vector<Tensor> o; for (auto &t : v) { Tensor u(t.shape()); set(u, values(t)); o.push_back(u); } return o; }; r.x = c(a.x); r.y = c(a.y); r.gy = c(a.gy); r.gx = c(a.gx); return r; }
static void check_io(const Io &a, const Io &b, const char *m) { for (size_t i = 0; i < a.y.size(); i++) check_all(a.y[i], values(b.y[i]), m); for (size_t i = 0; i < a.gx.size(); i++) check_all(a.gx[i], values(b.gx[i]), m); for (size_t i = 0; i < a.x.size(); i++) check_all(a.x[i], values(b.x[i]), m); for (size_t i = 0; i < a.gy.size(); i++) check_all(a.gy[i], values(b.gy[i]), m); }
static void back(Layer &l, Io &d) { l.cpu->updateGradients(d.x, d.gy); l.cpu->backward(d.x, d.y, d.gy, d.gx); }
static void no_ties(int k, const Io &d) { if (k == POOL || k == SOFTMAX) { VF v = values(d.x[0]); for (size_t i = 0; i + 1 < v.size(); i += 2) dw_assume(v[i] != v[i + 1]); } if (k == RELU || k == ELU || k == LEAKY) for (float v : values(d.x[0])) dw_assume(v != 0); }
// the same, applied to a placeholder inside a graph
static inline dw::Placeholder apply(int k, const Attr &a, dw::Placeholder x, const std::string &n) {
  switch (k) {
  case LINEAR: return dw::Linear(a.u, n)(x);
  case RELU: return dw::ReLU(n)(x);
  case ELU: return dw::ELU(a.a, n)(x);
  case LEAKY: return dw::LeakyReLU(a.a, n)(x);
  case SIGMOID: return dw::Sigmoid(n)(x);
  case SOFTMAX: return dw::Softmax(n)(x);
  case BN1: return dw::BatchNorm1D(a.a, a.b, n)(x);
  case BN2: return dw::BatchNorm2D(a.a, a.b, n)(x);
  case POOL: return dw::MaxPooling(a.k, a.p, a.s, n)(x);
  case CONV: return dw::Convolution(a.u, a.k, a.p, a.s, n)(x);
  case DROP: return dw::Dropout(a.a, n)(x);
  case GAP: return dw::GlobalAvgPooling(n)(x);
  default: return dw::Add(n)(x, x);
  }
}
