#include "common.hpp"
#include <deepworks/initializers.hpp>
static Shape shp() { Shape s; int r = size_in("rank", 1, 4); for (int i = 0; i < r; i++) s.push_back(size_in("d", 1, DEEP(2, 3))); return s; }
ENTRY e_fill() {
  Shape s = shp(); float c = dw_sym_float("c");
  Tensor z = Tensor::zeros(s), k = Tensor::constant(s, c);
  dw_check(same(z.shape(), s) && same(k.shape(), s), "initialised tensors have the requested shape");
  check_all(z, VF(prod(s), 0.f), "zeros fills with zeros"); check_all(k, VF(prod(s), c), "constant fills with the value");
  Tensor t = sym_tensor("t", s); dw::initializer::constant(t, c); check_all(t, VF(prod(s), c), "constant fills with the value"); dw::initializer::zeros(t); check_all(t, VF(prod(s), 0.f), "zeros fills with zeros");
}
ENTRY e_fill_view() {
  float mem[6]; dw_sym_floats("m", mem, 6); VF M(mem, mem + 6); int n = size_in("n", 0, 4), k = size_in("kind", 0, 3); float c = dw_sym_float("c");
  Tensor v({n}, mem + 1); if (n == 0) dw_assume(k != 2);
  if (k == 0) dw::initializer::zeros(v); else if (k == 1) dw::initializer::constant(v, c); else if (k == 2) dw::initializer::xavierUniform(v); else dw::initializer::uniform(v, 2.f, 3.f);
  dw_check_eqf(mem[0], M[0], "an initialiser writes inside its tensor only"); for (int i = n + 1; i < 6; i++) dw_check_eqf(mem[i], M[i], "an initialiser writes inside its tensor only");
  for (int i = 1; i <= n; i++) { if (k == 0) dw_check_eqf(mem[i], 0, "zeros"); if (k == 1) dw_check_eqf(mem[i], c, "constant"); if (k == 3) dw_check(mem[i] >= 2.f && mem[i] <= 3.f, "uniform"); }
}
ENTRY e_uniform() {
  Shape s = shp(); dw_assume(prod(s) <= 24); float lo = dw_sym_float("lo"), hi = dw_sym_float("hi"); dw_assume(lo <= hi && lo >= -1000 && hi <= 1000);
  Tensor t = flag("member") ? Tensor::uniform(s, lo, hi) : [&] { Tensor q = sym_tensor("q", s); dw::initializer::uniform(q, lo, hi); return q; }();
  dw_check(same(t.shape(), s), "shape");
  for (size_t i = 0; i < t.total(); i++) dw_check(t.data()[i] >= lo && t.data()[i] <= hi, "uniform draws lie in [lower, upper]");
}
ENTRY e_uniform_spread() {
  float lo = -3, hi = 5; Tensor t = Tensor::uniform({2}, lo, hi);
  if (t.data()[0] < -2.9f && t.data()[1] > 4.9f) dw_reach("uniform spans its range, elements independent");
  if (t.data()[0] > 4.9f && t.data()[1] < -2.9f) dw_reach("uniform spans its range, the other way");
  Tensor d = Tensor::uniform({1}); dw_check(d.data()[0] >= 0 && d.data()[0] <= 1, "uniform is [0, 1] by default");
}
ENTRY e_xavier() {
  Shape s; int r = size_in("rank", 2, 4); for (int i = 0; i < r; i++) s.push_back(size_in("d", 1, DEEP(3, 4))); if (r == 4) dw_assume(prod(s) <= DEEP(12, 40));
  float fan = r == 2 ? s[0] + s[1] : s[0] + prod(s) / s[0];
  float a = std::sqrt(6.f / fan);
  Tensor t = Tensor::xavierUniform(s); dw_check(same(t.shape(), s), "shape");
  for (size_t i = 0; i < t.total(); i++) dw_check(t.data()[i] >= -a * 1.0001f && t.data()[i] <= a * 1.0001f, "xavier draws lie within sqrt(6/(fan_in+fan_out))");
}
ENTRY e_xavier_spread() {
  int k = size_in("kind", 0, 1); Shape s = k ? Shape{3, 2, 1, 2} : Shape{4, 3}; float a = std::sqrt(6.f / 7.f);
  Tensor t = Tensor::xavierUniform(s);
  if (t.data()[0] < -0.95f * a && t.data()[11] > 0.95f * a) dw_reach(k ? "xavier 4-D spans its range" : "xavier 2-D spans its range");
}
ENTRY e_fill_large() {
  int n = size_in("n", DEEP(61, 40), DEEP(67, 70)), k = size_in("kind", 0, 3); float c = dw_sym_float("c"); VF mem(n + 2); dw_sym_floats("m", mem.data(), n + 2); VF M = mem; Tensor v({n}, mem.data() + 1);
  if (k == 0) dw::initializer::zeros(v); else if (k == 1) dw::initializer::constant(v, c); else if (k == 2) dw::initializer::xavierUniform(v); else dw::initializer::uniform(v, 2.f, 3.f);
  dw_check_eqf(mem[0], M[0], "an initialiser writes inside its tensor only"); dw_check_eqf(mem[n + 1], M[n + 1], "an initialiser writes inside its tensor only"); float a = std::sqrt(6.f / (n + 1.f)) * 1.0001f;
  for (int i = 1; i <= n; i++) { if (k == 0) dw_check_eqf(mem[i], 0, "zeros"); if (k == 1) dw_check_eqf(mem[i], c, "constant"); if (k == 2) dw_check(mem[i] >= -a && mem[i] <= a, "xavier"); if (k == 3) dw_check(mem[i] >= 2.f && mem[i] <= 3.f, "uniform"); }
}
ENTRY e_fill_huge() { // zeros and constant only: no draws
  int n = DEEP(1030, 2100); bool k = flag("kind"); float c = dw_sym_float("c"); VF mem(n + 2); dw_sym_floats("m", mem.data(), n + 2); VF M = mem; Tensor v({n / 2, 2}, mem.data() + 1); if (k) dw::initializer::zeros(v); else dw::initializer::constant(v, c);
  dw_check_eqf(mem[0], M[0], "an initialiser writes inside its tensor only"); dw_check_eqf(mem[n + 1], M[n + 1], "an initialiser writes inside its tensor only"); for (int i = 1; i <= n; i++) dw_check_eqf(mem[i], k ? 0 : c, "zeros and constant fill");
}
ENTRY e_fill_vast() { Vast big; int n = DEEP(66006, 140002); float c = dw_sym_float("c"); VF mem(n + 2); dw_sym_floats("m", mem.data(), n + 2); float a = mem[0], b = mem[n + 1]; Tensor v({2, n / 2}, mem.data() + 1); bool k = flag("kind"); if (k) dw::initializer::zeros(v); else dw::initializer::constant(v, c);
  dw_check_eqf(mem[0], a, "an initialiser writes inside its tensor only"); dw_check_eqf(mem[n + 1], b, "an initialiser writes inside its tensor only"); for (int i = 1; i <= n; i++) dw_check_eqf(mem[i], k ? 0 : c, "zeros and constant fill"); }
ENTRY e_draw_many() { // every element has a draw of its own, within the range
  int n = DEEP(301, 601); bool k = flag("xavier"); VF mem(n + 2, 77.f); Tensor v({n}, mem.data() + 1); if (k) dw::initializer::xavierUniform(v); else dw::initializer::uniform(v, 2.f, 3.f); float a = std::sqrt(6.f / (n + 1.f)) * 1.0001f;
  dw_check_eqf(mem[0], 77.f, "an initialiser writes inside its tensor only"); dw_check_eqf(mem[n + 1], 77.f, "an initialiser writes inside its tensor only"); for (int i = 1; i <= n; i++) if (k) dw_check(mem[i] >= -a && mem[i] <= a, "xavier"); else dw_check(mem[i] >= 2.f && mem[i] <= 3.f, "uniform"); }
ENTRY e_draw_again() { // later calls draw again
  int k = size_in("kind", 0, 2); auto one = [&](int i) { Tensor t({1}); if (k == 0 || (k == 2 && i)) dw::initializer::uniform(t, 0.f, 1.f); else { dw::initializer::xavierUniform(t); t.data()[0] = t.data()[0] / std::sqrt(3.f) / 2 + 0.5f; } return t.data()[0]; };
  float a = one(0), b = one(1), c = one(2); const char *n[] = {"uniform draws again", "xavier draws again", "xavier then uniform draw again"}, *m[] = {"uniform draws a third time", "xavier draws a third time", "a third draw is new"};
  if (a < 0.3f && b > 0.7f) dw_reach(n[k]); if (b < 0.3f && c > 0.7f && a > 0.7f) dw_reach(m[k]);
}
