#include "common.hpp"
static Shape dims(const char *n, int r, long lo, long hi) { Shape s; for (int i = 0; i < r; i++) s.push_back((int)dw_sym_int(n, lo, hi)); return s; }
static bool negative(const Shape &s) { for (int d : s) if (d < 0) return true; return false; }
// geometry of a tensor over caller memory: any dimensions, no allocation involved
ENTRY e_geometry() {
  float mem[4]; int r = size_in("rank", 0, DEEP(4, 5));
  long m = r > 4 ? 4000 : 40000; Shape s = dims("dim", r, -m, m); bool neg = negative(s);
  bool t = false;
  try {
    Tensor x(s, mem);
    dw_check(same(x.shape(), s), "a tensor has the shape it was given");
    dw_check(x.total() == (size_t)prod(s), "total is the product of the dimensions");
    dw_check(row_major(x), "strides are row-major");
    dw_check(x.empty() == (prod(s) == 0), "empty means no elements");
    dw_check(x.data() == mem, "a tensor over caller memory uses that memory");
  } catch (...) { t = true; }
  dw_check(t == neg, "exactly the shapes with a negative dimension are rejected");
}
ENTRY e_reject() {
  int r = size_in("rank", 1, DEEP(3, 4)); Shape s = dims("dim", r, -1000, DEEP(2, 3)); bool neg = negative(s);
  for (int &d : s) if (d >= 0) d = (int)dw_split(d);
  bool t = throws([&] { Tensor x(s); dw_check(x.total() == (size_t)prod(s), "total is the product of the dimensions"); for (size_t i = 0; i < x.total(); i++) x.data()[i] = (float)i; });
  dw_check(t == neg, "allocation rejects exactly the shapes with a negative dimension");
}
// element addressing: the strides address every element exactly once, inside the storage
ENTRY e_addressing() {
  Shape s; int r = size_in("rank", 1, 4); for (int i = 0; i < r; i++) s.push_back(size_in("dim", 0, r > 3 ? DEEP(2, 3) : DEEP(3, 5)));
  Tensor x(s); size_t n = prod(s);
  dw_check(x.total() == n && row_major(x), "geometry");
  VF v(n); dw_sym_floats("v", v.data(), n);
  size_t at = 0; Shape ix(r, 0);
  if (n) while (true) {
    size_t o = 0; for (int i = 0; i < r; i++) o += (size_t)ix[i] * x.strides()[i];
    dw_check(o == at, "elements are stored in row-major order"); x.data()[o] = v[at++];
    int k = r - 1; while (k >= 0 && ++ix[k] == s[k]) ix[k--] = 0;
    if (k < 0) break;
  }
  dw_check(at == n, "all elements visited"); check_all(x, v, "what was stored is read back");
}
ENTRY e_reshape() {
  float mem[4]; int r1 = size_in("rank", 1, 3), r2 = size_in("newrank", 0, 3);
  Shape a = dims("dim", r1, 0, 70000), b = dims("newdim", r2, -70000, 70000);
  Tensor x(a, mem); bool ok = !negative(b) && prod(a) == prod(b);
  bool t = throws([&] { x.reshape(b); });
  dw_check(t == !ok, "reshape accepts exactly the shapes with as many elements");
  dw_check(same(x.shape(), t ? a : b), "reshape sets the shape, a refused one leaves it"); dw_check(row_major(x), "strides follow the shape");
  dw_check(x.total() == (size_t)prod(a) && x.data() == mem, "reshape keeps elements and storage");
}
ENTRY e_reshape_small() {
  Shape a{size_in("d", 0, DEEP(3, 6)), size_in("d", 0, DEEP(3, 4))}; Tensor x = sym_tensor("v", a); VF v = values(x); Tensor y = x;
  Shape b; int r = size_in("newrank", 1, 3); for (int i = 0; i < r; i++) b.push_back((int)dw_sym_int("nd", -9, DEEP(9, 24)));
  bool ok = !negative(b) && prod(b) == prod(a);
  bool t = throws([&] { x.reshape(b); });
  dw_check(t == !ok, "reshape accepts exactly the shapes with as many elements");
  dw_check(same(x.shape(), t ? a : b) && same(y.shape(), x.shape()), "every handle of the tensor sees the new shape"); dw_check(row_major(x), "strides follow the shape");
  check_all(x, v, "reshape keeps the elements");
}
ENTRY e_default() {
  Tensor x; dw_check(x.empty() && x.total() == 0 && x.shape().empty() && x.strides().empty(), "a default tensor is empty");
  Shape s{size_in("d", 0, 3), size_in("d", 1, 3)}, s2{size_in("e", 1, 3)};
  Tensor h = x; x.allocate(s);
  dw_check(same(x.shape(), s) && x.total() == (size_t)prod(s) && row_major(x), "allocate sets the geometry");
  dw_check(h.data() == x.data() && h.total() == x.total() && same(h.shape(), s), "handles share one tensor");
  for (size_t i = 0; i < x.total(); i++) x.data()[i] = 1.f;
  x.allocate(s2); for (size_t i = 0; i < x.total(); i++) x.data()[i] = 2.f;
  dw_check(same(h.shape(), s2) && h.total() == (size_t)s2[0] && row_major(h) && h.data() == x.data(), "allocating again replaces geometry and storage");
}
// storage: handles share, copyTo copies
ENTRY e_copy() {
  Shape a, b; int r1 = size_in("rank", 1, 3), r2 = size_in("rank2", 1, 3);
  for (int i = 0; i < r1; i++) a.push_back(size_in("d", 1, DEEP(3, 4))); for (int i = 0; i < r2; i++) b.push_back(size_in("e", 1, DEEP(3, 4)));
  Tensor x = sym_tensor("x", a), y = sym_tensor("y", b); VF X = values(x), Y = values(y);
  bool t = throws([&] { x.copyTo(y); }), ok = same(a, b);
  dw_check(t == !ok, "copyTo accepts exactly a destination of the same shape");
  check_all(x, X, "copyTo leaves the source alone"); check_all(y, ok ? X : Y, "copyTo copies every element, a refused one copies none");
  dw_check(x.data() != y.data(), "copyTo does not share storage");
  float n = dw_sym_float("n"); x.data()[0] = n; if (ok) dw_check_eqf(y.data()[0], X[0], "a copy does not follow later writes to the source");
  Tensor z = x; z.data()[x.total() - 1] = n; dw_check_eqf(x.data()[x.total() - 1], n, "copied handles share elements");
  Tensor w; w = x; dw_check(w.data() == x.data(), "assigned handles share elements");
}
ENTRY e_copy_view() {
  int n = size_in("n", 1, 4); float mem[6]; dw_sym_floats("m", mem, 6); VF M(mem, mem + 6);
  Tensor v({n}, mem + 1), s = sym_tensor("s", {n}); VF S = values(s);
  { Tensor v2({n}, mem + 1); (void)v2; }
  s.copyTo(v);
  for (int i = 0; i < 6; i++) dw_check_eqf(mem[i], i >= 1 && i <= n ? S[i - 1] : M[i], "copying into a view writes exactly the view");
  Tensor d(Shape{n}); v.copyTo(d); check_all(d, S, "copying from a view");
}
ENTRY e_copy_empty() { int n = size_in("n", 1, 2); Tensor x = sym_tensor("x", {n}), y; dw_check(throws([&] { x.copyTo(y); }), "copyTo needs an allocated destination"); dw_check(y.empty(), "and leaves it alone"); }
ENTRY e_copy_large() { Shape s{3, 17, 5}; Tensor x = sym_tensor("x", s), y(s); VF X = values(x); x.copyTo(y); check_all(y, X, "copyTo copies every element"); }
ENTRY e_copy_huge() { Shape s{5, 3, 2, DEEP(37, 71)}; Tensor x = sym_tensor("x", s), y = sym_tensor("y", s); VF X = values(x); x.copyTo(y); check_all(y, X, "copyTo copies every element"); check_all(x, X, "copyTo leaves the source alone"); }
// more dimensions, more elements
ENTRY e_ranks() {
  Shape s; int r = size_in("rank", 5, 7); for (int i = 0; i < r; i++) s.push_back(size_in("dim", 1, DEEP(2, 3))); Tensor x(s); dw_check(same(x.shape(), s) && x.total() == (size_t)prod(s) && row_major(x) && !x.empty(), "geometry");
  VF v(prod(s)); dw_sym_floats("v", v.data(), v.size()); for (size_t i = 0; i < v.size(); i++) x.data()[i] = v[i]; check_all(x, v, "what was stored is read back");
  Tensor y(s); x.copyTo(y); check_all(y, v, "copyTo copies every element"); Shape f{(int)prod(s)}; x.reshape(f); dw_check(same(x.shape(), f) && row_major(x) && x.total() == v.size(), "reshape sets the shape"); check_all(x, v, "reshape keeps the elements"); dw_check(throws([&] { x.copyTo(y); }), "copyTo accepts exactly a destination of the same shape");
}
ENTRY e_copy_vast() { Vast big; Shape s{3, 2, DEEP(11001, 40001)}; Tensor x = sym_tensor("x", s), y = sym_tensor("y", s); VF X = values(x); x.copyTo(y); check_all(y, X, "copyTo copies every element"); check_all(x, X, "copyTo leaves the source alone"); Shape f{6, s[2]}; y.reshape(f); dw_check(same(y.shape(), f) && row_major(y), "reshape sets the shape"); check_all(y, X, "reshape keeps the elements"); }
