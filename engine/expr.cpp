#include "expr.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>

std::vector<VarInfo> g_vars;
static std::vector<Node *> g_nodes;
static std::vector<std::string> g_ufs;

static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
static uint64_t hashQ(const mpq_class &q) {
  uint64_t h = mpz_sgn(q.get_num_mpz_t()) + 3;
  size_t n = mpz_size(q.get_num_mpz_t());
  for (size_t i = 0; i < n; i++) h = mix(h, mpz_getlimbn(q.get_num_mpz_t(), i));
  n = mpz_size(q.get_den_mpz_t());
  for (size_t i = 0; i < n; i++) h = mix(h, mpz_getlimbn(q.get_den_mpz_t(), i));
  return h;
}
static uint64_t hashPoly(const Poly &p) {
  uint64_t h = 77;
  for (auto &t : p.t) {
    for (auto &f : t.m.f) { h = mix(h, f.first->id); h = mix(h, (uint64_t)(int64_t)f.second); }
    h = mix(h, hashQ(t.c));
  }
  return h;
}
int cmpMono(const Mono &a, const Mono &b) {
  size_t n = std::min(a.f.size(), b.f.size());
  for (size_t i = 0; i < n; i++) {
    if (a.f[i].first->id != b.f[i].first->id) return a.f[i].first->id < b.f[i].first->id ? -1 : 1;
    if (a.f[i].second != b.f[i].second) return a.f[i].second < b.f[i].second ? -1 : 1;
  }
  if (a.f.size() != b.f.size()) return a.f.size() < b.f.size() ? -1 : 1;
  return 0;
}
static bool eqPoly(const Poly &a, const Poly &b) {
  if (a.t.size() != b.t.size()) return false;
  for (size_t i = 0; i < a.t.size(); i++)
    if (cmpMono(a.t[i].m, b.t[i].m) != 0 || a.t[i].c != b.t[i].c) return false;
  return true;
}
struct NHash { size_t operator()(const Node *n) const { return n->h; } };
struct NEq {
  bool operator()(const Node *a, const Node *b) const {
    if (a->h != b->h || a->op != b->op || a->sort != b->sort || a->w != b->w || a->c != b->c || a->k != b->k) return false;
    if (a->op == Op::POLY) return eqPoly(*a->p, *b->p);
    return true;
  }
};
static std::unordered_set<Node *, NHash, NEq> g_table;

static N intern(Node &&x) {
  uint64_t h = mix((uint64_t)x.op * 131 + (uint64_t)x.sort, x.w);
  h = mix(h, x.c);
  for (auto k : x.k) h = mix(h, k->id);
  if (x.op == Op::POLY) h = mix(h, hashPoly(*x.p));
  x.h = h;
  auto it = g_table.find(&x);
  if (it != g_table.end()) { delete x.p; x.p = nullptr; return *it; }
  Node *n = new Node(std::move(x));
  n->id = (uint32_t)g_nodes.size();
  g_nodes.push_back(n);
  g_table.insert(n);
  return n;
}
static N lookup(Node &&x) {
  uint64_t h = mix((uint64_t)x.op * 131 + (uint64_t)x.sort, x.w);
  h = mix(h, x.c);
  for (auto k : x.k) h = mix(h, k->id);
  x.h = h;
  auto it = g_table.find(&x);
  return it == g_table.end() ? nullptr : *it;
}
static Node mkN(Op op, S s, unsigned w, std::vector<N> k = {}, uint64_t c = 0) {
  Node x; x.op = op; x.sort = s; x.w = (uint16_t)w; x.id = 0; x.c = c; x.k = std::move(k); return x;
}
static N node(Op op, S s, unsigned w, std::vector<N> k = {}, uint64_t c = 0) { return intern(mkN(op, s, w, std::move(k), c)); }
uint32_t nodeCount() { return (uint32_t)g_nodes.size(); }

// ---------------------------------------------------------------- booleans
N mkTrue() { static N t = node(Op::TRUE_, S::BOOL, 1); return t; }
N mkFalse() { static N t = node(Op::FALSE_, S::BOOL, 1); return t; }
N mkBool(bool b) { return b ? mkTrue() : mkFalse(); }
bool isTrue(N a) { return a->op == Op::TRUE_; }
bool isFalse(N a) { return a->op == Op::FALSE_; }
N mkBVar(const std::string &name) {
  uint64_t ix = g_vars.size();
  N n = node(Op::BVAR, S::BOOL, 1, {}, ix);
  g_vars.push_back({name, S::BOOL, 1, false, 0, 0, n});
  return n;
}
N mkNot(N a) {
  if (isTrue(a)) return mkFalse();
  if (isFalse(a)) return mkTrue();
  if (a->op == Op::NOT) return a->k[0];
  if (a->op == Op::ULT) return mkUle(a->k[1], a->k[0]);
  if (a->op == Op::ULE) return mkUlt(a->k[1], a->k[0]);
  if (a->op == Op::SLT) return mkSle(a->k[1], a->k[0]);
  if (a->op == Op::SLE) return mkSlt(a->k[1], a->k[0]);
  if (a->op == Op::RLT0) return rLe(mkReal(0), a->k[0]);
  if (a->op == Op::RLE0) return rLt(mkReal(0), a->k[0]);
  return node(Op::NOT, S::BOOL, 1, {a});
}
N mkAnd(N a, N b) {
  if (isFalse(a) || isFalse(b)) return mkFalse();
  if (isTrue(a)) return b;
  if (isTrue(b)) return a;
  if (a == b) return a;
  if (a == mkNot(b)) return mkFalse();
  if (a->id > b->id) std::swap(a, b);
  return node(Op::AND, S::BOOL, 1, {a, b});
}
N mkOr(N a, N b) {
  if (isTrue(a) || isTrue(b)) return mkTrue();
  if (isFalse(a)) return b;
  if (isFalse(b)) return a;
  if (a == b) return a;
  if (a == mkNot(b)) return mkTrue();
  if (a->id > b->id) std::swap(a, b);
  return node(Op::OR, S::BOOL, 1, {a, b});
}
N mkIff(N a, N b) {
  if (a == b) return mkTrue();
  if (isTrue(a)) return b;
  if (isTrue(b)) return a;
  if (isFalse(a)) return mkNot(b);
  if (isFalse(b)) return mkNot(a);
  if (a == mkNot(b)) return mkFalse();
  if (a->id > b->id) std::swap(a, b);
  return node(Op::IFF, S::BOOL, 1, {a, b});
}
N mkBIte(N c, N a, N b) {
  if (isTrue(c)) return a;
  if (isFalse(c)) return b;
  if (a == b) return a;
  if (isTrue(a)) return mkOr(c, b);
  if (isFalse(a)) return mkAnd(mkNot(c), b);
  if (isTrue(b)) return mkOr(mkNot(c), a);
  if (isFalse(b)) return mkAnd(c, a);
  return node(Op::BITE, S::BOOL, 1, {c, a, b});
}

// ---------------------------------------------------------------- bit-vectors
static inline uint64_t msk(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
N mkBV(uint64_t v, unsigned w) { return node(Op::CONST, S::BV, w, {}, msk(v, w)); }
N mkBVVar(const std::string &name, unsigned w) {
  uint64_t ix = g_vars.size();
  N n = node(Op::VAR, S::BV, w, {}, ix);
  g_vars.push_back({name, S::BV, (uint16_t)w, false, 0, 0, n});
  return n;
}
N mkRangedVar(const std::string &name, unsigned w, int64_t lo, int64_t hi) {
  uint64_t ix = g_vars.size();
  N n = node(Op::VAR, S::BV, w, {}, ix);
  g_vars.push_back({name, S::BV, (uint16_t)w, true, lo, hi, n});
  return n;
}
static bool isC(N a) { return a->op == Op::CONST; }
// number of constant leaves of an ite tree, or 0 when a leaf is not constant
static int treeLeaves(N a, int limit) {
  if (isC(a)) return 1;
  if (a->op != Op::ITE) return 0;
  static std::unordered_map<N, int> memo;
  auto it = memo.find(a);
  if (it != memo.end()) return it->second > limit ? 0 : it->second;
  int l = treeLeaves(a->k[1], 4096), r = l ? treeLeaves(a->k[2], 4096) : 0;
  int v = (l && r) ? l + r : 0;
  memo[a] = v;
  return v > limit ? 0 : v;
}
bool constLeaves(N a, std::vector<uint64_t> &out, int limit) {
  std::vector<N> st{a};
  std::unordered_set<N> seen;
  std::unordered_set<uint64_t> vals;
  while (!st.empty()) {
    N x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    if (isC(x)) { if (vals.insert(x->c).second) out.push_back(x->c); if ((int)out.size() > limit) return false; }
    else if (x->op == Op::ITE) { st.push_back(x->k[2]); st.push_back(x->k[1]); }
    else return false;
  }
  return true;
}
template <class F> static N mapTree(N a, std::unordered_map<N, N> &memo, F f) {
  auto it = memo.find(a);
  if (it != memo.end()) return it->second;
  N r = isC(a) ? f(a) : mkIte(a->k[0], mapTree(a->k[1], memo, f), mapTree(a->k[2], memo, f));
  memo[a] = r;
  return r;
}
template <class F> static N mapTreeB(N a, std::unordered_map<N, N> &memo, F f) {
  auto it = memo.find(a);
  if (it != memo.end()) return it->second;
  N r = isC(a) ? f(a) : mkBIte(a->k[0], mapTreeB(a->k[1], memo, f), mapTreeB(a->k[2], memo, f));
  memo[a] = r;
  return r;
}
static bool foldBin(Op op, uint64_t x, uint64_t y, unsigned w, uint64_t &r) {
  switch (op) {
  case Op::ADD: r = x + y; break;
  case Op::MUL: r = x * y; break;
  case Op::BAND: r = x & y; break;
  case Op::BOR: r = x | y; break;
  case Op::BXOR: r = x ^ y; break;
  case Op::SHL: r = y >= w ? 0 : x << y; break;
  case Op::LSHR: r = y >= w ? 0 : x >> y; break;
  case Op::ASHR: r = y >= w ? (sx(x, w) < 0 ? ~0ull : 0) : (uint64_t)(sx(x, w) >> y); break;
  case Op::UDIV: if (!y) { r = ~0ull; break; } r = x / y; break;
  case Op::UREM: if (!y) { r = x; break; } r = x % y; break;
  case Op::SDIV: { int64_t a = sx(x, w), b = sx(y, w); if (!b) r = a >= 0 ? ~0ull : 1; else if (b == -1) r = (uint64_t)0 - (uint64_t)a; else r = (uint64_t)(a / b); break; }
  case Op::SREM: { int64_t a = sx(x, w), b = sx(y, w); if (!b) r = x; else if (b == -1) r = 0; else r = (uint64_t)(a % b); break; }
  default: return false;
  }
  r = msk(r, w);
  return true;
}
static const int TREE = 256;
N mkBin(Op op, N a, N b) {
  unsigned w = a->w;
  uint64_t r;
  if (isC(a) && isC(b) && foldBin(op, a->c, b->c, w, r)) return mkBV(r, w);
  bool comm = op == Op::ADD || op == Op::MUL || op == Op::BAND || op == Op::BOR || op == Op::BXOR;
  if (comm && isC(a)) std::swap(a, b);
  if (isC(b)) {
    uint64_t v = b->c;
    if (v == 0) {
      if (op == Op::ADD || op == Op::BOR || op == Op::BXOR || op == Op::SHL || op == Op::LSHR || op == Op::ASHR) return a;
      if (op == Op::MUL || op == Op::BAND) return b;
    }
    if (v == 1 && (op == Op::MUL || op == Op::UDIV || op == Op::SDIV)) return a;
    if (op == Op::BAND && v == msk(~0ull, w)) return a;
    if (op == Op::ADD && a->op == Op::ADD && isC(a->k[1])) return mkBin(Op::ADD, a->k[0], mkBV(a->k[1]->c + v, w));
    if (op == Op::MUL && a->op == Op::MUL && isC(a->k[1])) return mkBin(Op::MUL, a->k[0], mkBV(a->k[1]->c * v, w));
    if (op == Op::SHL && v < w) return mkBin(Op::MUL, a, mkBV(1ull << v, w));
    if (op == Op::UDIV && v && !(v & (v - 1))) return mkBin(Op::LSHR, a, mkBV(__builtin_ctzll(v), w));
    if (op == Op::UREM && v && !(v & (v - 1))) return mkBin(Op::BAND, a, mkBV(v - 1, w));
    if (op == Op::LSHR && v < w) return mkZext(mkExtract(a, (unsigned)v, w - (unsigned)v), w);
    if (op == Op::BAND && v && !(v & (v + 1))) {   // low mask
      unsigned n = 64 - __builtin_clzll(v);
      if (n < w) return mkZext(mkExtract(a, 0, n), w);
    }
    if (treeLeaves(a, TREE)) {
      std::unordered_map<N, N> memo;
      return mapTree(a, memo, [&](N x) { uint64_t q = 0; foldBin(op, x->c, v, w, q); return mkBV(q, w); });
    }
  }
  if (isC(a) && treeLeaves(b, TREE)) {
    std::unordered_map<N, N> memo;
    uint64_t v = a->c;
    return mapTree(b, memo, [&](N x) { uint64_t q = 0; foldBin(op, v, x->c, w, q); return mkBV(q, w); });
  }
  if (!isC(a) && !isC(b)) {
    int la = treeLeaves(a, 64), lb = treeLeaves(b, 64);
    if (la && lb && la * lb <= 256) {
      std::unordered_map<N, N> memo;
      return mapTree(a, memo, [&](N x) { return mkBin(op, x, b); });
    }
  }
  if (op == Op::BXOR && a == b) return mkBV(0, w);
  if ((op == Op::BAND || op == Op::BOR) && a == b) return a;
  if (op == Op::ADD) {   // x + (-1)*x
    auto neg = [&](N x, N y) { return y->op == Op::MUL && isC(y->k[1]) && y->k[1]->c == msk(~0ull, w) && y->k[0] == x; };
    if (neg(a, b) || neg(b, a)) return mkBV(0, w);
    if (!isC(b)) {
      if (a->op == Op::ADD && isC(a->k[1])) return mkBin(Op::ADD, mkBin(Op::ADD, a->k[0], b), a->k[1]);
      if (b->op == Op::ADD && isC(b->k[1])) return mkBin(Op::ADD, mkBin(Op::ADD, a, b->k[0]), b->k[1]);
      // (y - x) + x
      if (a->op == Op::ADD) { if (neg(b, a->k[0])) return a->k[1]; if (neg(b, a->k[1])) return a->k[0]; }
      if (b->op == Op::ADD) { if (neg(a, b->k[0])) return b->k[1]; if (neg(a, b->k[1])) return b->k[0]; }
    }
  }
  if (op == Op::BOR && !isC(b)) {   // zext(lo) | (zext(hi) << k)
    auto parts = [&](N lo, N hi) -> N {
      if (lo->op != Op::ZEXT) return nullptr;
      unsigned n = lo->k[0]->w;
      if (hi->op == Op::MUL && isC(hi->k[1]) && n < 64 && hi->k[1]->c == (1ull << n)) return mkConcat(mkExtract(hi->k[0], 0, w - n), lo->k[0]);
      return nullptr;
    };
    if (N r2 = parts(a, b)) return r2;
    if (N r2 = parts(b, a)) return r2;
  }
  if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
  return node(op, S::BV, w, {a, b});
}
N mkSub(N a, N b) {
  if (a == b) return mkBV(0, a->w);
  return mkBin(Op::ADD, a, mkBin(Op::MUL, b, mkBV(~0ull, b->w)));
}
N mkZext(N a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkBV(a->c, w);
  if (a->op == Op::ZEXT) return mkZext(a->k[0], w);
  if (treeLeaves(a, TREE)) { std::unordered_map<N, N> memo; return mapTree(a, memo, [&](N x) { return mkBV(x->c, w); }); }
  return node(Op::ZEXT, S::BV, w, {a});
}
N mkSext(N a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkBV((uint64_t)sx(a->c, a->w), w);
  if (a->op == Op::ZEXT) return mkZext(a->k[0], w);
  if (a->op == Op::SEXT) return mkSext(a->k[0], w);
  if (a->op == Op::VAR && g_vars[a->c].ranged && g_vars[a->c].lo >= 0) return mkZext(a, w);
  if (treeLeaves(a, TREE)) { std::unordered_map<N, N> memo; return mapTree(a, memo, [&](N x) { return mkBV((uint64_t)sx(x->c, x->w), w); }); }
  return node(Op::SEXT, S::BV, w, {a});
}
N mkExtract(N a, unsigned lo, unsigned w) {
  if (lo == 0 && a->w == w) return a;
  if (isC(a)) return mkBV(a->c >> lo, w);
  if (a->op == Op::ZEXT || a->op == Op::SEXT) {
    unsigned iw = a->k[0]->w;
    if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
    if (a->op == Op::ZEXT) {
      if (lo >= iw) return mkBV(0, w);
      if (lo == 0) return mkZext(a->k[0], w);
      return mkZext(mkExtract(a->k[0], lo, iw - lo), w);
    }
    if (lo == 0) return mkSext(a->k[0], w);
  }
  if (a->op == Op::EXTRACT) return mkExtract(a->k[0], lo + (unsigned)a->c, w);
  if (a->op == Op::CONCAT) {
    unsigned lw = a->k[1]->w;
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
  }
  if (lo == 0 && (a->op == Op::ADD || a->op == Op::MUL || a->op == Op::BAND || a->op == Op::BOR || a->op == Op::BXOR))
    return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
  if (treeLeaves(a, TREE)) { std::unordered_map<N, N> memo; return mapTree(a, memo, [&](N x) { return mkBV(x->c >> lo, w); }); }
  if (a->op == Op::ITE) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  return node(Op::EXTRACT, S::BV, w, {a}, lo);
}
N mkConcat(N hi, N lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkBV((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZext(lo, w);
  if (hi->op == Op::EXTRACT && lo->op == Op::EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
    return mkExtract(lo->k[0], (unsigned)lo->c, w);
  if (hi->op == Op::CONCAT && hi->k[1]->op == Op::EXTRACT && lo->op == Op::EXTRACT && hi->k[1]->k[0] == lo->k[0] && hi->k[1]->c == lo->c + lo->w)
    return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  return node(Op::CONCAT, S::BV, w, {hi, lo});
}
N mkIte(N c, N a, N b) {
  if (isTrue(c)) return a;
  if (isFalse(c)) return b;
  if (a == b) return a;
  if (c->op == Op::NOT) { std::swap(a, b); c = c->k[0]; }
  if (a->op == Op::ITE && a->k[0] == c) a = a->k[1];
  if (b->op == Op::ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return node(Op::ITE, S::BV, a->w, {c, a, b});
}
static void urange(N a, uint64_t &lo, uint64_t &hi) {   // cheap unsigned range
  lo = 0; hi = msk(~0ull, a->w);
  if (isC(a)) { lo = hi = a->c; return; }
  if (a->op == Op::VAR && g_vars[a->c].ranged && g_vars[a->c].lo >= 0) { lo = (uint64_t)g_vars[a->c].lo; hi = (uint64_t)g_vars[a->c].hi; return; }
  if (a->op == Op::ZEXT) { urange(a->k[0], lo, hi); return; }
  if (a->op == Op::ITE && treeLeaves(a, TREE)) {
    std::vector<uint64_t> v; constLeaves(a, v, TREE);
    lo = *std::min_element(v.begin(), v.end()); hi = *std::max_element(v.begin(), v.end()); return;
  }
  if (a->op == Op::MUL && isC(a->k[1])) { uint64_t l, h; urange(a->k[0], l, h); __uint128_t m = (__uint128_t)h * a->k[1]->c; if (m <= msk(~0ull, a->w)) { lo = l * a->k[1]->c; hi = (uint64_t)m; } return; }
  if (a->op == Op::ADD) { uint64_t l, h, l2, h2; urange(a->k[0], l, h); urange(a->k[1], l2, h2); __uint128_t m = (__uint128_t)h + h2; if (m <= msk(~0ull, a->w)) { lo = l + l2; hi = (uint64_t)m; } return; }
  if (a->op == Op::EXTRACT && a->c == 0) { uint64_t l, h; urange(a->k[0], l, h); if (h <= msk(~0ull, a->w)) { lo = l; hi = h; } return; }
}
N mkEq(N a, N b) {
  if (a == b) return mkTrue();
  if (a->sort == S::BOOL) return mkIff(a, b);
  if (a->sort == S::REAL) return rEq(a, b);
  if (isC(a)) std::swap(a, b);
  if (isC(a) && isC(b)) return mkBool(a->c == b->c);
  if (isC(b)) {
    if (treeLeaves(a, TREE)) { std::unordered_map<N, N> memo; return mapTreeB(a, memo, [&](N x) { return mkBool(x->c == b->c); }); }
    if (a->op == Op::ZEXT) { if (b->c >> a->k[0]->w) return mkFalse(); return mkEq(a->k[0], mkBV(b->c, a->k[0]->w)); }
    if (a->op == Op::SEXT) { if ((uint64_t)msk((uint64_t)sx(msk(b->c, a->k[0]->w), a->k[0]->w), a->w) != b->c) return mkFalse(); return mkEq(a->k[0], mkBV(b->c, a->k[0]->w)); }
    if (a->op == Op::ADD && isC(a->k[1])) return mkEq(a->k[0], mkBV(b->c - a->k[1]->c, a->w));
    uint64_t lo, hi; urange(a, lo, hi);
    if (b->c < lo || b->c > hi) return mkFalse();
  } else {
    int la = treeLeaves(a, 64), lb = treeLeaves(b, 64);
    if (la && lb && la * lb <= 256) { std::unordered_map<N, N> memo; return mapTreeB(a, memo, [&](N x) { return mkEq(b, x); }); }
  }
  if (a->id > b->id) std::swap(a, b);
  return node(Op::EQ, S::BOOL, 1, {a, b});
}
template <class F> static N cmpGen(Op op, N a, N b, F f) {
  if (isC(a) && isC(b)) return mkBool(f(a->c, b->c));
  if (isC(b) && treeLeaves(a, TREE)) { std::unordered_map<N, N> memo; return mapTreeB(a, memo, [&](N x) { return mkBool(f(x->c, b->c)); }); }
  if (isC(a) && treeLeaves(b, TREE)) { std::unordered_map<N, N> memo; return mapTreeB(b, memo, [&](N x) { return mkBool(f(a->c, x->c)); }); }
  int la = treeLeaves(a, 64), lb = treeLeaves(b, 64);
  if (la && lb && la * lb <= 256) { std::unordered_map<N, N> memo; return mapTreeB(a, memo, [&](N x) { return cmpGen(op, x, b, f); }); }
  return node(op, S::BOOL, 1, {a, b});
}
N mkUlt(N a, N b) {
  if (a == b) return mkFalse();
  uint64_t l, h, l2, h2; urange(a, l, h); urange(b, l2, h2);
  if (h < l2) return mkTrue();
  if (l >= h2) return mkFalse();
  return cmpGen(Op::ULT, a, b, [](uint64_t x, uint64_t y) { return x < y; });
}
N mkUle(N a, N b) {
  if (a == b) return mkTrue();
  uint64_t l, h, l2, h2; urange(a, l, h); urange(b, l2, h2);
  if (h <= l2) return mkTrue();
  if (l > h2) return mkFalse();
  return cmpGen(Op::ULE, a, b, [](uint64_t x, uint64_t y) { return x <= y; });
}
static bool srange(N a, int64_t &lo, int64_t &hi) {
  if (a->op == Op::VAR && g_vars[a->c].ranged) { lo = g_vars[a->c].lo; hi = g_vars[a->c].hi; return true; }
  if (isC(a)) { lo = hi = sx(a->c, a->w); return true; }
  if (a->op == Op::SEXT) return srange(a->k[0], lo, hi);
  uint64_t l, h; urange(a, l, h);
  uint64_t half = a->w >= 64 ? (1ull << 63) : (1ull << (a->w - 1));
  if (h < half) { lo = (int64_t)l; hi = (int64_t)h; return true; }
  return false;
}
N mkSlt(N a, N b) {
  if (a == b) return mkFalse();
  int64_t l, h, l2, h2;
  if (srange(a, l, h) && srange(b, l2, h2)) { if (h < l2) return mkTrue(); if (l >= h2) return mkFalse(); }
  unsigned w = a->w;
  return cmpGen(Op::SLT, a, b, [w](uint64_t x, uint64_t y) { return sx(x, w) < sx(y, w); });
}
N mkSle(N a, N b) {
  if (a == b) return mkTrue();
  int64_t l, h, l2, h2;
  if (srange(a, l, h) && srange(b, l2, h2)) { if (h <= l2) return mkTrue(); if (l > h2) return mkFalse(); }
  unsigned w = a->w;
  return cmpGen(Op::SLE, a, b, [w](uint64_t x, uint64_t y) { return sx(x, w) <= sx(y, w); });
}
N boolToBV(N b, unsigned w) { return mkIte(b, mkBV(1, w), mkBV(0, w)); }
N bvToBool(N a) { return mkNot(mkEq(a, mkBV(0, a->w))); }

// ---------------------------------------------------------------- reals
static N polyNode(Poly &&p) { Node x = mkN(Op::POLY, S::REAL, 0); x.p = new Poly(std::move(p)); return intern(std::move(x)); }
const Poly &asPoly(N a) { return *a->p; }
N mkReal(const mpq_class &q) {
  Poly p;
  if (q != 0) p.t.push_back({Mono(), q});
  return polyNode(std::move(p));
}
N mkRealD(double d) { return mkReal(mpq_class(d)); }
static N atomPoly(N atom, int e = 1) {
  Poly p; Term t; t.m.f.push_back({atom, e}); t.c = 1; p.t.push_back(t);
  return polyNode(std::move(p));
}
N mkRVar(const std::string &name) {
  uint64_t ix = g_vars.size();
  N a = node(Op::RVAR, S::REAL, 0, {}, ix);
  N p = atomPoly(a);
  g_vars.push_back({name, S::REAL, 0, false, 0, 0, a});
  return p;
}
bool rIsConst(N a, mpq_class *q) {
  auto &t = a->p->t;
  if (t.empty()) { if (q) *q = 0; return true; }
  if (t.size() == 1 && t[0].m.f.empty()) { if (q) *q = t[0].c; return true; }
  return false;
}
static Poly addP(const Poly &a, const Poly &b, const mpq_class &sb) {
  Poly r; r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    int c = i >= a.t.size() ? 1 : j >= b.t.size() ? -1 : cmpMono(a.t[i].m, b.t[j].m);
    if (c < 0) r.t.push_back(a.t[i++]);
    else if (c > 0) { r.t.push_back(b.t[j++]); if (sb != 1) r.t.back().c *= sb; }
    else {
      mpq_class s = sb == 1 ? mpq_class(a.t[i].c + b.t[j].c) : mpq_class(a.t[i].c + sb * b.t[j].c);
      if (s != 0) { r.t.push_back(a.t[i]); r.t.back().c = s; }
      i++; j++;
    }
  }
  return r;
}
N rAdd(N a, N b) {
  if (a->p->t.empty()) return b;
  if (b->p->t.empty()) return a;
  return polyNode(addP(*a->p, *b->p, 1));
}
N rSub(N a, N b) {
  if (b->p->t.empty()) return a;
  if (a == b) return mkReal(0);
  return polyNode(addP(*a->p, *b->p, -1));
}
N rScale(N a, const mpq_class &q) {
  if (q == 1) return a;
  if (q == 0) return mkReal(0);
  Poly p = *a->p;
  for (auto &t : p.t) t.c *= q;
  return polyNode(std::move(p));
}
N rNeg(N a) { return rScale(a, -1); }
static Mono mulMono(const Mono &a, const Mono &b) {
  Mono r; size_t i = 0, j = 0;
  while (i < a.f.size() || j < b.f.size()) {
    if (j >= b.f.size() || (i < a.f.size() && a.f[i].first->id < b.f[j].first->id)) r.f.push_back(a.f[i++]);
    else if (i >= a.f.size() || b.f[j].first->id < a.f[i].first->id) r.f.push_back(b.f[j++]);
    else { int e = a.f[i].second + b.f[j].second; if (e) r.f.push_back({a.f[i].first, e}); i++; j++; }
  }
  return r;
}
struct MonoLess { bool operator()(const Mono &a, const Mono &b) const { return cmpMono(a, b) < 0; } };
static size_t g_termLimit = 200000;
// does a monomial contain an atom power that must be rewritten?  sqrt(p)^e, e>=2
static bool needsReduce(const Mono &m) {
  for (auto &f : m.f) if (f.first->op == Op::SQRT && f.second >= 2) return true;
  return false;
}
static N reduceTerm(const Term &t) {
  Poly base; Term bt; bt.c = t.c;
  N extra = nullptr;
  for (auto &f : t.m.f) {
    if (f.first->op == Op::SQRT && f.second >= 2) {
      N q = rPowInt(f.first->k[0], f.second / 2);
      extra = extra ? rMul(extra, q) : q;
      if (f.second % 2) bt.m.f.push_back({f.first, 1});
    } else bt.m.f.push_back(f);
  }
  base.t.push_back(bt);
  N b = polyNode(std::move(base));
  return extra ? rMul(b, extra) : b;
}
static N mulRaw(N a, N b) {
  const Poly &x = *a->p, &y = *b->p;
  if (x.t.size() * y.t.size() > g_termLimit) {
    if (a->id > b->id) std::swap(a, b);
    return atomPoly(node(Op::RPROD, S::REAL, 0, {a, b}));
  }
  if (x.t.size() == 1 && x.t[0].m.f.empty()) return rScale(b, x.t[0].c);
  if (y.t.size() == 1 && y.t[0].m.f.empty()) return rScale(a, y.t[0].c);
  std::vector<Term> v; v.reserve(x.t.size() * y.t.size());
  bool red = false;
  for (auto &p : x.t) for (auto &q : y.t) {
    Term t; t.m = mulMono(p.m, q.m); t.c = p.c * q.c;
    if (needsReduce(t.m)) red = true;
    v.push_back(std::move(t));
  }
  if (red) {
    N acc = mkReal(0);
    Poly rest;
    std::vector<Term> plain;
    for (auto &t : v) { if (needsReduce(t.m)) acc = rAdd(acc, reduceTerm(t)); else plain.push_back(t); }
    std::sort(plain.begin(), plain.end(), [](const Term &p, const Term &q) { return cmpMono(p.m, q.m) < 0; });
    Poly r;
    for (auto &t : plain) {
      if (!r.t.empty() && cmpMono(r.t.back().m, t.m) == 0) { r.t.back().c += t.c; if (r.t.back().c == 0) r.t.pop_back(); }
      else r.t.push_back(t);
    }
    return rAdd(acc, polyNode(std::move(r)));
  }
  std::sort(v.begin(), v.end(), [](const Term &p, const Term &q) { return cmpMono(p.m, q.m) < 0; });
  Poly r;
  for (auto &t : v) {
    if (!r.t.empty() && cmpMono(r.t.back().m, t.m) == 0) { r.t.back().c += t.c; if (r.t.back().c == 0) r.t.pop_back(); }
    else r.t.push_back(std::move(t));
  }
  return polyNode(std::move(r));
}
// a = content * prim, where prim has no common monomial factor and leading coefficient 1
static void splitContent(N a, Term &content, N &prim) {
  const Poly &p = *a->p;
  content = Term(); content.c = p.t[0].c;
  std::map<uint32_t, std::pair<N, int>> mn;
  for (size_t i = 0; i < p.t.size(); i++) {
    std::map<uint32_t, std::pair<N, int>> cur;
    for (auto &f : p.t[i].m.f) cur[f.first->id] = f;
    if (i == 0) { mn = cur; continue; }
    for (auto it = mn.begin(); it != mn.end();) {
      auto jt = cur.find(it->first);
      int e = jt == cur.end() ? 0 : jt->second.second;
      it->second.second = std::min(it->second.second, e);
      ++it;
    }
    for (auto &kv : cur) if (!mn.count(kv.first)) mn[kv.first] = {kv.second.first, std::min(0, kv.second.second)};
  }
  for (auto &kv : mn) if (kv.second.second) content.m.f.push_back(kv.second);
  Mono inv = content.m;
  for (auto &f : inv.f) f.second = -f.second;
  Poly q;
  for (auto &t : p.t) q.t.push_back({mulMono(t.m, inv), t.c / content.c});
  std::sort(q.t.begin(), q.t.end(), [](const Term &x, const Term &y) { return cmpMono(x.m, y.m) < 0; });
  // leading coefficient may have moved: renormalise
  if (q.t[0].c != 1) { mpq_class l = q.t[0].c; for (auto &t : q.t) t.c /= l; content.c *= l; }
  prim = polyNode(std::move(q));
}
static N termNode(const Term &t, int pw) {
  Poly p; Term r; r.m = t.m; for (auto &f : r.m.f) f.second *= pw;
  r.c = pw > 0 ? t.c : mpq_class(1) / t.c;
  p.t.push_back(r);
  N n = polyNode(std::move(p));
  if (needsReduce(n->p->t[0].m)) return reduceTerm(n->p->t[0]);
  return n;
}
// cancel a multi-term factor a against inverse atoms in b: returns null when not applicable
static N cancel(N a, N b) {
  if (a->p->t.size() < 2 || b->p->t.empty()) return nullptr;
  Term c; N prim; splitContent(a, c, prim);
  N at = lookup(mkN(Op::PINV, S::REAL, 0, {prim}));
  N sq = lookup(mkN(Op::SQRT, S::REAL, 0, {prim}));
  for (int which = 0; which < 2; which++) {
    N atom = which ? sq : at; if (!atom) continue;
    bool all = true;
    for (auto &t : b->p->t) {
      bool has = false;
      for (auto &f : t.m.f) if (f.first == atom && (which ? f.second <= -2 : f.second >= 1)) has = true;
      if (!has) { all = false; break; }
    }
    if (!all) continue;
    N d = which ? atomPoly(atom, 2) : nullptr;
    Mono m; m.f.push_back({atom, which ? 2 : -1});
    (void)d;
    Poly q;
    for (auto &t : b->p->t) q.t.push_back({mulMono(t.m, m), t.c});
    std::sort(q.t.begin(), q.t.end(), [](const Term &x, const Term &y) { return cmpMono(x.m, y.m) < 0; });
    return rMul(termNode(c, 1), polyNode(std::move(q)));
  }
  return nullptr;
}
N rMul(N a, N b) {
  if (a->p->t.empty()) return a;
  if (b->p->t.empty()) return b;
  if (N r = cancel(a, b)) return r;
  if (N r = cancel(b, a)) return r;
  return mulRaw(a, b);
}
N rInv(N a) {
  mpq_class q;
  if (rIsConst(a, &q)) { if (q == 0) { fprintf(stderr, "rInv(0)\n"); abort(); } return mkReal(mpq_class(1) / q); }
  if (a->p->t.size() == 1) {
    Term t = a->p->t[0];
    bool hasP = false;
    for (auto &f : t.m.f) if (f.first->op == Op::PINV) hasP = true;
    if (!hasP) return termNode(t, -1);
    N r = mkReal(mpq_class(1) / t.c);
    for (auto &f : t.m.f) {
      if (f.first->op == Op::PINV) r = rMul(r, rPowInt(f.first->k[0], f.second));
      else r = rMul(r, termNode(Term{Mono{{f}}, 1}, -1));
    }
    return r;
  }
  Term c; N prim; splitContent(a, c, prim);
  N sq = lookup(mkN(Op::SQRT, S::REAL, 0, {prim}));
  N inv = sq ? atomPoly(sq, -2) : atomPoly(node(Op::PINV, S::REAL, 0, {prim}));
  return rMul(termNode(c, -1), inv);
}
N rDiv(N a, N b) {
  mpq_class q;
  if (rIsConst(b, &q)) return rScale(a, mpq_class(1) / q);
  if (a == b) return mkReal(1);
  if (a->p->t.empty()) return a;
  if (a->p->t.size() > 1 && a->p->t.size() == b->p->t.size()) {
    Term c1, c2; N p1, p2; splitContent(a, c1, p1); splitContent(b, c2, p2);
    if (p1 == p2) return rMul(termNode(c1, 1), termNode(c2, -1));
  }
  return rMul(a, rInv(b));
}
N rPowInt(N a, long n) {
  if (n == 0) return mkReal(1);
  if (n < 0) return rInv(rPowInt(a, -n));
  N r = a;
  for (long i = 1; i < n; i++) r = rMul(r, a);
  return r;
}
N rIte(N c, N a, N b) {
  if (isTrue(c)) return a;
  if (isFalse(c)) return b;
  if (a == b) return a;
  if (c->op == Op::NOT) { std::swap(a, b); c = c->k[0]; }
  auto inner = [&](N x, int branch) -> N {
    auto &t = x->p->t;
    if (t.size() == 1 && t[0].c == 1 && t[0].m.f.size() == 1 && t[0].m.f[0].second == 1 && t[0].m.f[0].first->op == Op::RITE && t[0].m.f[0].first->k[0] == c)
      return t[0].m.f[0].first->k[branch];
    return x;
  };
  a = inner(a, 1); b = inner(b, 2);
  if (a == b) return a;
  return atomPoly(node(Op::RITE, S::REAL, 0, {c, a, b}));
}
bool rKnownPositive(N a) {
  if (a->op != Op::POLY) {
    switch (a->op) {
    case Op::EXP: return true;
    case Op::PINV: return rKnownPositive(a->k[0]);
    case Op::RITE: return rKnownPositive(a->k[1]) && rKnownPositive(a->k[2]);
    case Op::SQRT: return rKnownPositive(a->k[0]);
    default: return false;
    }
  }
  if (a->p->t.empty()) return false;
  bool strict = false;
  for (auto &t : a->p->t) {
    if (t.c <= 0) return false;
    bool st = true;
    for (auto &f : t.m.f) {
      if (rKnownPositive(f.first)) continue;
      if (f.second % 2 == 0 || f.first->op == Op::SQRT) { if (f.second > 0) st = false; continue; }
      return false;
    }
    if (st) strict = true;
  }
  return strict;
}
N rExp(N a) {
  if (a->p->t.empty()) return mkReal(1);
  N r = mkReal(1);
  for (auto &t : a->p->t) {
    // exp(c * m) = EXP(m / den)^num
    Poly p; Term q; q.m = t.m; q.c = mpq_class(1, t.c.get_den());
    long num = t.c.get_num().fits_slong_p() ? t.c.get_num().get_si() : 0;
    bool whole = num == 0 || num > 64 || num < -64 || t.c.get_den() > 1000;
    if (whole) { q.c = t.c; num = 1; if (t.c < 0) { q.c = -t.c; num = -1; } }
    // exp(k*log(x)) = x^k
    if (!whole && t.c.get_den() == 1 && t.m.f.size() == 1 && t.m.f[0].second == 1 && t.m.f[0].first->op == Op::LOG) {
      r = rMul(r, rPowInt(t.m.f[0].first->k[0], num));
      continue;
    }
    p.t.push_back(q);
    N arg = polyNode(std::move(p));
    r = rMul(r, atomPoly(node(Op::EXP, S::REAL, 0, {arg}), (int)num));
  }
  return r;
}
N rLog(N a) {
  mpq_class q;
  if (rIsConst(a, &q) && q == 1) return mkReal(0);
  // log(c * prod atoms^e * prim): split when the atom factors are known positive
  Term c; N prim;
  if (!rIsConst(a)) {
    splitContent(a, c, prim);
    bool pos = c.c > 0;
    for (auto &f : c.m.f) if (!rKnownPositive(f.first)) pos = false;
    if (pos && (!c.m.f.empty())) {
      N r = mkReal(0);
      if (c.c != 1) r = rAdd(r, atomPoly(node(Op::LOG, S::REAL, 0, {mkReal(c.c)})));
      for (auto &f : c.m.f) {
        N l = f.first->op == Op::EXP ? f.first->k[0] : f.first->op == Op::PINV ? rNeg(rLog(f.first->k[0])) : atomPoly(node(Op::LOG, S::REAL, 0, {atomPoly(f.first)}));
        r = rAdd(r, rScale(l, f.second));
      }
      if (!rIsConst(prim, &q) || q != 1) r = rAdd(r, rLog(prim));
      return r;
    }
  }
  return atomPoly(node(Op::LOG, S::REAL, 0, {a}));
}
N rSqrt(N a) {
  mpq_class q;
  if (rIsConst(a, &q)) {
    if (q == 0) return a;
    if (q > 0 && mpz_perfect_square_p(q.get_num_mpz_t()) && mpz_perfect_square_p(q.get_den_mpz_t()))
      return mkReal(mpq_class(sqrt(q.get_num()), sqrt(q.get_den())));
  }
  return atomPoly(node(Op::SQRT, S::REAL, 0, {a}));
}
N rUF(const std::string &name, const std::vector<N> &args) {
  size_t i = 0;
  for (; i < g_ufs.size(); i++) if (g_ufs[i] == name) break;
  if (i == g_ufs.size()) g_ufs.push_back(name);
  return atomPoly(node(Op::RUF, S::REAL, 0, args, i));
}
std::string ufName(N n) { return g_ufs[n->c]; }
static N cmp0(Op op, N d) {   // d op 0
  mpq_class q;
  if (rIsConst(d, &q)) return mkBool(op == Op::RLT0 ? q < 0 : op == Op::RLE0 ? q <= 0 : q == 0);
  if (rKnownPositive(d)) return mkFalse();
  if (rKnownPositive(rNeg(d))) return mkTrue();
  mpq_class l = d->p->t.back().c;
  if (l < 0) l = -l;
  if (op == Op::REQ0) l = d->p->t.back().c;
  if (l != 1) d = rScale(d, mpq_class(1) / l);
  return node(op, S::BOOL, 1, {d});
}
N rLt(N a, N b) { return cmp0(Op::RLT0, rSub(a, b)); }
N rLe(N a, N b) { return cmp0(Op::RLE0, rSub(a, b)); }
N rEq(N a, N b) { return cmp0(Op::REQ0, rSub(a, b)); }

static N rangedTree(N a, bool sgn) {   // real-valued ite chain for a small-range bit-vector
  std::vector<uint64_t> v;
  if (treeLeaves(a, TREE)) {
    std::unordered_map<N, N> memo;
    struct R { static N go(N x, bool sgn, std::unordered_map<N, N> &m) {
      auto it = m.find(x); if (it != m.end()) return it->second;
      N r;
      if (x->op == Op::CONST) r = mkReal(sgn ? mpq_class((long)sx(x->c, x->w)) : mpq_class((unsigned long)x->c));
      else r = rIte(x->k[0], go(x->k[1], sgn, m), go(x->k[2], sgn, m));
      m[x] = r; return r; } };
    return R::go(a, sgn, memo);
  }
  return nullptr;
}
static N siuiToR(N a, bool sgn) {
  if (N r = rangedTree(a, sgn)) return r;
  if (a->op == Op::R2SI && sgn) {
    // truncation of a value that is itself an integer cast
  }
  N base = a; while (base->op == Op::ZEXT || (sgn && base->op == Op::SEXT)) base = base->k[0];
  if (base != a) { bool z = a->op == Op::ZEXT; if (z) return siuiToR(base, false); return siuiToR(base, true); }
  if (a->op == Op::VAR && g_vars[a->c].ranged && g_vars[a->c].lo >= 0) sgn = true;
  return atomPoly(node(sgn ? Op::SI2R : Op::UI2R, S::REAL, 0, {a}));
}
N siToR(N a) { return siuiToR(a, true); }
N uiToR(N a) { return siuiToR(a, false); }
N rToSI(N a, unsigned w) {
  mpq_class q;
  if (rIsConst(a, &q)) { mpz_class z = q.get_num() / q.get_den(); return mkBV((uint64_t)z.get_si(), w); }
  auto &t = a->p->t;
  if (t.size() == 1 && t[0].c == 1 && t[0].m.f.size() == 1 && t[0].m.f[0].second == 1) {
    N at = t[0].m.f[0].first;
    if (at->op == Op::SI2R) { N x = at->k[0]; return x->w >= w ? mkExtract(x, 0, w) : mkSext(x, w); }
    if (at->op == Op::UI2R) { N x = at->k[0]; return x->w >= w ? mkExtract(x, 0, w) : mkZext(x, w); }
    if (at->op == Op::RITE) return mkIte(at->k[0], rToSI(at->k[1], w), rToSI(at->k[2], w));
  }
  return node(Op::R2SI, S::BV, w, {a});
}
N rBits(N a, unsigned w) {
  auto &t = a->p->t;
  if (t.size() == 1 && t[0].c == 1 && t[0].m.f.size() == 1 && t[0].m.f[0].second == 1 && t[0].m.f[0].first->op == Op::ROFBITS && t[0].m.f[0].first->k[0]->w == w)
    return t[0].m.f[0].first->k[0];
  return node(Op::RBITS, S::BV, w, {a});
}
N rOfBits(N a) {
  if (a->op == Op::RBITS) return a->k[0];
  return atomPoly(node(Op::ROFBITS, S::REAL, 0, {a}));
}

// ---------------------------------------------------------------- IEEE floats on bit patterns
double fpD(uint64_t u, unsigned w) { if (w == 32) { uint32_t x = (uint32_t)u; float f; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &u, 8); return d; }
uint64_t fpU(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t u; memcpy(&u, &d, 8); return u; }
bool fpFold(Op op, uint64_t x, uint64_t y, unsigned kw, unsigned w, uint64_t &r) {
  volatile double a = 0, b = 0; volatile float fa = 0, fb = 0, fr = 0; volatile double dr = 0;
  if (op != Op::SI2F && op != Op::UI2F) { a = fpD(x, kw); b = fpD(y, kw); fa = (float)a; fb = (float)b; }
  bool s = kw == 32;
  switch (op) {
  case Op::FADD: if (s) fr = fa + fb; else dr = a + b; break;
  case Op::FSUB: if (s) fr = fa - fb; else dr = a - b; break;
  case Op::FMUL: if (s) fr = fa * fb; else dr = a * b; break;
  case Op::FDIV: if (s) fr = fa / fb; else dr = a / b; break;
  case Op::FSQRT: if (s) fr = sqrtf(fa); else dr = sqrt(a); break;
  case Op::FCVT: r = fpU(a, w); return true;
  case Op::SI2F: if (w == 32) { fr = (float)sx(x, kw); r = fpU(fr, 32); } else { dr = (double)sx(x, kw); r = fpU(dr, 64); } return true;
  case Op::UI2F: if (w == 32) { fr = (float)x; r = fpU(fr, 32); } else { dr = (double)x; r = fpU(dr, 64); } return true;
  case Op::F2SI: if (!(a > -9.2e18 && a < 9.2e18)) r = msk(1ull << (w - 1), w); else r = msk((uint64_t)(int64_t)a, w); return true;
  case Op::FLT: r = a < b; return true;
  case Op::FLE: r = a <= b; return true;
  case Op::FEQ: r = a == b; return true;
  default: return false;
  }
  r = s ? fpU(fr, 32) : fpU(dr, 64); return true;
}
N fpBin(Op op, N a, N b) {
  uint64_t r; if (isC(a) && isC(b) && fpFold(op, a->c, b->c, a->w, a->w, r)) return mkBV(r, a->w);
  if ((op == Op::FADD || op == Op::FMUL) && a->id > b->id) std::swap(a, b);
  return node(op, S::BV, a->w, {a, b});
}
static N fpUn(Op op, N a, unsigned w) { uint64_t r; if (isC(a) && fpFold(op, a->c, 0, a->w, w, r)) return mkBV(r, w); return node(op, S::BV, w, {a}); }
N fpSqrt(N a) { return fpUn(Op::FSQRT, a, a->w); }
N fpCvt(N a, unsigned w) { if (a->w == w) return a; if (a->op == Op::FCVT && a->w == 64 && a->k[0]->w == w) return a->k[0]; return fpUn(Op::FCVT, a, w); }
N fpOfInt(N a, unsigned w, bool sgn) { return fpUn(sgn ? Op::SI2F : Op::UI2F, a, w); }
N fpToSI(N a, unsigned w) { return fpUn(Op::F2SI, a, w); }
static N fpCmp(Op op, N a, N b) { uint64_t r; if (isC(a) && isC(b) && fpFold(op, a->c, b->c, a->w, 1, r)) return mkBool(r); return node(op, S::BOOL, 1, {a, b}); }
N fpLt(N a, N b) { if (a == b) return mkFalse(); return fpCmp(Op::FLT, a, b); }
N fpLe(N a, N b) { return fpCmp(Op::FLE, a, b); }
N fpEq(N a, N b) { if (a->id > b->id) std::swap(a, b); return fpCmp(Op::FEQ, a, b); }

// ---------------------------------------------------------------- traversals
const std::vector<uint64_t> &varSet(N n) {
  static std::vector<std::vector<uint64_t>> memo;
  static std::vector<char> done;
  if (memo.size() < g_nodes.size()) { memo.resize(g_nodes.size() * 2); done.resize(g_nodes.size() * 2); }
  if (done[n->id]) return memo[n->id];
  std::vector<uint64_t> r;
  auto orIn = [&](const std::vector<uint64_t> &o) {
    if (o.size() > r.size()) r.resize(o.size());
    for (size_t i = 0; i < o.size(); i++) r[i] |= o[i];
  };
  if (n->op == Op::VAR || n->op == Op::BVAR || n->op == Op::RVAR) { r.resize(n->c / 64 + 1); r[n->c / 64] |= 1ull << (n->c % 64); }
  for (auto k : n->k) { auto v = varSet(k); orIn(v); }
  if (n->op == Op::POLY) for (auto &t : n->p->t) for (auto &f : t.m.f) { auto v = varSet(f.first); orIn(v); }
  done[n->id] = 1;
  memo[n->id] = r;
  return memo[n->id];
}
static N rebuild(N n, const std::vector<N> &k) {
  switch (n->op) {
  case Op::NOT: return mkNot(k[0]);
  case Op::AND: return mkAnd(k[0], k[1]);
  case Op::OR: return mkOr(k[0], k[1]);
  case Op::IFF: return mkIff(k[0], k[1]);
  case Op::EQ: return mkEq(k[0], k[1]);
  case Op::ULT: return mkUlt(k[0], k[1]);
  case Op::ULE: return mkUle(k[0], k[1]);
  case Op::SLT: return mkSlt(k[0], k[1]);
  case Op::SLE: return mkSle(k[0], k[1]);
  case Op::RLT0: return rLt(k[0], mkReal(0));
  case Op::RLE0: return rLe(k[0], mkReal(0));
  case Op::REQ0: return rEq(k[0], mkReal(0));
  case Op::BITE: return mkBIte(k[0], k[1], k[2]);
  case Op::ZEXT: return mkZext(k[0], n->w);
  case Op::SEXT: return mkSext(k[0], n->w);
  case Op::EXTRACT: return mkExtract(k[0], (unsigned)n->c, n->w);
  case Op::CONCAT: return mkConcat(k[0], k[1]);
  case Op::ITE: return mkIte(k[0], k[1], k[2]);
  case Op::R2SI: return rToSI(k[0], n->w);
  case Op::RBITS: return rBits(k[0], n->w);
  case Op::RITE: return rIte(k[0], k[1], k[2]);
  case Op::EXP: return rExp(k[0]);
  case Op::LOG: return rLog(k[0]);
  case Op::SQRT: return rSqrt(k[0]);
  case Op::PINV: { mpq_class q; if (rIsConst(k[0], &q) && q == 0) return atomPoly(n); return rInv(k[0]); }
  case Op::SI2R: return siToR(k[0]);
  case Op::UI2R: return uiToR(k[0]);
  case Op::RUF: return rUF(ufName(n), k);
  case Op::RPROD: return rMul(k[0], k[1]);
  case Op::ROFBITS: return rOfBits(k[0]);
  case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: return fpBin(n->op, k[0], k[1]);
  case Op::FSQRT: return fpSqrt(k[0]);
  case Op::FCVT: return fpCvt(k[0], n->w);
  case Op::SI2F: return fpOfInt(k[0], n->w, true);
  case Op::UI2F: return fpOfInt(k[0], n->w, false);
  case Op::F2SI: return fpToSI(k[0], n->w);
  case Op::FLT: return fpLt(k[0], k[1]);
  case Op::FLE: return fpLe(k[0], k[1]);
  case Op::FEQ: return fpEq(k[0], k[1]);
  default: return mkBin(n->op, k[0], k[1]);
  }
}
static N subst(N n, N cond, N val, std::unordered_map<N, N> &memo);
static N substAtom(N at, N cond, N val, std::unordered_map<N, N> &memo) {   // atom -> POLY node
  auto it = memo.find(at);
  if (it != memo.end()) return it->second;
  N r;
  if (at->k.empty()) r = atomPoly(at);
  else {
    std::vector<N> k; bool ch = false;
    for (auto x : at->k) { N y = subst(x, cond, val, memo); ch |= y != x; k.push_back(y); }
    r = ch ? rebuild(at, k) : atomPoly(at);
  }
  memo[at] = r;
  return r;
}
static N subst(N n, N cond, N val, std::unordered_map<N, N> &memo) {
  if (n == cond) return val;
  auto it = memo.find(n);
  if (it != memo.end()) return it->second;
  N r = n;
  if (n->op == Op::POLY) {
    bool any = false;
    for (auto &t : n->p->t) { for (auto &f : t.m.f) { N y = substAtom(f.first, cond, val, memo); if (!(y->p->t.size() == 1 && y->p->t[0].c == 1 && y->p->t[0].m.f.size() == 1 && y->p->t[0].m.f[0].first == f.first && y->p->t[0].m.f[0].second == 1)) any = true; } }
    if (any) {
      r = mkReal(0);
      for (auto &t : n->p->t) {
        N m = mkReal(t.c);
        for (auto &f : t.m.f) {
          N y = substAtom(f.first, cond, val, memo);
          mpq_class q;
          if (f.second < 0 && rIsConst(y, &q) && q == 0) { m = rMul(m, atomPoly(f.first, f.second)); continue; }
          m = rMul(m, rPowInt(y, f.second));
        }
        r = rAdd(r, m);
      }
    }
  } else if (!n->k.empty()) {
    std::vector<N> k; bool ch = false;
    for (auto x : n->k) { N y = subst(x, cond, val, memo); ch |= y != x; k.push_back(y); }
    if (ch) r = rebuild(n, k);
  }
  memo[n] = r;
  return r;
}
N substitute(N n, N cond, bool val, std::unordered_map<N, N> &memo) {
  if (cond->op == Op::NOT) { cond = cond->k[0]; val = !val; }
  N neg = mkNot(cond);
  if (neg->op != Op::NOT) memo[neg] = mkBool(!val);
  return subst(n, cond, mkBool(val), memo);
}
void collectIteConds(N n, std::vector<N> &out, int limit) {
  std::unordered_set<N> seen, have;
  std::vector<N> st{n};
  while (!st.empty() && (int)out.size() < limit) {
    N x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    if (x->op == Op::RITE || x->op == Op::ITE || x->op == Op::BITE) if (have.insert(x->k[0]).second) out.push_back(x->k[0]);
    for (auto k : x->k) st.push_back(k);
    if (x->op == Op::POLY) for (auto &t : x->p->t) for (auto &f : t.m.f) st.push_back(f.first);
  }
}
void collectAtoms(N n, std::vector<N> &out) {
  std::unordered_set<N> seen;
  std::vector<N> st{n};
  while (!st.empty()) {
    N x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    switch (x->op) { case Op::EXP: case Op::LOG: case Op::SQRT: case Op::PINV: case Op::RUF: case Op::SI2R: case Op::UI2R: case Op::ROFBITS: case Op::R2SI: case Op::RBITS: out.push_back(x); break; default: break; }
    for (auto k : x->k) st.push_back(k);
    if (x->op == Op::POLY) for (auto &t : x->p->t) for (auto &f : t.m.f) st.push_back(f.first);
  }
}

// ---------------------------------------------------------------- evaluation
const EvalR &Evaluator::ev(N n) {
  auto it = memo.find(n);
  if (it != memo.end()) return it->second;
  EvalR r;
  auto U = [&](int i) { return ev(n->k[i]).u; };
  auto allOk = [&]() { for (auto k : n->k) if (!ev(k).ok) return false; return true; };
  switch (n->op) {
  case Op::TRUE_: r.ok = true; r.u = 1; break;
  case Op::FALSE_: r.ok = true; r.u = 0; break;
  case Op::CONST: r.ok = true; r.u = n->c; break;
  case Op::VAR: case Op::BVAR: {
    auto f = m.bv.find(n->id);
    if (f != m.bv.end()) { r.ok = true; r.u = f->second; }
    else if (defaults) { r.ok = true; auto &v = g_vars[n->c]; r.u = v.ranged ? msk((uint64_t)(v.lo > 0 || v.hi < 0 ? v.lo : 0), v.w) : 0; }
    break; }
  case Op::NOT: if (allOk()) { r.ok = true; r.u = !U(0); } break;
  case Op::AND: { auto a = ev(n->k[0]); auto b = ev(n->k[1]); if ((a.ok && !a.u) || (b.ok && !b.u)) { r.ok = true; r.u = 0; } else if (a.ok && b.ok) { r.ok = true; r.u = 1; } break; }
  case Op::OR: { auto a = ev(n->k[0]); auto b = ev(n->k[1]); if ((a.ok && a.u) || (b.ok && b.u)) { r.ok = true; r.u = 1; } else if (a.ok && b.ok) { r.ok = true; r.u = 0; } break; }
  case Op::IFF: case Op::EQ: if (allOk()) { r.ok = true; r.u = U(0) == U(1); } break;
  case Op::ULT: if (allOk()) { r.ok = true; r.u = U(0) < U(1); } break;
  case Op::ULE: if (allOk()) { r.ok = true; r.u = U(0) <= U(1); } break;
  case Op::SLT: if (allOk()) { r.ok = true; r.u = sx(U(0), n->k[0]->w) < sx(U(1), n->k[0]->w); } break;
  case Op::SLE: if (allOk()) { r.ok = true; r.u = sx(U(0), n->k[0]->w) <= sx(U(1), n->k[0]->w); } break;
  case Op::RLT0: if (allOk()) { r.ok = true; r.u = ev(n->k[0]).q < 0; } break;
  case Op::RLE0: if (allOk()) { r.ok = true; r.u = ev(n->k[0]).q <= 0; } break;
  case Op::REQ0: if (allOk()) { r.ok = true; r.u = ev(n->k[0]).q == 0; } break;
  case Op::BITE: case Op::ITE: case Op::RITE: {
    auto c = ev(n->k[0]);
    if (c.ok) r = ev(n->k[c.u ? 1 : 2]);
    break; }
  case Op::ZEXT: if (allOk()) { r.ok = true; r.u = U(0); } break;
  case Op::SEXT: if (allOk()) { r.ok = true; r.u = msk((uint64_t)sx(U(0), n->k[0]->w), n->w); } break;
  case Op::EXTRACT: if (allOk()) { r.ok = true; r.u = msk(U(0) >> n->c, n->w); } break;
  case Op::CONCAT: if (allOk()) { r.ok = true; r.u = msk((U(0) << n->k[1]->w) | U(1), n->w); } break;
  case Op::R2SI: if (allOk()) { mpq_class q = ev(n->k[0]).q; mpz_class z = q.get_num() / q.get_den(); if (z.fits_slong_p()) { r.ok = true; r.u = msk((uint64_t)z.get_si(), n->w); } } break;
  case Op::SI2R: if (allOk()) { r.ok = true; r.q = mpq_class((long)sx(U(0), n->k[0]->w)); } break;
  case Op::UI2R: if (allOk()) { r.ok = true; r.q = mpq_class((unsigned long)U(0)); } break;
  case Op::POLY: {
    r.ok = true; r.q = 0;
    for (auto &t : n->p->t) {
      mpq_class v = t.c;
      for (auto &f : t.m.f) {
        auto a = ev(f.first);
        if (!a.ok) { r.ok = false; break; }
        if (f.second < 0 && a.q == 0) { r.ok = false; break; }
        int e = std::abs(f.second);
        for (int i = 0; i < e; i++) { if (f.second > 0) v *= a.q; else v /= a.q; }
      }
      if (!r.ok) break;
      r.q += v;
    }
    break; }
  case Op::RPROD: if (allOk()) { r.ok = true; r.q = ev(n->k[0]).q * ev(n->k[1]).q; } break;
  case Op::PINV: if (allOk()) { auto q = ev(n->k[0]).q; if (q != 0) { r.ok = true; r.q = 1 / q; } } break;
  case Op::RVAR: case Op::EXP: case Op::LOG: case Op::SQRT: case Op::RUF: case Op::ROFBITS: {
    auto f = m.r.find(n->id);
    if (f != m.r.end()) { r.ok = true; r.q = f->second; }
    else if (defaults && n->op == Op::RVAR) { r.ok = true; r.q = 0; }
    break; }
  case Op::RBITS: break;
  case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: case Op::FSQRT: case Op::FCVT: case Op::SI2F: case Op::UI2F: case Op::F2SI: case Op::FLT: case Op::FLE: case Op::FEQ:
    if (allOk()) { uint64_t v; if (fpFold(n->op, U(0), n->k.size() > 1 ? U(1) : 0, n->k[0]->w, n->w, v)) { r.ok = true; r.u = v; } }
    break;
  default: if (allOk()) { uint64_t v; if (foldBin(n->op, U(0), U(1), n->w, v)) { r.ok = true; r.u = v; } }
  }
  return memo[n] = r;
}

std::string toStr(N n, int d) {
  static const char *nm[] = {"true", "false", "b", "!", "&", "|", "<->", "=", "u<", "u<=", "s<", "s<=", "<0", "<=0", "=0", "ite",
    "", "", "+", "*", "u/", "s/", "u%", "s%", "&", "|", "^", "<<", ">>", "a>>", "zext", "sext", "extr", "concat", "ite", "r2si", "rbits", "f+", "f-", "f*", "f/", "fsqrt", "fcvt", "si2f", "ui2f", "f2si", "f<", "f<=", "f==",
    "poly", "", "rite", "exp", "log", "sqrt", "inv", "si2r", "ui2r", "uf", "prod", "ofbits"};
  if (n->op == Op::CONST) return std::to_string((long long)sx(n->c, n->w));
  if (n->op == Op::VAR || n->op == Op::BVAR || n->op == Op::RVAR) return g_vars[n->c].name;
  if (d <= 0) return "..";
  if (n->op == Op::POLY) {
    std::string s; int cnt = 0;
    if (n->p->t.empty()) return "0";
    for (auto &t : n->p->t) {
      if (cnt++ > 12) { s += " + ...(" + std::to_string(n->p->t.size()) + ")"; break; }
      if (!s.empty()) s += " + ";
      std::string c = t.c.get_str();
      if (c.size() > 24) c = std::to_string(t.c.get_d());
      bool one = t.c == 1 && !t.m.f.empty();
      if (!one) s += c;
      for (auto &f : t.m.f) { if (!one) s += "*"; one = false; s += toStr(f.first, d - 1); if (f.second != 1) s += "^" + std::to_string(f.second); }
    }
    return s;
  }
  std::string s = n->op == Op::RUF ? ufName(n) : nm[(int)n->op];
  s += "(";
  for (size_t i = 0; i < n->k.size(); i++) s += (i ? ", " : "") + toStr(n->k[i], d - 1);
  return s + ")";
}
N polyOf(N atom) { return atomPoly(atom); }
