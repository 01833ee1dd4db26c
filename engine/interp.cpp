#include "engine.hpp"
#include <cfenv>
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

Shared *SH = nullptr;
static inline uint64_t msk(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
Val mkI(uint64_t u, unsigned w) { Val v; v.k = Val::I; v.w = (uint16_t)w; v.u = msk(u, w); return v; }
Val mkF(double d, unsigned w) {
  Val v; v.k = Val::F; v.w = (uint16_t)w;
  if (w == 32) { float f = (float)d; uint32_t b; memcpy(&b, &f, 4); v.u = b; } else memcpy(&v.u, &d, 8);
  return v;
}
double fD(const Val &v) { if (v.w == 32) { float f; uint32_t b = (uint32_t)v.u; memcpy(&f, &b, 4); return f; } double d; memcpy(&d, &v.u, 8); return d; }
static Val mkAgg(std::vector<Val> e) { Val v; v.k = Val::AGG; v.a = std::make_shared<std::vector<Val>>(std::move(e)); return v; }
static bool isSym(const Val &v) { return v.k == Val::SI || v.k == Val::SF || v.k == Val::PARTS; }

// ------------------------------------------------------------------ value helpers
N Engine::toBV(const Val &v) {
  if (v.k == Val::I) return mkBV(v.u, v.w);
  if (v.k == Val::SI) return v.n->sort == S::BOOL ? boolToBV(v.n, 1) : v.n;
  if (v.k == Val::F) return mkBV(v.u, v.w);
  if (v.k == Val::SF) return rBits(v.n, v.w);
  if (v.k == Val::PARTS) {
    N r = nullptr;
    for (auto &p : *v.a) { N x = toBV(p); r = r ? mkConcat(x, r) : x; }
    return r;
  }
  incomplete("toBV of aggregate");
}
N Engine::toBool(const Val &v) {
  if (v.k == Val::I) return mkBool(v.u & 1);
  if (v.k == Val::SI) return v.n->sort == S::BOOL ? v.n : bvToBool(v.n);
  incomplete("toBool");
}
N Engine::toR(const Val &v) {
  if (v.k == Val::SF) return v.n;
  if (v.k == Val::F) { double d = fD(v); if (!std::isfinite(d)) incomplete("non-finite constant used as a real"); return mkRealD(d); }
  if (v.k == Val::PARTS && v.a->size() == 1) return toR((*v.a)[0]);
  if (v.k == Val::SI || v.k == Val::PARTS) return rOfBits(toBV(v));
  incomplete("toR of non-float");
}
Val Engine::fromBV(N n) {
  if (n->op == Op::CONST) return mkI(n->c, n->w);
  Val v; v.k = Val::SI; v.w = n->w; v.n = n; return v;
}
Val Engine::fromBool(N n) {
  if (isTrue(n)) return mkI(1, 1);
  if (isFalse(n)) return mkI(0, 1);
  Val v; v.k = Val::SI; v.w = 1; v.n = n; return v;
}
Val Engine::fromR(N n, unsigned w) {
  mpq_class q;
  if (rIsConst(n, &q)) {
    double d = q.get_d();
    if (mpq_class(d) == q && (w == 64 || (double)(float)d == d)) return mkF(d, w);
  }
  Val v; v.k = Val::SF; v.w = (uint16_t)w; v.n = n; return v;
}
// bit-precise mode: a float is its IEEE bit pattern
N Engine::fpB(const Val &v) { return v.k == Val::F || v.k == Val::I ? mkBV(v.u, v.w) : toBV(v); }
Val Engine::fromFP(N n) { if (n->op == Op::CONST) { Val v; v.k = Val::F; v.w = n->w; v.u = n->c; return v; } return fromBV(n); }
static bool nonFinite(const Val &v) { return v.k == Val::F && !std::isfinite(fD(v)); }
Val Engine::iteVal(N c, const Val &a, const Val &b) {
  if (isTrue(c)) return a;
  if (isFalse(c)) return b;
  if (a.k == b.k && (a.k == Val::I || a.k == Val::F) && a.u == b.u && a.w == b.w) return a;
  if (fpm && ((a.k == Val::F && (b.k == Val::F || b.k == Val::SI)) || (b.k == Val::F && a.k == Val::SI))) return fromFP(mkIte(c, fpB(a), fpB(b)));
  if (nonFinite(a) || nonFinite(b)) return decide(c) ? a : b;
  if (a.k == Val::AGG && b.k == Val::AGG) {
    std::vector<Val> e;
    for (size_t i = 0; i < a.a->size(); i++) e.push_back(iteVal(c, (*a.a)[i], (*b.a)[i]));
    return mkAgg(e);
  }
  if ((a.k == Val::F || a.k == Val::SF) && (b.k == Val::F || b.k == Val::SF)) return fromR(rIte(c, toR(a), toR(b)), a.w);
  if ((a.k == Val::I || a.k == Val::SI) && (b.k == Val::I || b.k == Val::SI)) {
    if (a.w == 1) return fromBool(mkBIte(c, toBool(a), toBool(b)));
    return fromBV(mkIte(c, toBV(a), toBV(b)));
  }
  return decide(c) ? a : b;
}
static void flat(const Val &v, std::vector<Val> &out) {
  if (v.k == Val::PARTS) for (auto &p : *v.a) flat(p, out);
  else out.push_back(v);
}
Val Engine::joinParts(const std::vector<Val> &ps) {
  std::vector<Val> f; for (auto &p : ps) flat(p, f);
  unsigned w = 0; for (auto &p : f) w += p.w;
  bool flt = false; for (auto &p : f) if (p.k == Val::SF) flt = true;
  if (f.size() == 1 && !flt) return f[0].k == Val::F ? mkI(f[0].u, f[0].w) : f[0];
  bool allI = true; for (auto &p : f) if (p.k != Val::I && p.k != Val::F) allI = false;
  if (allI && w <= 64) { uint64_t u = 0; unsigned o = 0; for (auto &p : f) { u |= p.u << o; o += p.w; } return mkI(u, w); }
  if (!flt && w <= 64) { N r = nullptr; for (auto &p : f) { N x = toBV(p); r = r ? mkConcat(x, r) : x; } return fromBV(r); }
  Val v; v.k = Val::PARTS; v.w = (uint16_t)w; v.a = std::make_shared<std::vector<Val>>(f); return v;
}
Val Engine::bits(const Val &v, unsigned lo, unsigned w) {
  if (lo == 0 && w == v.w && v.k != Val::F && v.k != Val::SF) return v;
  if (v.k == Val::I || v.k == Val::F) return mkI(v.u >> lo, w);
  if (v.k == Val::SI) { N n = v.n->sort == S::BOOL ? boolToBV(v.n, 1) : v.n; N r = mkExtract(n, lo, w); if (w == 1) return fromBool(mkEq(r, mkBV(1, 1))); return fromBV(r); }
  if (v.k == Val::SF) { if (lo == 0 && w == v.w) { Val p; p.k = Val::PARTS; p.w = v.w; p.a = std::make_shared<std::vector<Val>>(1, v); return p; } return fromBV(mkExtract(rBits(v.n, v.w), lo, w)); }
  if (v.k == Val::PARTS) {
    std::vector<Val> out; unsigned o = 0;
    for (auto &p : *v.a) {
      unsigned a = std::max(lo, o), b = std::min(lo + w, o + p.w);
      if (a < b) { if (a == o && b == o + p.w) out.push_back(p); else out.push_back(bits(p, a - o, b - a)); }
      o += p.w;
    }
    return joinParts(out);
  }
  incomplete("bits of aggregate");
}
static unsigned __int128 u128(const Val &v) {
  if (v.k == Val::I) return v.u;
  unsigned __int128 r = 0; unsigned o = 0;
  for (auto &p : *v.a) { r |= (unsigned __int128)p.u << o; o += p.w; }
  return r;
}
static bool allConc(const Val &v) { if (v.k == Val::I) return true; if (v.k != Val::PARTS) return false; for (auto &p : *v.a) if (p.k != Val::I && p.k != Val::F) return false; return true; }
static Val from128(unsigned __int128 x, unsigned w) {
  if (w <= 64) return mkI((uint64_t)x, w);
  if (w < 128) x &= (((unsigned __int128)1) << w) - 1;
  Val v; v.k = Val::PARTS; v.w = (uint16_t)w; v.a = std::make_shared<std::vector<Val>>();
  v.a->push_back(mkI((uint64_t)x, 64)); v.a->push_back(mkI((uint64_t)(x >> 64), w - 64));
  return v;
}
Val Engine::intBin(unsigned op, const Val &a, const Val &b, unsigned w) {
  if (a.k == Val::I && b.k == Val::I && w <= 64) {
    uint64_t x = a.u, y = b.u;
    switch (op) {
    case Instruction::Add: return mkI(x + y, w);
    case Instruction::Sub: return mkI(x - y, w);
    case Instruction::Mul: return mkI(x * y, w);
    case Instruction::And: return mkI(x & y, w);
    case Instruction::Or: return mkI(x | y, w);
    case Instruction::Xor: return mkI(x ^ y, w);
    case Instruction::Shl: return mkI(y >= w ? 0 : x << y, w);
    case Instruction::LShr: return mkI(y >= w ? 0 : x >> y, w);
    case Instruction::AShr: return mkI(y >= w ? (sx(x, w) < 0 ? ~0ull : 0) : (uint64_t)(sx(x, w) >> y), w);
    case Instruction::UDiv: if (!y) { violationHere("div", "integer division by zero"); throw Stop(); } return mkI(x / y, w);
    case Instruction::URem: if (!y) { violationHere("div", "integer remainder by zero"); throw Stop(); } return mkI(x % y, w);
    case Instruction::SDiv: if (!y) { violationHere("div", "integer division by zero"); throw Stop(); } if (sx(y, w) == -1) return mkI(0 - x, w); return mkI((uint64_t)(sx(x, w) / sx(y, w)), w);
    case Instruction::SRem: if (!y) { violationHere("div", "integer remainder by zero"); throw Stop(); } if (sx(y, w) == -1) return mkI(0, w); return mkI((uint64_t)(sx(x, w) % sx(y, w)), w);
    }
  }
  if (w > 64) {
    if (allConc(a) && allConc(b)) {
      unsigned __int128 x = u128(a), y = u128(b);
      switch (op) {
      case Instruction::Add: return from128(x + y, w);
      case Instruction::Sub: return from128(x - y, w);
      case Instruction::Mul: return from128(x * y, w);
      case Instruction::And: return from128(x & y, w);
      case Instruction::Or: return from128(x | y, w);
      case Instruction::Xor: return from128(x ^ y, w);
      case Instruction::Shl: return from128(y >= w ? 0 : x << (int)y, w);
      case Instruction::LShr: return from128(y >= w ? 0 : x >> (int)y, w);
      case Instruction::UDiv: if (y) return from128(x / y, w); break;
      case Instruction::URem: if (y) return from128(x % y, w); break;
      }
    }
  }
  if (a.k == Val::PARTS || b.k == Val::PARTS || w > 64) {
    bool cb = allConc(b), ca = allConc(a);
    uint64_t y = cb ? (uint64_t)u128(b) : 0;
    auto zero = [&](unsigned n) { std::vector<Val> z; while (n) { unsigned k = std::min(n, 64u); z.push_back(mkI(0, k)); n -= k; } return joinParts(z); };
    if (op == Instruction::LShr && cb && y < w) { if (!y) return a; return joinParts({bits(a, (unsigned)y, w - (unsigned)y), zero((unsigned)y)}); }
    if (op == Instruction::Shl && cb && y < w) { if (!y) return a; return joinParts({zero((unsigned)y), bits(a, 0, w - (unsigned)y)}); }
    if (op == Instruction::Or || op == Instruction::Add || op == Instruction::Xor) {
      // disjoint pieces
      std::vector<Val> pa, pb; flat(a, pa); flat(b, pb);
      std::set<unsigned> cut{0, w}; unsigned o = 0;
      for (auto &p : pa) { cut.insert(o); o += p.w; } o = 0;
      for (auto &p : pb) { cut.insert(o); o += p.w; }
      std::vector<Val> out; bool ok = true;
      for (auto it = cut.begin(); ok && std::next(it) != cut.end(); ++it) {
        unsigned lo = *it, n = *std::next(it) - lo;
        Val x = bits(a, lo, n), z = bits(b, lo, n);
        if (x.k == Val::I && x.u == 0) out.push_back(z);
        else if (z.k == Val::I && z.u == 0) out.push_back(x);
        else if (op != Instruction::Add && n <= 64 && (x.k == Val::I || x.k == Val::SI) && (z.k == Val::I || z.k == Val::SI)) out.push_back(intBin(op, x, z, n));
        else ok = false;
      }
      if (ok) return joinParts(out);
    }
    if (a.k == Val::PARTS && a.a->size() == 1 && (*a.a)[0].k == Val::SF && cb) {
      const Val &s = (*a.a)[0]; uint64_t sign = 1ull << (w - 1);
      if (op == Instruction::Xor && y == sign) return bits(fneg(s), 0, w);
      if (op == Instruction::And && y == sign - 1) return bits(fun1("fabs", s, w), 0, w);
    }
    if (op == Instruction::And && cb && w <= 64 && y && !(y & (y + 1))) { unsigned n = 64 - (unsigned)__builtin_clzll(y); if (n < w) return joinParts({bits(a, 0, n), zero(w - n)}); }
    if (w > 64) incomplete("wide integer operation on symbolic value");
    (void)ca;
  }
  if (w == 1) {
    N x = toBool(a), y = toBool(b);
    switch (op) {
    case Instruction::And: case Instruction::Mul: return fromBool(mkAnd(x, y));
    case Instruction::Or: return fromBool(mkOr(x, y));
    case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromBool(mkNot(mkIff(x, y)));
    default: incomplete("i1 operation");
    }
  }
  N x = toBV(a), y = toBV(b);
  Op o;
  switch (op) {
  case Instruction::Add: o = Op::ADD; break;
  case Instruction::Sub: return fromBV(mkSub(x, y));
  case Instruction::Mul: o = Op::MUL; break;
  case Instruction::And: o = Op::BAND; break;
  case Instruction::Or: o = Op::BOR; break;
  case Instruction::Xor: o = Op::BXOR; break;
  case Instruction::Shl: o = Op::SHL; break;
  case Instruction::LShr: o = Op::LSHR; break;
  case Instruction::AShr: o = Op::ASHR; break;
  case Instruction::UDiv: o = Op::UDIV; break;
  case Instruction::SDiv: o = Op::SDIV; break;
  case Instruction::URem: o = Op::UREM; break;
  case Instruction::SRem: o = Op::SREM; break;
  default: incomplete("int op");
  }
  if (o == Op::UDIV || o == Op::SDIV || o == Op::UREM || o == Op::SREM) {
    if (decide(mkEq(y, mkBV(0, w)))) { violationHere("div", "integer division by zero"); throw Stop(); }
  }
  return fromBV(mkBin(o, x, y));
}
Val Engine::icmp(int pred, const Val &a, const Val &b) {
  if (a.k == Val::I && b.k == Val::I) {
    uint64_t x = a.u, y = b.u; int64_t sa = sx(x, a.w), sb = sx(y, b.w); bool r = false;
    switch (pred) {
    case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
    case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
    case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
    case CmpInst::ICMP_SLT: r = sa < sb; break; case CmpInst::ICMP_SLE: r = sa <= sb; break;
    case CmpInst::ICMP_SGT: r = sa > sb; break; case CmpInst::ICMP_SGE: r = sa >= sb; break;
    }
    return mkI(r, 1);
  }
  if (a.w > 64 || b.w > 64) {
    if (allConc(a) && allConc(b)) {
      auto x = u128(a), y = u128(b); bool r = false;
      switch (pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; default: incomplete("wide icmp"); }
      return mkI(r, 1);
    }
    incomplete("wide icmp");
  }
  auto soloF = [](const Val &v) -> const Val * { return v.k == Val::PARTS && v.a->size() == 1 && (*v.a)[0].k == Val::SF ? &(*v.a)[0] : nullptr; };
  if ((pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) && soloF(a) && (soloF(b) || b.k == Val::I)) {   // equality of float bit patterns
    Val fb; if (soloF(b)) fb = *soloF(b); else { fb.k = Val::F; fb.w = b.w; fb.u = b.u; }
    if (nonFinite(fb)) return mkI(pred == CmpInst::ICMP_NE, 1);
    N e = rEq(soloF(a)->n, toR(fb));
    return fromBool(pred == CmpInst::ICMP_EQ ? e : mkNot(e));
  }
  if ((pred == CmpInst::ICMP_SLT && soloF(a) && b.k == Val::I && b.u == 0)) return fromBool(rLt(soloF(a)->n, mkReal(0)));
  if ((pred == CmpInst::ICMP_SGT && soloF(a) && b.k == Val::I && sx(b.u, b.w) == -1)) return fromBool(rLe(mkReal(0), soloF(a)->n));
  if (a.w == 1 && (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE)) { N e = mkIff(toBool(a), toBool(b)); return fromBool(pred == CmpInst::ICMP_EQ ? e : mkNot(e)); }
  N x = toBV(a), y = toBV(b);
  switch (pred) {
  case CmpInst::ICMP_EQ: return fromBool(mkEq(x, y));
  case CmpInst::ICMP_NE: return fromBool(mkNot(mkEq(x, y)));
  case CmpInst::ICMP_ULT: return fromBool(mkUlt(x, y));
  case CmpInst::ICMP_ULE: return fromBool(mkUle(x, y));
  case CmpInst::ICMP_UGT: return fromBool(mkUlt(y, x));
  case CmpInst::ICMP_UGE: return fromBool(mkUle(y, x));
  case CmpInst::ICMP_SLT: return fromBool(mkSlt(x, y));
  case CmpInst::ICMP_SLE: return fromBool(mkSle(x, y));
  case CmpInst::ICMP_SGT: return fromBool(mkSlt(y, x));
  case CmpInst::ICMP_SGE: return fromBool(mkSle(y, x));
  }
  incomplete("icmp");
}
static double natBin(unsigned op, double x, double y, unsigned w, bool &exact) {
  feclearexcept(FE_ALL_EXCEPT);
  double r = 0;
  if (w == 32) {
    volatile float a = (float)x, b = (float)y, c = 0;
    switch (op) { case Instruction::FAdd: c = a + b; break; case Instruction::FSub: c = a - b; break; case Instruction::FMul: c = a * b; break; case Instruction::FDiv: c = a / b; break; case Instruction::FRem: c = fmodf(a, b); break; }
    r = c;
  } else {
    volatile double a = x, b = y, c = 0;
    switch (op) { case Instruction::FAdd: c = a + b; break; case Instruction::FSub: c = a - b; break; case Instruction::FMul: c = a * b; break; case Instruction::FDiv: c = a / b; break; case Instruction::FRem: c = fmod(a, b); break; }
    r = c;
  }
  exact = !fetestexcept(FE_INEXACT | FE_UNDERFLOW | FE_OVERFLOW);
  return r;
}
Val Engine::fneg(const Val &a) {
  if (fpm) return fromFP(mkBin(Op::BXOR, fpB(a), mkBV(1ull << (a.w - 1), a.w)));
  if (a.k == Val::F) return mkF(-fD(a), a.w);
  return fromR(rNeg(toR(a)), a.w);
}
Val Engine::fbin(unsigned op, const Val &a, const Val &b) {
  unsigned w = a.w;
  if (fpm) {
    if (op == Instruction::FRem) { if (a.k == Val::F && b.k == Val::F) { bool ex; return mkF(natBin(op, fD(a), fD(b), w, ex), w); } incomplete("frem on symbolic values"); }
    return fromFP(fpBin(op == Instruction::FAdd ? Op::FADD : op == Instruction::FSub ? Op::FSUB : op == Instruction::FMul ? Op::FMUL : Op::FDIV, fpB(a), fpB(b)));
  }
  if (a.k == Val::F && b.k == Val::F) {
    double x = fD(a), y = fD(b); bool ex;
    double r = natBin(op, x, y, w, ex);
    if (ex || !std::isfinite(x) || !std::isfinite(y) || !std::isfinite(r)) return mkF(r, w);
    if (op == Instruction::FRem) return mkF(r, w);
  }
  if (nonFinite(a) || nonFinite(b)) {
    const Val &s = nonFinite(a) ? a : b; double d = fD(s);
    if (std::isnan(d)) return s;
    if (op == Instruction::FAdd) return s;
    if (op == Instruction::FSub) return nonFinite(a) ? s : mkF(-d, w);
    const Val &o = nonFinite(a) ? b : a;
    if (op == Instruction::FMul || (op == Instruction::FDiv && nonFinite(a))) {
      N z = toR(o);
      if (decide(rEq(z, mkReal(0)))) return op == Instruction::FMul ? mkF(NAN, w) : mkF(d, w);
      return decide(rLt(mkReal(0), z)) ? mkF(d, w) : mkF(-d, w);
    }
    if (op == Instruction::FDiv) return mkF(0, w);
    incomplete("non-finite arithmetic");
  }
  N x = toR(a), y = toR(b);
  switch (op) {
  case Instruction::FAdd: return fromR(rAdd(x, y), w);
  case Instruction::FSub: return fromR(rSub(x, y), w);
  case Instruction::FMul: return fromR(rMul(x, y), w);
  case Instruction::FDiv: {
    mpq_class q;
    if (rIsConst(y, &q) && q == 0) {
      if (decide(rEq(x, mkReal(0)))) return mkF(NAN, w);
      return decide(rLt(mkReal(0), x)) ? mkF(INFINITY, w) : mkF(-INFINITY, w);
    }
    if (!rIsConst(y) && !rKnownPositive(y) && outOfDomain(rEq(y, mkReal(0)), "some divisors are assumed to be non-zero")) {
      if (decide(rEq(x, mkReal(0)))) return mkF(NAN, w);
      return decide(rLt(mkReal(0), x)) ? mkF(INFINITY, w) : mkF(-INFINITY, w);
    }
    return fromR(rDiv(x, y), w);
  }
  }
  incomplete("frem on symbolic values");
}
// decides whether an operation leaves its domain (division by zero, root of a negative number); forks when both are possible
bool Engine::outOfDomain(N bad, const char *note) {
  if (isFalse(bad)) return false;
  if (isTrue(bad)) return true;
  if (inDomain.count(bad)) return false;
  Evaluator ev(cur); auto e = ev.ev(bad);
  if (!(e.ok && e.u)) {
    auto c = slice(pc, {bad}); c.push_back(bad); Res r = solverCheck(c, nullptr, 5);
    if (r == Res::UNSAT) { inDomain.insert(bad); return false; }
    if (r == Res::UNKNOWN) { notes.insert(note); inDomain.insert(bad); return false; }
  }
  if (decide(bad)) return true;
  inDomain.insert(bad); return false;
}
Val Engine::fcmp(int pred, const Val &a, const Val &b) {
  if (pred == CmpInst::FCMP_FALSE) return mkI(0, 1);
  if (pred == CmpInst::FCMP_TRUE) return mkI(1, 1);
  if (fpm && !(a.k == Val::F && b.k == Val::F)) {
    N x = fpB(a), y = fpB(b); N ord = mkAnd(fpEq(x, x), fpEq(y, y));
    switch (pred) {
    case CmpInst::FCMP_ORD: return fromBool(ord); case CmpInst::FCMP_UNO: return fromBool(mkNot(ord));
    case CmpInst::FCMP_OEQ: return fromBool(fpEq(x, y)); case CmpInst::FCMP_UNE: return fromBool(mkNot(fpEq(x, y)));
    case CmpInst::FCMP_ONE: return fromBool(mkAnd(ord, mkNot(fpEq(x, y)))); case CmpInst::FCMP_UEQ: return fromBool(mkOr(mkNot(ord), fpEq(x, y)));
    case CmpInst::FCMP_OLT: return fromBool(fpLt(x, y)); case CmpInst::FCMP_UGE: return fromBool(mkNot(fpLt(x, y)));
    case CmpInst::FCMP_OGT: return fromBool(fpLt(y, x)); case CmpInst::FCMP_ULE: return fromBool(mkNot(fpLt(y, x)));
    case CmpInst::FCMP_OLE: return fromBool(fpLe(x, y)); case CmpInst::FCMP_UGT: return fromBool(mkNot(fpLe(x, y)));
    case CmpInst::FCMP_OGE: return fromBool(fpLe(y, x)); case CmpInst::FCMP_ULT: return fromBool(mkNot(fpLe(y, x)));
    }
  }
  if ((a.k == Val::F && b.k == Val::F) || nonFinite(a) || nonFinite(b)) {
    double x = a.k == Val::F ? fD(a) : 0, y = b.k == Val::F ? fD(b) : 0;
    bool u = std::isnan(x) || std::isnan(y), r = false;
    switch (pred) {
    case CmpInst::FCMP_OEQ: r = !u && x == y; break; case CmpInst::FCMP_UEQ: r = u || x == y; break;
    case CmpInst::FCMP_ONE: r = !u && x != y; break; case CmpInst::FCMP_UNE: r = u || x != y; break;
    case CmpInst::FCMP_OLT: r = !u && x < y; break; case CmpInst::FCMP_ULT: r = u || x < y; break;
    case CmpInst::FCMP_OLE: r = !u && x <= y; break; case CmpInst::FCMP_ULE: r = u || x <= y; break;
    case CmpInst::FCMP_OGT: r = !u && x > y; break; case CmpInst::FCMP_UGT: r = u || x > y; break;
    case CmpInst::FCMP_OGE: r = !u && x >= y; break; case CmpInst::FCMP_UGE: r = u || x >= y; break;
    case CmpInst::FCMP_ORD: r = !u; break; case CmpInst::FCMP_UNO: r = u; break;
    }
    return mkI(r, 1);
  }
  if (pred == CmpInst::FCMP_ORD) return mkI(1, 1);
  if (pred == CmpInst::FCMP_UNO) return mkI(0, 1);
  N x = toR(a), y = toR(b);
  switch (pred) {
  case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return fromBool(rEq(x, y));
  case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return fromBool(mkNot(rEq(x, y)));
  case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return fromBool(rLt(x, y));
  case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return fromBool(rLe(x, y));
  case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return fromBool(rLt(y, x));
  case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return fromBool(rLe(y, x));
  }
  incomplete("fcmp");
}
Val Engine::fun1(const std::string &f, const Val &a, unsigned w) {
  if (a.k == Val::F) {
    double x = fD(a);
    if (f == "fabs") return mkF(std::fabs(x), w);
    if (f == "floor") return mkF(std::floor(x), w);
    if (f == "ceil") return mkF(std::ceil(x), w);
    if (f == "trunc") return mkF(std::trunc(x), w);
    if (f == "round") return mkF(std::round(x), w);
    if (f == "rint" || f == "nearbyint") return mkF(std::nearbyint(x), w);
    if (!std::isfinite(x) || (f == "sqrt" && x < 0) || (f == "log" && x <= 0)) {
      double r = f == "exp" ? std::exp(x) : f == "log" ? std::log(x) : f == "sqrt" ? std::sqrt(x) : f == "tanh" ? std::tanh(x) : NAN;
      return mkF(r, w);
    }
  }
  if (fpm) {
    if (f == "sqrt") return fromFP(fpSqrt(fpB(a)));
    if (f == "fabs") return fromFP(mkBin(Op::BAND, fpB(a), mkBV((1ull << (a.w - 1)) - 1, a.w)));
    if (a.k == Val::F) {
      double x = fD(a); if (w == 32) { float y = (float)x; x = f == "exp" ? expf(y) : f == "log" ? logf(y) : f == "tanh" ? tanhf(y) : f == "expm1" ? expm1f(y) : f == "log1p" ? log1pf(y) : NAN; }
      else x = f == "exp" ? std::exp(x) : f == "log" ? std::log(x) : f == "tanh" ? std::tanh(x) : f == "expm1" ? std::expm1(x) : f == "log1p" ? std::log1p(x) : NAN;
      if (!std::isnan(x)) return mkF(x, w);
    }
    incomplete(f + " of a bit-precise value");
  }
  N x = toR(a);
  if (f == "exp") {
    if (expLimit > 0) {
      Model m; int bud = 4000;
      N neg = rLt(mkReal(mpq_class(expLimit)), x);
      SH->checks++;
      Res r = refute(neg, m, {}, 20, bud);
      if (r == Res::SAT) { if (siteOk("exp" + where())) candidate("overflow", "argument of exp() can exceed " + std::to_string((int)expLimit) + " (overflow to infinity)", {m}); }
      else if (r == Res::UNKNOWN) incomplete("exp bound undecided");
    }
    if (expIeee) {   // the argument decides between overflow, underflow and the ordinary range
      if (decide(rLt(mkReal(mpq_class(w == 64 ? 709 : 88)), x))) return mkF(INFINITY, w);
      if (decide(rLt(x, mkReal(mpq_class(w == 64 ? -746 : -104))))) return mkF(0, w);
    }
    return fromR(rExp(x), w);
  }
  if (f == "exp2") return fromR(rExp(rMul(x, rLog(mkReal(2)))), w);
  if (f == "expm1" && expIeee) { if (decide(rLt(mkReal(88), x))) return mkF(INFINITY, w); if (decide(rLt(x, mkReal(-104)))) return mkF(-1, w); }
  if (f == "expm1") return fromR(rSub(rExp(x), mkReal(1)), w);
  if (f == "log") { if (!rKnownPositive(x) && outOfDomain(rLe(x, mkReal(0)), "some arguments of log are assumed positive")) return decide(rEq(x, mkReal(0))) ? mkF(-INFINITY, w) : mkF(NAN, w); return fromR(rLog(x), w); }
  if (f == "log1p") return fromR(rLog(rAdd(mkReal(1), x)), w);
  if (f == "log2") return fromR(rDiv(rLog(x), rLog(mkReal(2))), w);
  if (f == "log10") return fromR(rDiv(rLog(x), rLog(mkReal(10))), w);
  if (f == "sqrt") { if (!rKnownPositive(x) && outOfDomain(rLt(x, mkReal(0)), "some arguments of sqrt are assumed non-negative")) return mkF(NAN, w); return fromR(rSqrt(x), w); }
  if (f == "tanh" && expIeee) { if (decide(rLt(mkReal(20), x))) return mkF(1, w); if (decide(rLt(x, mkReal(-20)))) return mkF(-1, w); }
  if (f == "tanh") { N e = rExp(rScale(x, 2)); return fromR(rDiv(rSub(e, mkReal(1)), rAdd(e, mkReal(1))), w); }
  if (f == "fabs") return fromR(rIte(rLt(x, mkReal(0)), rNeg(x), x), w);
  return fromR(rUF(f, {x}), w);
}
Val Engine::fpow(const Val &a, const Val &b, unsigned w) {
  if (b.k == Val::F) {
    double e = fD(b);
    if (a.k == Val::F) {
      if (e != std::floor(e) || std::fabs(e) > 64 || !std::isfinite(fD(a)) || fD(a) == 0) {
        if (e == 0.5) return fun1("sqrt", a, w);
        return mkF(std::pow(fD(a), e), w);
      }
      if (std::fabs(e) > 24) return mkF(std::pow(fD(a), e), w);
    }
    if (e == std::floor(e) && std::fabs(e) <= 64) return fromR(rPowInt(toR(a), (long)e), w);
    if (e == 0.5) return fun1("sqrt", a, w);
    if (e == -0.5) return fromR(rInv(rSqrt(toR(a))), w);
    if (e == 1.5) return fromR(rMul(toR(a), rSqrt(toR(a))), w);
  }
  N x = toR(a), y = toR(b);
  // integer-valued exponent with finitely many cases
  auto &t = y->p->t;
  if (t.size() == 1 && t[0].c == 1 && t[0].m.f.size() == 1 && t[0].m.f[0].second == 1 && t[0].m.f[0].first->op == Op::RITE) {
    N r = t[0].m.f[0].first;
    return iteVal(r->k[0], fpow(a, fromR(r->k[1], w), w), fpow(a, fromR(r->k[2], w), w));
  }
  return fromR(rUF("pow", {x, y}), w);
}
Val Engine::castV(unsigned op, const Val &v, Type *from, Type *to) {
  if (v.k == Val::AGG) {
    auto *ft = dyn_cast<FixedVectorType>(from), *tt = dyn_cast<FixedVectorType>(to);
    if (ft && tt && ft->getNumElements() == tt->getNumElements()) {
      std::vector<Val> e; for (auto &x : *v.a) e.push_back(castV(op, x, ft->getElementType(), tt->getElementType()));
      return mkAgg(e);
    }
    if (op == Instruction::BitCast) {   // vector -> scalar / other vector
      std::vector<Val> ps; for (auto &x : *v.a) ps.push_back(x.k == Val::SF ? bits(x, 0, x.w) : x.k == Val::F ? mkI(x.u, x.w) : x);
      Val j = joinParts(ps);
      if (!tt) { if (to->isFloatingPointTy()) return castV(op, j, Type::getIntNTy(to->getContext(), j.w), to); return j; }
      std::vector<Val> e; unsigned ew = (unsigned)DL->getTypeSizeInBits(tt->getElementType());
      for (unsigned i = 0; i < tt->getNumElements(); i++) { Val p = bits(j, i * ew, ew); e.push_back(tt->getElementType()->isFloatingPointTy() ? castV(op, p, Type::getIntNTy(to->getContext(), ew), tt->getElementType()) : p); }
      return mkAgg(e);
    }
    incomplete("aggregate cast");
  }
  unsigned w = to->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(to).getFixedValue();
  switch (op) {
  case Instruction::Trunc:
    if (v.k == Val::I) return mkI(v.u, w);
    return bits(v, 0, w);
  case Instruction::ZExt:
    if (v.k == Val::I && w <= 64) return mkI(v.u, w);
    if (v.k == Val::PARTS || w > 64) { std::vector<Val> p{v}; unsigned n = w - v.w; while (n) { unsigned k = std::min(n, 64u); p.push_back(mkI(0, k)); n -= k; }
      if (v.k == Val::SI && v.w == 1) p[0] = fromBV(boolToBV(v.n, 1)); return joinParts(p); }
    return v.w == 1 ? fromBV(boolToBV(toBool(v), w)) : fromBV(mkZext(toBV(v), w));
  case Instruction::SExt:
    if (v.k == Val::I && w <= 64) return mkI((uint64_t)sx(v.u, v.w), w);
    if (w > 64) { if (v.k == Val::I) return from128((unsigned __int128)(__int128)sx(v.u, v.w), w); incomplete("wide sext"); }
    return v.w == 1 ? fromBV(mkIte(toBool(v), mkBV(~0ull, w), mkBV(0, w))) : fromBV(mkSext(toBV(v), w));
  case Instruction::PtrToInt: case Instruction::IntToPtr:
    if (v.k == Val::I) return mkI(v.u, w);
    if (v.w == w) return v;
    return v.w > w ? bits(v, 0, w) : fromBV(mkZext(toBV(v), w));
  case Instruction::BitCast: {
    bool ff = from->isFloatingPointTy(), tf = to->isFloatingPointTy();
    if (auto *tt = dyn_cast<FixedVectorType>(to)) {
      Val iv = ff ? bits(v, 0, v.w) : v;
      std::vector<Val> e; unsigned ew = (unsigned)DL->getTypeSizeInBits(tt->getElementType());
      for (unsigned i = 0; i < tt->getNumElements(); i++) { Val p = bits(iv, i * ew, ew); e.push_back(tt->getElementType()->isFloatingPointTy() ? castV(op, p, Type::getIntNTy(to->getContext(), ew), tt->getElementType()) : p); }
      return mkAgg(e);
    }
    if (ff == tf) return v;
    if (ff) { if (v.k == Val::F) return mkI(v.u, w); return bits(v, 0, w); }
    if (v.k == Val::I) { Val r = v; r.k = Val::F; return r; }
    if (fpm) return v;
    return fromR(toR(v), w);
  }
  case Instruction::FPExt:
    if (fpm) return fromFP(fpCvt(fpB(v), w));
    if (v.k == Val::F) return mkF(fD(v), w);
    { Val r = v; r.w = (uint16_t)w; return r; }
  case Instruction::FPTrunc:
    if (fpm) return fromFP(fpCvt(fpB(v), w));
    if (v.k == Val::F) { double d = fD(v); if (!std::isfinite(d) || (double)(float)d == d) return mkF(d, w); return fromR(mkRealD(d), w); }
    return fromR(v.n, w);
  case Instruction::SIToFP: case Instruction::UIToFP: {
    bool s = op == Instruction::SIToFP;
    if (fpm) return fromFP(fpOfInt(v.k == Val::I ? mkBV(v.u, v.w) : toBV(v), w, s));
    if (v.k == Val::I) {
      mpq_class q; if (s) q = (long)sx(v.u, v.w); else q = (unsigned long)v.u;
      return fromR(mkReal(q), w);
    }
    if (v.w == 1) return fromR(rIte(toBool(v), mkReal(s ? -1 : 1), mkReal(0)), w);
    return fromR(s ? siToR(toBV(v)) : uiToR(toBV(v)), w);
  }
  case Instruction::FPToSI: case Instruction::FPToUI: {
    if (fpm && v.k != Val::F) return fromBV(fpToSI(fpB(v), w));
    if (v.k == Val::F) {
      double d = fD(v);
      if (!std::isfinite(d) || std::fabs(d) > 9.3e18) return mkI(1ull << (w - 1), w);
      if (op == Instruction::FPToUI && d >= 9.2e18) return mkI((uint64_t)d, w);
      return mkI((uint64_t)(int64_t)d, w);
    }
    return fromBV(rToSI(toR(v), w));
  }
  case Instruction::AddrSpaceCast: return v;
  }
  incomplete("cast");
}

// ------------------------------------------------------------------ memory
uint64_t Engine::alloc(uint64_t size, Obj::Kind k, const std::string &name) {
  if (size > (1ull << 31)) { size = 0; }
  Obj *o = new Obj();
  o->base = ((uint64_t)objs.size() << 40) + 0x1000; o->size = size; o->kind = k; o->name = name;
  o->data.resize(size); o->mask.resize(size);
  objs.push_back(o);
  if (k == Obj::HEAP) heapLive++;
  return o->base;
}
Obj *Engine::access(uint64_t addr, uint64_t n, bool write, const char *what) {
  Obj *o = objOf(addr);
  if (!o) {
    violationHere("memory", std::string(what) + (addr < 65536 ? " through a null pointer" : " through a wild pointer"));
    throw Stop();
  }
  if (o->symSize) {
    // concretise the size of an allocation on first access
    uint64_t sz = concretize(fromBV(o->symSize), "allocation size", 64);
    o->symSize = nullptr; o->size = sz > (1u << 30) ? (1u << 30) : sz; o->data.resize(o->size); o->mask.resize(o->size);
  }
  if (!o->alive) { violationHere("memory", std::string(what) + (o->kind == Obj::STACK ? " of a dead stack object" : " after free")); throw Stop(); }
  uint64_t off = addr - o->base;
  if (addr < o->base || off + n > o->size) {
    char b[160]; snprintf(b, sizeof b, "%s of %llu bytes at offset %lld of a %llu-byte %s object %s", what, (unsigned long long)n, (long long)(int64_t)off, (unsigned long long)o->size,
      o->kind == Obj::HEAP ? "heap" : o->kind == Obj::STACK ? "stack" : "global", o->kind == Obj::GLOBAL ? o->name.c_str() : "");
    violationHere("memory", b);
    throw Stop();
  }
  if (write && o->ro) { violationHere("memory", "write to constant " + o->name); throw Stop(); }
  if (race && raceThread >= 0 && !o->tls) raceAccess(addr, n, write);
  return o;
}
void Engine::raceAccess(uint64_t addr, uint64_t n, bool write) {
  if ((addr >> 40) >= raceBaseObj) return;
  int me = raceThread | raceEpoch << 8;   // a barrier orders what lies before it with what lies after it
  auto clash = [&](int o) { return o == -2 - raceEpoch || (o >= 0 && (o >> 8) == raceEpoch && o != me); };
  for (uint64_t a = addr; a < addr + n; a++) {
    auto w = rW.find(a);
    if (w != rW.end() && clash(w->second) && raceMsg.empty()) raceMsg = std::string("two threads of a parallel loop access the same memory, one of them writing (") + objOf(addr)->name + ")";
    auto r = rR.find(a);
    if (write) { if (r != rR.end() && clash(r->second) && raceMsg.empty()) raceMsg = "a thread of a parallel loop writes memory that another one reads"; rW[a] = me; }
    else if (r == rR.end()) rR[a] = me;
    else if (clash(r->second)) r->second = -2 - raceEpoch;
    else r->second = me;
  }
}
void Engine::clearCells(Obj *o, uint64_t off, uint64_t n) {
  // break cells that straddle the boundaries of [off, off+n) and drop the ones inside
  auto brk = [&](uint64_t pos) {
    if (pos >= o->size || o->mask[pos] != 3) return;
    uint64_t s = pos; while (o->mask[s] == 3) s--;
    Cell c = o->cells[(uint32_t)s];
    o->cells.erase((uint32_t)s);
    for (uint64_t i = 0; i < c.size; i++) {
      Val b = bits(c.v.k == Val::SF ? bits(c.v, 0, c.v.w) : c.v, (unsigned)i * 8, 8);
      if (b.k == Val::I) { o->mask[s + i] = 1; o->data[s + i] = (uint8_t)b.u; }
      else { o->mask[s + i] = 2; o->cells[(uint32_t)(s + i)] = Cell{b, 1}; }
    }
  };
  if (o->cells.empty()) return;
  brk(off); if (off + n < o->size) brk(off + n);
  for (uint64_t i = off; i < off + n; i++) if (o->mask[i] == 2) o->cells.erase((uint32_t)i);
}
void Engine::writeBytes(uint64_t addr, const uint8_t *p, uint64_t n) {
  Obj *o = access(addr, n, true, "write");
  uint64_t off = addr - o->base;
  clearCells(o, off, n);
  memcpy(&o->data[off], p, n); memset(&o->mask[off], 1, n);
}
void Engine::storeS(uint64_t addr, const Val &v) {
  if (v.k == Val::PARTS) {
    unsigned o = 0; for (auto &p : *v.a) { if (p.w % 8) { storeS(addr + o, fromBV(mkZext(toBV(p), (p.w + 7) / 8 * 8))); } else storeS(addr + o, p); o += (p.w + 7) / 8; }
    return;
  }
  unsigned n = (v.w + 7) / 8;
  if (v.k == Val::I || v.k == Val::F) { writeBytes(addr, (const uint8_t *)&v.u, n); return; }
  Obj *o = access(addr, n, true, "write");
  uint64_t off = addr - o->base;
  clearCells(o, off, n);
  Val c = v;
  if (v.k == Val::SI && v.w % 8) c = fromBV(mkZext(v.n->sort == S::BOOL ? boolToBV(v.n, 1) : v.n, n * 8));
  o->cells[(uint32_t)off] = Cell{c, n};
  o->mask[off] = 2; for (unsigned i = 1; i < n; i++) o->mask[off + i] = 3;
}
N Engine::fresh(const std::string &base, unsigned w) {
  std::string nm = base + "!" + std::to_string(freshCnt[base]++);
  return w == 0 ? mkRVar(nm) : mkBVVar(nm, w);
}
Val Engine::freshVal(const std::string &base, int tk, unsigned w) {
  if (tk == 2) return fromR(fresh(base, 0), w);
  N n = fresh(base, (w + 7) / 8 * 8);
  if (w % 8) n = mkExtract(n, 0, w);
  if (w == 1) return fromBool(mkEq(n, mkBV(1, 1)));
  return fromBV(n);
}
Val Engine::loadS(uint64_t addr, int tk, unsigned w) {
  unsigned n = (w + 7) / 8;
  Obj *o = access(addr, n, false, "read");
  uint64_t off = addr - o->base;
  const uint8_t *mk = &o->mask[off];
  bool conc = true, un = true;
  for (unsigned i = 0; i < n; i++) { if (mk[i] != 1) conc = false; if (mk[i] != 0) un = false; }
  if (conc && n <= 8) {
    uint64_t u = 0; memcpy(&u, &o->data[off], n);
    if (tk == 2) { Val v; v.k = Val::F; v.w = (uint16_t)w; v.u = u; return v; }
    return mkI(u, w);
  }
  if (un && n <= 8) {   // uninitialised: an arbitrary but fixed value
    Val v = freshVal("uninit", tk, w);
    storeS(addr, v);
    return v;
  }
  if (mk[0] == 2) {
    Cell &c = o->cells[(uint32_t)off];
    if (c.size == n) {
      if (tk == 2 && fpm) return fromFP(fpB(c.v));
      if (tk == 2) { if (c.v.k == Val::SF) { Val r = c.v; r.w = (uint16_t)w; return r; } return fromR(toR(c.v), w); }
      if (c.v.k == Val::SF) return bits(c.v, 0, w);
      if (c.v.k == Val::SI && w % 8) { N e = mkExtract(c.v.n, 0, w); return w == 1 ? fromBool(mkEq(e, mkBV(1, 1))) : fromBV(e); }
      return c.v;
    }
  }
  // mixed pieces
  std::vector<Val> ps;
  uint64_t i = off, end = off + n;
  while (i < end) {
    uint8_t m = o->mask[i];
    if (m == 1) { uint64_t j = i; uint64_t u = 0; while (j < end && o->mask[j] == 1 && j - i < 8) { u |= (uint64_t)o->data[j] << (8 * (j - i)); j++; } ps.push_back(mkI(u, (unsigned)(j - i) * 8)); i = j; }
    else if (m == 0) { Val b = freshVal("uninit", 1, 8); storeS(o->base + i, b); ps.push_back(b); i++; }
    else {
      uint64_t s = i; while (o->mask[s] == 3) s--;
      Cell c = o->cells[(uint32_t)s];
      uint64_t e = std::min(end, s + c.size);
      Val src = c.v.k == Val::SF ? bits(c.v, 0, c.v.w) : c.v;
      ps.push_back(bits(src, (unsigned)(i - s) * 8, (unsigned)(e - i) * 8));
      i = e;
    }
  }
  Val j = joinParts(ps);
  if (tk == 2) { if (j.k == Val::I) { Val v; v.k = Val::F; v.w = (uint16_t)w; v.u = j.u; return v; } if (fpm) return j; return fromR(toR(j), w); }
  if (w % 8) return bits(j, 0, w);
  return j;
}
Val Engine::loadT(uint64_t addr, Type *T) {
  if (T->isIntegerTy()) return loadS(addr, 1, T->getIntegerBitWidth());
  if (T->isPointerTy()) return loadS(addr, 3, 64);
  if (T->isFloatTy() || T->isDoubleTy()) return loadS(addr, 2, T->isFloatTy() ? 32 : 64);
  std::vector<Val> e;
  if (auto *s = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) e.push_back(loadT(addr + L->getElementOffset(i), s->getElementType(i))); return mkAgg(e); }
  if (auto *a = dyn_cast<ArrayType>(T)) { uint64_t sz = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) e.push_back(loadT(addr + i * sz, a->getElementType())); return mkAgg(e); }
  if (auto *a = dyn_cast<FixedVectorType>(T)) { uint64_t sz = DL->getTypeStoreSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) e.push_back(loadT(addr + i * sz, a->getElementType())); return mkAgg(e); }
  incomplete("load of unsupported type");
}
void Engine::storeT(uint64_t addr, const Val &v, Type *T) {
  if (v.k == Val::AGG) {
    if (auto *s = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) storeT(addr + L->getElementOffset(i), (*v.a)[i], s->getElementType(i)); return; }
    if (auto *a = dyn_cast<ArrayType>(T)) { uint64_t sz = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) storeT(addr + i * sz, (*v.a)[i], a->getElementType()); return; }
    if (auto *a = dyn_cast<FixedVectorType>(T)) { uint64_t sz = DL->getTypeStoreSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) storeT(addr + i * sz, (*v.a)[i], a->getElementType()); return; }
    incomplete("store of unsupported type");
  }
  if (v.k == Val::NONE) return;   // undef
  storeS(addr, v);
}
std::vector<std::pair<N, uint64_t>> Engine::resolve(const Val &addr, uint64_t n) {
  N a = toBV(addr);
  std::vector<uint64_t> cand; std::vector<std::pair<N, uint64_t>> out;
  if (!constLeaves(a, cand, 600)) {
    cand.clear();
    std::vector<N> conj = slice(pc, {a});
    for (int i = 0; i < 300; i++) {
      Model m; Res r = solverCheck(conj, &m, 20);
      if (r == Res::UNSAT) break;
      if (r == Res::UNKNOWN || i == 299) incomplete("address enumeration");
      Evaluator ev(m, true); auto e = ev.ev(a);
      if (!e.ok) incomplete("address evaluation");
      cand.push_back(e.u);
      conj.push_back(mkNot(mkEq(a, mkBV(e.u, 64))));
    }
  }
  for (auto c : cand) {
    N eq = mkEq(a, mkBV(c, 64));
    if (isFalse(eq)) continue;
    Obj *o = objOf(c);
    bool bad = !o || !o->alive || c < o->base || (!o->symSize && c - o->base + n > o->size);
    if (bad) {
      if (decide(eq)) { access(c, n, false, "access"); throw Stop(); }
      continue;
    }
    out.push_back({eq, c});
  }
  if (out.empty()) throw Stop();
  return out;
}
Val Engine::loadSym(const Val &addr, Type *T) {
  uint64_t n = DL->getTypeStoreSize(T);
  auto rs = resolve(addr, n);
  Val r; bool first = true;
  for (auto &p : rs) { Val v = loadT(p.second, T); if (first) { r = v; first = false; } else r = iteVal(p.first, v, r); }
  return r;
}
void Engine::storeSym(const Val &addr, const Val &v, Type *T) {
  uint64_t n = DL->getTypeStoreSize(T);
  auto rs = resolve(addr, n);
  for (auto &p : rs) { Val o = loadT(p.second, T); storeT(p.second, iteVal(p.first, v, o), T); }
}
void Engine::copyMem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  Obj *so = access(s, n, false, "read (memcpy)");
  Obj *dp = access(d, n, true, "write (memcpy)");
  uint64_t a = s - so->base, b = d - dp->base;
  if (d == s) return;
  // cells straddling the source range are broken into bytes first
  if (!so->cells.empty()) {
    auto brk = [&](uint64_t pos) { if (pos < so->size && so->mask[pos] == 3) { uint64_t st = pos; while (so->mask[st] == 3) st--; Cell c = so->cells[(uint32_t)st]; so->cells.erase((uint32_t)st);
      for (uint64_t i = 0; i < c.size; i++) { Val x = bits(c.v.k == Val::SF ? bits(c.v, 0, c.v.w) : c.v, (unsigned)i * 8, 8); if (x.k == Val::I) { so->mask[st + i] = 1; so->data[st + i] = (uint8_t)x.u; } else { so->mask[st + i] = 2; so->cells[(uint32_t)(st + i)] = Cell{x, 1}; } } } };
    brk(a); brk(a + n);
  }
  std::vector<uint8_t> da(so->data.begin() + a, so->data.begin() + a + n), ma(so->mask.begin() + a, so->mask.begin() + a + n);
  std::vector<std::pair<uint32_t, Cell>> cs;
  if (!so->cells.empty()) for (uint64_t i = 0; i < n; i++) if (ma[i] == 2) cs.push_back({(uint32_t)i, so->cells[(uint32_t)(a + i)]});
  clearCells(dp, b, n);
  memcpy(&dp->data[b], da.data(), n); memcpy(&dp->mask[b], ma.data(), n);
  for (auto &c : cs) dp->cells[(uint32_t)(b + c.first)] = c.second;
}
void Engine::setMem(uint64_t d, const Val &b, uint64_t n) {
  if (!n) return;
  if (b.k == Val::I) {
    Obj *o = access(d, n, true, "write (memset)"); uint64_t off = d - o->base;
    clearCells(o, off, n); memset(&o->data[off], (int)b.u, n); memset(&o->mask[off], 1, n);
  } else for (uint64_t i = 0; i < n; i++) storeS(d + i, b);
}
void Engine::freeObj(uint64_t p, int akind, const char *what) {
  if (!p) return;
  Obj *o = objOf(p);
  if (!o || o->kind != Obj::HEAP || p != o->base) { violationHere("memory", std::string(what) + " of a pointer that was not allocated"); throw Stop(); }
  if (!o->alive) { violationHere("memory", std::string("double ") + what); throw Stop(); }
  if (o->akind != akind) { violationHere("memory", std::string(what) + " does not match the allocation function"); throw Stop(); }
  o->alive = false; heapLive--;
  std::vector<uint8_t>().swap(o->data); std::vector<uint8_t>().swap(o->mask); o->cells.clear();
}
std::string Engine::cstr(uint64_t p) {
  std::string s;
  for (;;) { Val b = loadS(p++, 1, 8); uint64_t c = conc(b, "string byte"); if (!c) return s; s += (char)c; if (s.size() > 100000) incomplete("unterminated string"); }
}

// ------------------------------------------------------------------ constants and globals
Val Engine::constVal(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) {
    unsigned w = i->getBitWidth();
    if (w <= 64) return mkI(i->getZExtValue(), w);
    unsigned __int128 x = i->getValue().extractBitsAsZExtValue(64, 0); x |= (unsigned __int128)i->getValue().extractBitsAsZExtValue(w - 64, 64) << 64;
    return from128(x, w);
  }
  if (auto *f = dyn_cast<ConstantFP>(c)) {
    Type *T = f->getType();
    if (T->isFloatTy()) return mkF(f->getValueAPF().convertToFloat(), 32);
    if (T->isDoubleTy()) return mkF(f->getValueAPF().convertToDouble(), 64);
    bool li; APFloat a = f->getValueAPF(); a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return mkF(a.convertToDouble(), 64);
  }
  if (isa<ConstantPointerNull>(c)) return mkI(0, 64);
  if (auto *g = dyn_cast<GlobalValue>(c)) {
    if (auto *al = dyn_cast<GlobalAlias>(g)) return constVal(al->getAliasee());
    auto it = gaddr.find(g); if (it == gaddr.end()) return mkI(0, 64); return mkI(it->second, 64);
  }
  Type *T = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    if (T->isIntegerTy()) { if (T->getIntegerBitWidth() > 64) return from128(0, T->getIntegerBitWidth()); return mkI(0, T->getIntegerBitWidth()); }
    if (T->isPointerTy()) return mkI(0, 64);
    if (T->isFloatTy()) return mkF(0, 32);
    if (T->isFloatingPointTy()) return mkF(0, 64);
    std::vector<Val> e;
    if (auto *s = dyn_cast<StructType>(T)) { for (auto *x : s->elements()) e.push_back(constVal(isa<UndefValue>(c) ? (Constant *)UndefValue::get(x) : Constant::getNullValue(x))); return mkAgg(e); }
    uint64_t n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    Type *E = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
    Val z = constVal(isa<UndefValue>(c) ? (Constant *)UndefValue::get(E) : Constant::getNullValue(E));
    for (uint64_t i = 0; i < n; i++) e.push_back(z);
    return mkAgg(e);
  }
  if (auto *s = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> e; for (unsigned i = 0; i < s->getNumElements(); i++) e.push_back(constVal(s->getElementAsConstant(i))); return mkAgg(e); }
  if (auto *s = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> e; for (unsigned i = 0; i < s->getNumOperands(); i++) e.push_back(constVal(s->getOperand(i))); return mkAgg(e); }
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0); cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off);
      return mkI(constVal(e->getOperand(0)).u + off.getZExtValue(), 64);
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: {
      return castV(e->getOpcode(), constVal(e->getOperand(0)), e->getOperand(0)->getType(), e->getType());
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Xor: case Instruction::Shl:
      return intBin(e->getOpcode(), constVal(e->getOperand(0)), constVal(e->getOperand(1)), e->getType()->getIntegerBitWidth());
    case Instruction::ICmp: return icmp(e->getPredicate(), constVal(e->getOperand(0)), constVal(e->getOperand(1)));
    }
  }
  if (isa<DSOLocalEquivalent>(c) || isa<NoCFIValue>(c)) return mkI(0, 64);
  std::string s; raw_string_ostream os(s); c->print(os); incomplete("constant " + s.substr(0, 120));
}
void Engine::initGlobal(uint64_t addr, const Constant *c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { setMem(addr, mkI(0, 8), DL->getTypeStoreSize(c->getType())); return; }
  if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *L = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initGlobal(addr + L->getElementOffset(i), s->getOperand(i)); return; }
  if (auto *a = dyn_cast<ConstantArray>(c)) { uint64_t sz = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initGlobal(addr + i * sz, a->getOperand(i)); return; }
  if (auto *s = dyn_cast<ConstantDataSequential>(c)) { StringRef r = s->getRawDataValues(); writeBytes(addr, (const uint8_t *)r.data(), r.size()); return; }
  storeT(addr, constVal(c), c->getType());
}
void Engine::init(Module *m) {
  M = m; DL = &m->getDataLayout();
  objs.push_back(nullptr);
  int ix = 0;
  for (auto &F : *M) { fnIx[&F] = ix++; uint64_t a = alloc(1, Obj::FUNC, F.getName().str()); objOf(a)->fn = &F; gaddr[&F] = a; }
  for (auto &G : M->globals()) {
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 0;
    if (!G.hasInitializer() && sz < 64) sz = 64;
    gaddr[&G] = alloc(sz, Obj::GLOBAL, G.getName().str());
  }
  for (auto &G : M->globals()) {
    Obj *o = objOf(gaddr[&G]);
    setMem(o->base, mkI(0, 8), o->size);
    if (G.hasInitializer()) initGlobal(o->base, G.getInitializer());
    if (G.getName() == "__libc_single_threaded") { uint8_t one = 1; writeBytes(o->base, &one, 1); }
    o->tls = G.isThreadLocal();
    o->ro = G.isConstant() && G.hasInitializer();
  }
}

// ------------------------------------------------------------------ decoding
FnInfo *Engine::info(Function *F) {
  auto it = fninfo.find(F);
  if (it != fninfo.end()) return it->second;
  FnInfo *fi = new FnInfo(); fi->F = F;
  fninfo[F] = fi;
  int n = 0;
  for (auto &A : F->args()) fi->slot[&A] = n++;
  int bi = 0;
  for (auto &B : *F) { fi->bix[&B] = bi++; for (auto &I : B) if (!I.getType()->isVoidTy()) fi->slot[&I] = n++; }
  fi->nregs = n;
  std::unordered_map<const Value *, int> cs;
  auto opd = [&](Value *v) -> int32_t {
    auto s = fi->slot.find(v); if (s != fi->slot.end()) return s->second;
    auto k = cs.find(v); if (k != cs.end()) return k->second;
    Val c;
    if (auto *cc = dyn_cast<Constant>(v)) c = constVal(cc);
    fi->consts.push_back(c);
    int id = -(int)fi->consts.size();
    cs[v] = id;
    return id;
  };
  if (auto *sp = F->getSubprogram()) { auto fn = sp->getFile() ? (sp->getFile()->getDirectory() + "/" + sp->getFilename()).str() : ""; if (sp->getFilename().starts_with("/repo/") || fn.find("/repo/") == 0) fi->repo = true; }
  for (auto &B : *F) {
    DBlock db; db.bb = &B;
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
        switch (ii->getIntrinsicID()) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::var_annotation: continue; default: break; }
      }
      DInst d; d.I = &I; d.op = I.getOpcode();
      d.dst = I.getType()->isVoidTy() ? -1 : fi->slot[&I];
      Type *T = I.getType();
      if (T->isIntegerTy()) { d.tk = 1; d.tw = (uint16_t)T->getIntegerBitWidth(); } else if (T->isFloatTy()) { d.tk = 2; d.tw = 32; } else if (T->isDoubleTy()) { d.tk = 2; d.tw = 64; } else if (T->isPointerTy()) { d.tk = 3; d.tw = 64; }
      if (auto *phi = dyn_cast<PHINode>(&I)) {
        db.nphi++; std::unordered_map<int, int32_t> m;
        for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) m[fi->bix[phi->getIncomingBlock(i)]] = opd(phi->getIncomingValue(i));
        db.phiIn.push_back(m);
      } else if (auto *cb = dyn_cast<CallBase>(&I)) {
        for (auto &a : cb->args()) d.ops.push_back(isa<MetadataAsValue>(a.get()) ? opd(ConstantInt::get(Type::getInt64Ty(F->getContext()), 0)) : opd(a.get()));
        d.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
        if (!d.callee) d.ops.push_back(opd(cb->getCalledOperand()));
        if (auto *iv = dyn_cast<InvokeInst>(&I)) { d.b0 = fi->bix[iv->getNormalDest()]; d.b1 = fi->bix[iv->getUnwindDest()]; }
      } else if (auto *br = dyn_cast<BranchInst>(&I)) {
        d.b0 = fi->bix[br->getSuccessor(0)];
        if (br->isConditional()) { d.ops.push_back(opd(br->getCondition())); d.b1 = fi->bix[br->getSuccessor(1)]; }
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        d.ops.push_back(opd(g->getPointerOperand()));
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          Value *ix = gi.getOperand();
          if (auto *stt = gi.getStructTypeOrNull()) d.coff += (int64_t)DL->getStructLayout(stt)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue());
          else {
            uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) d.coff += ci->getSExtValue() * (int64_t)sz;
            else d.gidx.push_back({opd(ix), sz});
          }
        }
      } else if (auto *sw = dyn_cast<SwitchInst>(&I)) { d.ops.push_back(opd(sw->getCondition())); }
      else if (isa<LandingPadInst>(&I)) { }
      else for (auto &o : I.operands()) if (!isa<BasicBlock>(o.get())) d.ops.push_back(opd(o.get()));
      db.ins.push_back(std::move(d));
    }
    fi->blocks.push_back(std::move(db));
  }
  return fi;
}

// ------------------------------------------------------------------ execution
void Engine::pushCall(Function *F, std::vector<Val> args, int dst, const DInst *ci) {
  if (st.size() > 3000) { violationHere("stack", "unbounded recursion"); throw Stop(); }
  FnInfo *fi = info(F);
  int ix = fnIx[F]; if (ix < 65536) SH->fn[ix].store(1, std::memory_order_relaxed);
  st.emplace_back();
  Frame &f = st.back();
  f.fi = fi; f.regs.resize((size_t)fi->nregs); f.retDst = dst; f.callInst = ci;
  size_t na = F->arg_size();
  for (size_t i = 0; i < args.size(); i++) {
    if (i < na) {
      if (F->hasParamAttribute((unsigned)i, Attribute::ByVal)) {
        Type *T = F->getParamByValType((unsigned)i); uint64_t sz = DL->getTypeAllocSize(T);
        uint64_t c = alloc(sz, Obj::STACK, "byval"); copyMem(c, conc(args[i], "byval"), sz); f.allocas.push_back(c);
        f.regs[i] = mkI(c, 64);
      } else f.regs[i] = args[i];
    } else f.varargs.push_back(args[i]);
  }
}
void Engine::popFrame() {
  Frame &f = st.back();
  for (auto a : f.allocas) { Obj *o = objOf(a); o->alive = false; std::vector<uint8_t>().swap(o->data); std::vector<uint8_t>().swap(o->mask); o->cells.clear(); }
  st.pop_back();
}
void Engine::doReturn(const Val &v) {
  int dst = st.back().retDst; const DInst *ci = st.back().callInst;
  popFrame();
  if (st.empty()) return;
  Frame &c = st.back();
  if (dst >= 0) c.regs[(size_t)dst] = v;
  if (ci && ci->op == Instruction::Invoke) jump(c, ci->b0);
}
void Engine::jump(Frame &f, int to) {
  int from = f.bb;
  DBlock &b = f.fi->blocks[(size_t)to];
  if (b.nphi) {
    std::vector<Val> tmp(b.nphi);
    for (unsigned i = 0; i < b.nphi; i++) { int32_t o = b.phiIn[i][from]; tmp[i] = o >= 0 ? f.regs[(size_t)o] : f.fi->consts[(size_t)(-o - 1)]; }
    for (unsigned i = 0; i < b.nphi; i++) f.regs[(size_t)b.ins[i].dst] = std::move(tmp[i]);
  }
  f.prev = from; f.bb = to; f.ip = b.nphi;
}
void Engine::loop(size_t base) {
  while (st.size() > base) {
    Frame &f = st.back();
    const DInst &d = f.fi->blocks[(size_t)f.bb].ins[f.ip++];
    if (((++icount) & 4095) == 0) {
      SH->instrs += icount - icflush; icflush = icount;
      if (SH->stop.load()) throw Stop();
      if (nowS() > g_deadline) incomplete("time budget exhausted");
      if (icount > maxInstr) incomplete("instruction budget exhausted");
    }
    step(f, d);
  }
}
Val Engine::callSync(Function *F, std::vector<Val> args) {
  size_t base = st.size();
  pushCall(F, std::move(args), -1, nullptr);
  // return value is dropped: entry points, constructors and OpenMP bodies return void
  loop(base);
  return Val();
}
// A branch whose sides are short, straight-line, free of calls and only compute (and perhaps store) floats is taken both ways
// at once: the results become if-then-else terms.  Anything that could fail or fork on one side makes this refuse.
bool Engine::merge(Frame &f, const DInst &d, N cond) {
  if (isTrue(cond) || isFalse(cond) || race) return false;
  auto side = [&](int b, int &join) -> bool {   // straight-line block with one predecessor
    DBlock &k = f.fi->blocks[(size_t)b];
    if (k.nphi || k.ins.size() > 24 || !k.bb->getSinglePredecessor()) return false;
    auto *t = dyn_cast<BranchInst>(k.bb->getTerminator());
    if (!t || t->isConditional()) return false;
    join = k.ins.back().b0; return true;
  };
  int j0 = -1, j1 = -1; bool s0 = side(d.b0, j0), s1 = side(d.b1, j1); int join, side0 = -1, side1 = -1;
  if (d.b0 == d.b1) return false;
  if (s0 && j0 == d.b1) { join = j0; side0 = d.b0; }
  else if (s1 && j1 == d.b0) { join = j1; side1 = d.b1; }
  else if (s0 && s1 && j0 == j1) { join = j0; side0 = d.b0; side1 = d.b1; }
  else return false;
  if (join == f.bb) return false;
  typedef std::map<uint64_t, std::pair<Val, Type *>> Writes;
  Writes w[2];
  auto okAddr = [&](uint64_t a, uint64_t n, bool init) { Obj *o = objOf(a); if (!o || !o->alive || o->symSize || a < o->base || a - o->base + n > o->size) return false; if (init) for (uint64_t i = 0; i < n; i++) if (!o->mask[a - o->base + i]) return false; return true; };
  auto run = [&](int b, Writes &w) -> bool {
    DBlock &k = f.fi->blocks[(size_t)b];
    for (auto &i : k.ins) {
      auto op = [&](size_t x) -> const Val & { int32_t o = i.ops[x]; return o >= 0 ? f.regs[(size_t)o] : f.fi->consts[(size_t)(-o - 1)]; };
      auto fin = [&](const Val &v) { return v.k == Val::SF || (v.k == Val::F && !nonFinite(v)); };
      switch (i.op) {
      case Instruction::Br: return true;
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Shl: if (op(0).k != Val::I || op(1).k != Val::I) return false; step(f, i); break;
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: if (op(0).k != Val::I) return false; step(f, i); break;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: if (!fin(op(0)) || !fin(op(1))) return false; step(f, i); break;
      case Instruction::FDiv: if (!fin(op(0)) || !fin(op(1)) || rIsConst(toR(op(1)))) { if (!(fin(op(0)) && op(1).k == Val::F && fin(op(1)) && fD(op(1)) != 0)) return false; } step(f, i); break;
      case Instruction::FNeg: case Instruction::FPExt: case Instruction::FPTrunc: if (!fin(op(0))) return false; step(f, i); break;
      case Instruction::GetElementPtr: { if (op(0).k != Val::I) return false; for (auto &g : i.gidx) { const Val &x = g.first >= 0 ? f.regs[(size_t)g.first] : f.fi->consts[(size_t)(-g.first - 1)]; if (x.k != Val::I) return false; } step(f, i); break; }
      case Instruction::Load: { struct Quiet { int &t; int s; Quiet(int &x, bool q) : t(x), s(x) { if (q) x = -1; } ~Quiet() { t = s; } } quiet(raceThread, race && cast<LoadInst>(d.I)->isAtomic());
        uint64_t n = DL->getTypeStoreSize(i.I->getType());
        if (op(0).k != Val::I || !i.tk || !okAddr(op(0).u, n, true)) return false;
        bool hit = false;
        for (auto &q : w) { uint64_t m = DL->getTypeStoreSize(q.second.second); if (q.first < op(0).u + n && op(0).u < q.first + m) { if (q.first != op(0).u || q.second.second != i.I->getType()) return false; f.regs[(size_t)i.dst] = q.second.first; hit = true; break; } }
        if (!hit) step(f, i);
        break; }
      case Instruction::Store: {
        Type *T = i.I->getOperand(0)->getType();
        if (!T->isFloatingPointTy() || op(1).k != Val::I || !okAddr(op(1).u, DL->getTypeStoreSize(T), true) || objOf(op(1).u)->ro || !fin(op(0))) return false;
        for (auto &q : w) { uint64_t m = DL->getTypeStoreSize(q.second.second), n = DL->getTypeStoreSize(T); if (q.first != op(1).u && q.first < op(1).u + n && op(1).u < q.first + m) return false; }
        w[op(1).u] = {op(0), T}; break; }
      case Instruction::FCmp: if (!fin(op(0)) || !fin(op(1))) return false; step(f, i); break;
      case Instruction::And: case Instruction::Or: case Instruction::Xor: if (i.tk != 1 || i.tw != 1) return false; step(f, i); break;
      case Instruction::Select: if (!((i.tk == 2 && fin(op(1)) && fin(op(2))) || (i.tk == 1 && i.tw == 1))) return false; step(f, i); break;
      case Instruction::Call: if (!i.callee || !pureMath(i.callee, i.ops.size() == 1 ? op(0) : Val()) || !fin(op(0))) return false; step(f, i); break;
      default: return false;
      }
    }
    return false;
  };
  if (side0 >= 0 && !run(side0, w[0])) return false;
  if (side1 >= 0 && !run(side1, w[1])) return false;
  DBlock &jb = f.fi->blocks[(size_t)join];
  int from0 = side0 >= 0 ? side0 : f.bb, from1 = side1 >= 0 ? side1 : f.bb;
  std::vector<Val> r(jb.nphi);
  auto get = [&](int32_t o) -> const Val & { return o >= 0 ? f.regs[(size_t)o] : f.fi->consts[(size_t)(-o - 1)]; };
  for (unsigned i = 0; i < jb.nphi; i++) {
    const Val &a = get(jb.phiIn[i][from0]), &b = get(jb.phiIn[i][from1]);
    if ((a.k == Val::I || a.k == Val::F) && a.k == b.k && a.u == b.u) { r[i] = a; continue; }
    if (!((a.k == Val::F || a.k == Val::SF) && (b.k == Val::F || b.k == Val::SF)) || nonFinite(a) || nonFinite(b)) return false;
  }
  for (unsigned i = 0; i < jb.nphi; i++) if (r[i].k == Val::NONE) r[i] = iteVal(cond, get(jb.phiIn[i][from0]), get(jb.phiIn[i][from1]));
  std::set<uint64_t> at; for (int k = 0; k < 2; k++) for (auto &q : w[k]) at.insert(q.first);
  std::vector<std::pair<uint64_t, std::pair<Val, Type *>>> out;
  for (auto a : at) {
    auto x = w[0].find(a), y = w[1].find(a); Type *T = x != w[0].end() ? x->second.second : y->second.second;
    if (x != w[0].end() && y != w[1].end() && x->second.second != y->second.second) return false;
    Val old; if (x == w[0].end() || y == w[1].end()) { old = loadT(a, T); if (old.k != Val::F && old.k != Val::SF) return false; if (nonFinite(old)) return false; }
    out.push_back({a, {iteVal(cond, x != w[0].end() ? x->second.first : old, y != w[1].end() ? y->second.first : old), T}});
  }
  for (auto &o : out) storeT(o.first, o.second.first, o.second.second);
  for (unsigned i = 0; i < jb.nphi; i++) f.regs[(size_t)jb.ins[i].dst] = std::move(r[i]);
  f.prev = from0; f.bb = join; f.ip = jb.nphi;
  return true;
}
void Engine::step(Frame &f, const DInst &d) {
  auto op = [&](size_t i) -> const Val & { int32_t o = d.ops[i]; return o >= 0 ? f.regs[(size_t)o] : f.fi->consts[(size_t)(-o - 1)]; };
  auto set = [&](Val v) { f.regs[(size_t)d.dst] = std::move(v); };
  switch (d.op) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr:
  case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    const Val &a = op(0), &b = op(1);
    if (a.k == Val::AGG) { std::vector<Val> e; for (size_t i = 0; i < a.a->size(); i++) e.push_back(intBin(d.op, (*a.a)[i], (*b.a)[i], (*a.a)[i].w)); set(mkAgg(e)); }
    else set(intBin(d.op, a, b, d.tw));
    return; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    const Val &a = op(0), &b = op(1);
    if (a.k == Val::AGG) { std::vector<Val> e; for (size_t i = 0; i < a.a->size(); i++) e.push_back(fbin(d.op, (*a.a)[i], (*b.a)[i])); set(mkAgg(e)); }
    else set(fbin(d.op, a, b));
    return; }
  case Instruction::FNeg: {
    const Val &a = op(0);
    if (a.k == Val::AGG) { std::vector<Val> e; for (auto &x : *a.a) e.push_back(fneg(x)); set(mkAgg(e)); } else set(fneg(a));
    return; }
  case Instruction::ICmp: case Instruction::FCmp: {
    const Val &a = op(0), &b = op(1); int p = cast<CmpInst>(d.I)->getPredicate();
    if (a.k == Val::AGG) { std::vector<Val> e; for (size_t i = 0; i < a.a->size(); i++) e.push_back(d.op == Instruction::ICmp ? icmp(p, (*a.a)[i], (*b.a)[i]) : fcmp(p, (*a.a)[i], (*b.a)[i])); set(mkAgg(e)); }
    else set(d.op == Instruction::ICmp ? icmp(p, a, b) : fcmp(p, a, b));
    return; }
  case Instruction::Select: {
    const Val &c = op(0);
    if (c.k == Val::AGG) { std::vector<Val> e; for (size_t i = 0; i < c.a->size(); i++) e.push_back(iteVal(toBool((*c.a)[i]), (*op(1).a)[i], (*op(2).a)[i])); set(mkAgg(e)); }
    else if (c.k == Val::I) set(c.u & 1 ? op(1) : op(2));
    else { Val r = iteVal(toBool(c), op(1), op(2)); set(r); }
    return; }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::FPExt:
  case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::AddrSpaceCast:
    set(castV(d.op, op(0), d.I->getOperand(0)->getType(), d.I->getType())); return;
  case Instruction::Freeze: set(op(0)); return;
  case Instruction::GetElementPtr: {
    const Val &b = op(0);
    if (b.k == Val::I) {
      uint64_t a = b.u + (uint64_t)d.coff; bool sym = false;
      for (auto &g : d.gidx) { const Val &x = g.first >= 0 ? f.regs[(size_t)g.first] : f.fi->consts[(size_t)(-g.first - 1)]; if (x.k != Val::I) { sym = true; break; } a += (uint64_t)sx(x.u, x.w) * g.second; }
      if (!sym) { set(mkI(a, 64)); return; }
    }
    N a = mkBin(Op::ADD, toBV(b), mkBV((uint64_t)d.coff, 64));
    for (auto &g : d.gidx) { const Val &x = g.first >= 0 ? f.regs[(size_t)g.first] : f.fi->consts[(size_t)(-g.first - 1)]; N i = toBV(x); i = mkSext(i, 64); a = mkBin(Op::ADD, a, mkBin(Op::MUL, i, mkBV(g.second, 64))); }
    set(fromBV(a)); return; }
  case Instruction::Load: { struct Quiet { int &t; int s; Quiet(int &x, bool q) : t(x), s(x) { if (q) x = -1; } ~Quiet() { t = s; } } quiet(raceThread, race && cast<LoadInst>(d.I)->isAtomic());
    const Val &p = op(0);
    if (p.k == Val::I) set(d.tk ? loadS(p.u, d.tk, d.tw) : loadT(p.u, d.I->getType()));
    else set(loadSym(p, d.I->getType()));
    return; }
  case Instruction::Store: {
    const Val &p = op(1);
    if (p.k == Val::I) storeT(p.u, op(0), d.I->getOperand(0)->getType());
    else storeSym(p, op(0), d.I->getOperand(0)->getType());
    return; }
  case Instruction::Alloca: {
    auto *ai = cast<AllocaInst>(d.I);
    uint64_t n = conc(op(0), "alloca count") * DL->getTypeAllocSize(ai->getAllocatedType());
    if (n > (8u << 20)) { violationHere("stack", "stack allocation exceeds 8 MB"); throw Stop(); }
    uint64_t a = alloc(n, Obj::STACK, ai->getName().str()); f.allocas.push_back(a); set(mkI(a, 64)); return; }
  case Instruction::Br: {
    if (d.ops.empty()) { jump(f, d.b0); return; }
    const Val &c = op(0);
    if (c.k != Val::I && merge(f, d, toBool(c))) return;
    bool t = c.k == Val::I ? (c.u & 1) : decide(toBool(c));
    jump(f, t ? d.b0 : d.b1); return; }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(d.I); Val c = op(0);
    BasicBlock *dst = sw->getDefaultDest();
    if (c.k == Val::I) { for (auto &cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.u) { dst = cs.getCaseSuccessor(); break; } }
    else for (auto &cs : sw->cases()) if (decide(mkEq(toBV(c), mkBV(cs.getCaseValue()->getZExtValue(), c.w)))) { dst = cs.getCaseSuccessor(); break; }
    jump(f, f.fi->bix[dst]); return; }
  case Instruction::Ret: { Val v; if (!d.ops.empty()) v = op(0); doReturn(v); return; }
  case Instruction::Call: case Instruction::Invoke: call(f, d); return;
  case Instruction::Unreachable: violationHere("unreachable", "control reaches code the compiler marked unreachable (undefined behaviour)"); throw Stop();
  case Instruction::ExtractValue: { Val v = op(0); for (auto i : cast<ExtractValueInst>(d.I)->indices()) { Val t = (*v.a)[i]; v = t; } set(v); return; }
  case Instruction::InsertValue: {
    Val v = op(0); auto *iv = cast<InsertValueInst>(d.I);
    std::function<Val(const Val &, size_t)> go = [&](const Val &x, size_t k) -> Val { if (k == iv->getNumIndices()) return op(1); std::vector<Val> e = *x.a; e[iv->getIndices()[k]] = go(e[iv->getIndices()[k]], k + 1); return mkAgg(e); };
    set(go(v, 0)); return; }
  case Instruction::ExtractElement: set((*op(0).a)[conc(op(1), "lane")]); return;
  case Instruction::InsertElement: { std::vector<Val> e = *op(0).a; e[conc(op(2), "lane")] = op(1); set(mkAgg(e)); return; }
  case Instruction::ShuffleVector: {
    auto *sv = cast<ShuffleVectorInst>(d.I); std::vector<Val> e; size_t n = op(0).a->size();
    for (int m : sv->getShuffleMask()) e.push_back(m < 0 ? (*op(0).a)[0] : (size_t)m < n ? (*op(0).a)[(size_t)m] : (*op(1).a)[(size_t)m - n]);
    set(mkAgg(e)); return; }
  case Instruction::AtomicRMW: { struct Quiet { int &t; int s; Quiet(int &x) : t(x), s(x) { x = -1; } ~Quiet() { t = s; } } quiet(raceThread);
    auto *rm = cast<AtomicRMWInst>(d.I); uint64_t p = conc(op(0), "atomic address"); Val o = loadT(p, rm->getType()); Val n;
    switch (rm->getOperation()) { case AtomicRMWInst::Add: n = intBin(Instruction::Add, o, op(1), d.tw); break; case AtomicRMWInst::Sub: n = intBin(Instruction::Sub, o, op(1), d.tw); break; case AtomicRMWInst::Xchg: n = op(1); break; case AtomicRMWInst::Or: n = intBin(Instruction::Or, o, op(1), d.tw); break; case AtomicRMWInst::And: n = intBin(Instruction::And, o, op(1), d.tw); break; default: incomplete("atomicrmw"); }
    storeT(p, n, rm->getType()); set(o); return; }
  case Instruction::AtomicCmpXchg: { struct Quiet { int &t; int s; Quiet(int &x) : t(x), s(x) { x = -1; } ~Quiet() { t = s; } } quiet(raceThread);
    uint64_t p = conc(op(0), "atomic address"); Type *T = d.I->getOperand(1)->getType(); Val o = loadT(p, T); Val eq = icmp(CmpInst::ICMP_EQ, o, op(1));
    storeT(p, iteVal(toBool(eq), op(2), o), T); set(mkAgg({o, eq})); return; }
  case Instruction::Fence: return;
  case Instruction::LandingPad: {   // reached only through unwind(), which stores the value itself
    return; }
  case Instruction::Resume: { exnPtr = (*op(0).a)[0].u; popFrame(); unwind(); return; }
  }
  incomplete(std::string("instruction ") + d.I->getOpcodeName());
}

// ------------------------------------------------------------------ exceptions
int Engine::typeId(uint64_t ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int id = (int)typeIds.size() + 1; typeIds[ti] = id; return id; }
bool Engine::catches(uint64_t clause, uint64_t ti) {
  if (clause == 0 || clause == ti) return true;
  Obj *o = objOf(ti); if (!o || o->kind != Obj::GLOBAL) return false;
  Obj *c = objOf(clause);
  if (c && c->name == o->name) return true;
  // typeinfo layout: { vtable+16, name, base... }
  uint64_t vt = 0; if (o->size >= 8) memcpy(&vt, &o->data[0], 8);
  Obj *v = objOf(vt);
  if (v && v->name == "_ZTVN10__cxxabiv120__si_class_type_infoE" && o->size >= 24) { uint64_t b; memcpy(&b, &o->data[16], 8); return catches(clause, b); }
  if (v && v->name == "_ZTVN10__cxxabiv121__vmi_class_type_infoE" && o->size >= 24) {
    uint32_t n; memcpy(&n, &o->data[20], 4);
    for (uint32_t i = 0; i < n && 24 + 16 * i + 8 <= o->size; i++) { uint64_t b; memcpy(&b, &o->data[24 + 16 * i], 8); if (catches(clause, b)) return true; }
  }
  return false;
}
void Engine::unwind() {   // unwinds from the current top frame's call site; top frame is the one that must handle it
  uint64_t ti = exnType[exnPtr];
  while (!st.empty()) {
    Frame &f = st.back();
    if (f.ip == 0) { popFrame(); continue; }
    const DInst &ci = f.fi->blocks[(size_t)f.bb].ins[f.ip - 1];
    if (ci.op == Instruction::Invoke) {
      BasicBlock *ub = cast<InvokeInst>(ci.I)->getUnwindDest();
      LandingPadInst *lp = ub->getLandingPadInst();
      int sel = 0; bool land = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (lp->isCatch(i)) {
          uint64_t cl = constVal(lp->getClause(i)).u;
          if (catches(cl, ti)) { sel = typeId(cl); land = true; break; }
        } else { // filter: an empty one means noexcept
          if (lp->getClause(i)->getType()->getArrayNumElements() == 0) { violationHere("terminate", "exception escapes a function that must not throw"); throw Stop(); }
        }
      }
      if (land) {
        jump(f, ci.b1);
        DBlock &b = f.fi->blocks[(size_t)f.bb];
        for (size_t i = f.ip; i < b.ins.size(); i++) if (b.ins[i].op == Instruction::LandingPad) { f.regs[(size_t)b.ins[i].dst] = mkAgg({mkI(exnPtr, 64), mkI((uint64_t)sel, 32)}); break; }
        return;
      }
    }
    if (f.fi->F->hasFnAttribute(Attribute::NoUnwind)) { violationHere("terminate", "exception escapes a noexcept function"); throw Stop(); }
    popFrame();
  }
  std::string nm = objOf(ti) ? objOf(ti)->name : "?";
  violationHere("exception", "uncaught exception of type " + nm);
  throw Stop();
}
