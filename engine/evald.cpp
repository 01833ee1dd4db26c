#include "evald.hpp"
#include <cmath>
#include <cstdlib>
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static inline uint64_t msk(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
const EvalDR &EvalD::ev(N n) {
  auto it = memo.find(n);
  if (it != memo.end()) return it->second;
  EvalDR r;
  auto all = [&] { for (auto k : n->k) if (!ev(k).ok) return false; return true; };
  auto D = [&](int i) { return ev(n->k[i]).d; };
  auto U = [&](int i) { return ev(n->k[i]).u; };
  switch (n->op) {
  case Op::RVAR: { auto f = r.ok ? this->r.end() : this->r.find(n->id); r.ok = true; r.d = f != this->r.end() ? f->second : 0; break; }
  case Op::VAR: case Op::BVAR: { auto f = bv.find(n->id); r.ok = true; r.u = f != bv.end() ? f->second : 0; break; }
  case Op::POLY:
    r.ok = true;
    for (auto &t : n->p->t) { double v = t.c.get_d(); for (auto &f : t.m.f) { auto a = ev(f.first); if (!a.ok) { r.ok = false; break; } v *= std::pow(a.d, f.second); } r.d += v; }
    break;
  case Op::EXP: if (all()) { r.ok = true; r.d = std::exp(D(0)); } break;
  case Op::LOG: if (all()) { r.ok = D(0) > 0; r.d = std::log(D(0)); } break;
  case Op::SQRT: if (all()) { r.ok = D(0) >= -1e-9; r.d = std::sqrt(std::max(0.0, D(0))); } break;
  case Op::PINV: if (all()) { r.ok = D(0) != 0; r.d = 1 / D(0); } break;
  case Op::RPROD: if (all()) { r.ok = true; r.d = D(0) * D(1); } break;
  case Op::RUF:
    if (all()) {
      std::string f = ufName(n); r.ok = true;
      if (f == "pow") r.d = std::pow(D(0), D(1)); else if (f == "floor") r.d = std::floor(D(0)); else if (f == "ceil") r.d = std::ceil(D(0)); else if (f == "trunc") r.d = std::trunc(D(0)); else if (f == "round") r.d = std::round(D(0)); else r.ok = false;
    }
    break;
  case Op::SI2R: if (all()) { r.ok = true; r.d = (double)sx(U(0), n->k[0]->w); } break;
  case Op::UI2R: if (all()) { r.ok = true; r.d = (double)U(0); } break;
  case Op::R2SI: if (all()) { r.ok = true; r.u = msk((uint64_t)(int64_t)D(0), n->w); } break;
  case Op::RLT0: if (all()) { r.ok = true; r.u = D(0) < 0; } break;
  case Op::RLE0: if (all()) { r.ok = true; r.u = D(0) <= 0; } break;
  case Op::REQ0: if (all()) { r.ok = true; r.u = D(0) == 0; } break;
  case Op::ITE: case Op::BITE: case Op::RITE: { auto c = ev(n->k[0]); if (c.ok) r = ev(n->k[c.u ? 1 : 2]); break; }
  case Op::RBITS: case Op::ROFBITS: break;
  default: {
    if (!all()) break;
    // bit-vector and boolean operators: reuse the exact evaluator on constants
    Model m; Evaluator e(m);
    std::vector<uint64_t> u; for (size_t i = 0; i < n->k.size(); i++) u.push_back(U((int)i));
    unsigned w0 = n->k.empty() ? 0 : n->k[0]->w;
    r.ok = true;
    switch (n->op) {
    case Op::TRUE_: r.u = 1; break; case Op::FALSE_: r.u = 0; break; case Op::CONST: r.u = n->c; break;
    case Op::NOT: r.u = !u[0]; break; case Op::AND: r.u = u[0] && u[1]; break; case Op::OR: r.u = u[0] || u[1]; break;
    case Op::IFF: case Op::EQ: r.u = u[0] == u[1]; break;
    case Op::ULT: r.u = u[0] < u[1]; break; case Op::ULE: r.u = u[0] <= u[1]; break;
    case Op::SLT: r.u = sx(u[0], w0) < sx(u[1], w0); break; case Op::SLE: r.u = sx(u[0], w0) <= sx(u[1], w0); break;
    case Op::ZEXT: r.u = u[0]; break; case Op::SEXT: r.u = msk((uint64_t)sx(u[0], w0), n->w); break;
    case Op::EXTRACT: r.u = msk(u[0] >> n->c, n->w); break; case Op::CONCAT: r.u = (u[0] << n->k[1]->w) | u[1]; break;
    case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: case Op::FSQRT: case Op::FCVT: case Op::SI2F: case Op::UI2F: case Op::F2SI: case Op::FLT: case Op::FLE: case Op::FEQ:
      r.ok = fpFold(n->op, u[0], u.size() > 1 ? u[1] : 0, w0, n->w, r.u); break;
    default: { N c = mkBin(n->op, mkBV(u[0], w0), mkBV(u[1], n->k[1]->w)); r.ok = c->op == Op::CONST; r.u = c->c; }
    }
  }
  }
  return memo[n] = r;
}
