// Hash-consed symbolic expressions: booleans, bit-vectors and exact reals (kept as
// normalised Laurent polynomials with rational coefficients over atoms).
#pragma once
#include <cstdint>
#include <gmpxx.h>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

enum class S : uint8_t { BOOL, BV, REAL };
enum class Op : uint8_t {
  TRUE_, FALSE_, BVAR, NOT, AND, OR, IFF, EQ, ULT, ULE, SLT, SLE, RLT0, RLE0, REQ0, BITE,
  CONST, VAR, ADD, MUL, UDIV, SDIV, UREM, SREM, BAND, BOR, BXOR, SHL, LSHR, ASHR,
  ZEXT, SEXT, EXTRACT, CONCAT, ITE, R2SI, RBITS,
  FADD, FSUB, FMUL, FDIV, FSQRT, FCVT, SI2F, UI2F, F2SI, FLT, FLE, FEQ,
  POLY, RVAR, RITE, EXP, LOG, SQRT, PINV, SI2R, UI2R, RUF, RPROD, ROFBITS
};

struct Node;
typedef const Node *N;

struct Mono { std::vector<std::pair<N, int>> f; };   // sorted by atom id; exponents non-zero
int cmpMono(const Mono &a, const Mono &b);
struct Term { Mono m; mpq_class c; };
struct Poly { std::vector<Term> t; };                // sorted by mono, coefficients non-zero

struct Node {
  Op op; S sort; uint16_t w;
  uint32_t id;
  uint64_t c = 0;                                    // CONST value / variable index / EXTRACT lo / UF index
  std::vector<N> k;
  Poly *p = nullptr;                                 // POLY
  uint64_t h = 0;
};

struct VarInfo { std::string name; S sort; uint16_t w; bool ranged; int64_t lo, hi; N node; };
extern std::vector<VarInfo> g_vars;

N mkTrue(); N mkFalse(); N mkBool(bool b);
N mkNot(N a); N mkAnd(N a, N b); N mkOr(N a, N b); N mkIff(N a, N b); N mkBIte(N c, N a, N b);
bool isTrue(N a); bool isFalse(N a);
N mkBVar(const std::string &name);

N mkBV(uint64_t v, unsigned w);
N mkBVVar(const std::string &name, unsigned w);
N mkRangedVar(const std::string &name, unsigned w, int64_t lo, int64_t hi);
N mkBin(Op op, N a, N b);
N mkSub(N a, N b);
N mkZext(N a, unsigned w); N mkSext(N a, unsigned w); N mkExtract(N a, unsigned lo, unsigned w); N mkConcat(N hi, N lo);
N mkIte(N c, N a, N b);
N mkEq(N a, N b); N mkUlt(N a, N b); N mkUle(N a, N b); N mkSlt(N a, N b); N mkSle(N a, N b);
N boolToBV(N b, unsigned w); N bvToBool(N a);
bool constLeaves(N a, std::vector<uint64_t> &out, int limit);

// IEEE floating point on bit patterns (32 or 64 bits wide), round to nearest even
N fpBin(Op op, N a, N b); N fpSqrt(N a); N fpCvt(N a, unsigned w); N fpOfInt(N a, unsigned w, bool sgn); N fpToSI(N a, unsigned w);
N fpLt(N a, N b); N fpLe(N a, N b); N fpEq(N a, N b);
bool fpFold(Op op, uint64_t x, uint64_t y, unsigned kw, unsigned w, uint64_t &r);
double fpD(uint64_t u, unsigned w); uint64_t fpU(double d, unsigned w);

N mkReal(const mpq_class &q); N mkRealD(double d);
N mkRVar(const std::string &name);
N rAdd(N a, N b); N rSub(N a, N b); N rMul(N a, N b); N rDiv(N a, N b); N rNeg(N a); N rScale(N a, const mpq_class &q);
N rInv(N a);
N rIte(N c, N a, N b);
N rExp(N a); N rLog(N a); N rSqrt(N a); N rUF(const std::string &name, const std::vector<N> &args);
N rPowInt(N a, long n);
N rLt(N a, N b); N rLe(N a, N b); N rEq(N a, N b);
N siToR(N a); N uiToR(N a); N rToSI(N a, unsigned w);
N rBits(N a, unsigned w); N rOfBits(N a);
bool rIsConst(N a, mpq_class *q = nullptr);
bool rKnownPositive(N a);
const Poly &asPoly(N a);
N polyOf(N atom);

std::string ufName(N n);
std::string toStr(N n, int depth = 6);
const std::vector<uint64_t> &varSet(N n);            // bitset of variable indices
N substitute(N n, N cond, bool val, std::unordered_map<N, N> &memo);
void collectIteConds(N n, std::vector<N> &out, int limit);
void collectAtoms(N n, std::vector<N> &out);         // real atoms that need axioms
uint32_t nodeCount();

// Evaluation under a model: variables and non-algebraic atoms are looked up.
struct Model {
  std::unordered_map<uint32_t, uint64_t> bv;         // VAR / BVAR node id
  std::unordered_map<uint32_t, mpq_class> r;         // RVAR and opaque atoms, by node id
  bool valid = false;
};
struct EvalR { bool ok = false; uint64_t u = 0; mpq_class q; };
struct Evaluator {
  const Model &m; bool defaults; std::unordered_map<N, EvalR> memo;
  Evaluator(const Model &m_, bool d = false) : m(m_), defaults(d) {}
  const EvalR &ev(N n);
};
