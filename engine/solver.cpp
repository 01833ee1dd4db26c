#include "solver.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <z3++.h>

SolverStats g_sstats;
double g_deadline = 0;
double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static z3::context *C = nullptr;
static std::vector<std::unique_ptr<z3::expr>> g_tr;      // by node id
static std::unordered_map<uint32_t, std::unique_ptr<z3::expr>> g_inv;   // inverse variable of an atom
static void initC() { if (!C) { C = new z3::context(); } }

static z3::expr tr(N n);
static z3::expr ratE(const mpq_class &q) { return C->real_val(q.get_str().c_str()); }
static z3::expr invE(N atom) {
  auto it = g_inv.find(atom->id);
  if (it != g_inv.end()) return *it->second;
  auto e = std::make_unique<z3::expr>(C->real_const(("inv_" + std::to_string(atom->id)).c_str()));
  z3::expr r = *e;
  g_inv[atom->id] = std::move(e);
  return r;
}
static std::unordered_map<uint32_t, std::unique_ptr<z3::expr>> g_fp;    // floating-point view of a bit pattern
static z3::expr fpE(N n) {
  auto it = g_fp.find(n->id); if (it != g_fp.end()) return *it->second;
  z3::expr rm(*C, Z3_mk_fpa_rne(*C)); z3::sort so(*C, n->w == 32 ? Z3_mk_fpa_sort_32(*C) : Z3_mk_fpa_sort_64(*C));
  auto K = [&](int i) { return fpE(n->k[i]); };
  Z3_ast a;
  switch (n->op) {
  case Op::FADD: a = Z3_mk_fpa_add(*C, rm, K(0), K(1)); break;
  case Op::FSUB: a = Z3_mk_fpa_sub(*C, rm, K(0), K(1)); break;
  case Op::FMUL: a = Z3_mk_fpa_mul(*C, rm, K(0), K(1)); break;
  case Op::FDIV: a = Z3_mk_fpa_div(*C, rm, K(0), K(1)); break;
  case Op::FSQRT: a = Z3_mk_fpa_sqrt(*C, rm, K(0)); break;
  case Op::FCVT: a = Z3_mk_fpa_to_fp_float(*C, rm, K(0), so); break;
  case Op::SI2F: a = Z3_mk_fpa_to_fp_signed(*C, rm, tr(n->k[0]), so); break;
  case Op::UI2F: a = Z3_mk_fpa_to_fp_unsigned(*C, rm, tr(n->k[0]), so); break;
  case Op::ITE: a = Z3_mk_ite(*C, tr(n->k[0]), K(1), K(2)); break;
  default: a = Z3_mk_fpa_to_fp_bv(*C, tr(n), so);
  }
  auto e = std::make_unique<z3::expr>(*C, a); z3::expr r = *e; g_fp[n->id] = std::move(e); return r;
}
static z3::expr tr0(N n) {
  auto K = [&](int i) { return tr(n->k[i]); };
  switch (n->op) {
  case Op::TRUE_: return C->bool_val(true);
  case Op::FALSE_: return C->bool_val(false);
  case Op::BVAR: return C->bool_const(("b" + std::to_string(n->id)).c_str());
  case Op::NOT: return !K(0);
  case Op::AND: return K(0) && K(1);
  case Op::OR: return K(0) || K(1);
  case Op::IFF: case Op::EQ: return K(0) == K(1);
  case Op::ULT: return z3::ult(K(0), K(1));
  case Op::ULE: return z3::ule(K(0), K(1));
  case Op::SLT: return K(0) < K(1);
  case Op::SLE: return K(0) <= K(1);
  case Op::RLT0: return K(0) < C->real_val(0);
  case Op::RLE0: return K(0) <= C->real_val(0);
  case Op::REQ0: return K(0) == C->real_val(0);
  case Op::BITE: case Op::ITE: case Op::RITE: return z3::ite(K(0), K(1), K(2));
  case Op::CONST: return C->bv_val((uint64_t)n->c, n->w);
  case Op::VAR: return C->bv_const(("v" + std::to_string(n->id)).c_str(), n->w);
  case Op::ADD: return K(0) + K(1);
  case Op::MUL: return K(0) * K(1);
  case Op::UDIV: return z3::udiv(K(0), K(1));
  case Op::SDIV: return K(0) / K(1);
  case Op::UREM: return z3::urem(K(0), K(1));
  case Op::SREM: return z3::srem(K(0), K(1));
  case Op::BAND: return K(0) & K(1);
  case Op::BOR: return K(0) | K(1);
  case Op::BXOR: return K(0) ^ K(1);
  case Op::SHL: return z3::shl(K(0), K(1));
  case Op::LSHR: return z3::lshr(K(0), K(1));
  case Op::ASHR: return z3::ashr(K(0), K(1));
  case Op::ZEXT: return z3::zext(K(0), n->w - n->k[0]->w);
  case Op::SEXT: return z3::sext(K(0), n->w - n->k[0]->w);
  case Op::EXTRACT: return K(0).extract((unsigned)n->c + n->w - 1, (unsigned)n->c);
  case Op::CONCAT: return z3::concat(K(0), K(1));
  case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: case Op::FSQRT: case Op::FCVT: case Op::SI2F: case Op::UI2F: return z3::expr(*C, Z3_mk_fpa_to_ieee_bv(*C, fpE(n)));
  case Op::F2SI: { z3::expr rz(*C, Z3_mk_fpa_rtz(*C)); return z3::expr(*C, Z3_mk_fpa_to_sbv(*C, rz, fpE(n->k[0]), n->w)); }
  case Op::FLT: return z3::expr(*C, Z3_mk_fpa_lt(*C, fpE(n->k[0]), fpE(n->k[1])));
  case Op::FLE: return z3::expr(*C, Z3_mk_fpa_leq(*C, fpE(n->k[0]), fpE(n->k[1])));
  case Op::FEQ: return z3::expr(*C, Z3_mk_fpa_eq(*C, fpE(n->k[0]), fpE(n->k[1])));
  case Op::R2SI: case Op::RBITS: return C->bv_const(("q" + std::to_string(n->id)).c_str(), n->w);
  case Op::RVAR: case Op::EXP: case Op::LOG: case Op::SQRT: case Op::PINV: case Op::SI2R: case Op::UI2R: case Op::ROFBITS: case Op::RUF:
    return C->real_const(("r" + std::to_string(n->id)).c_str());
  case Op::RPROD: return K(0) * K(1);
  case Op::POLY: {
    if (n->p->t.empty()) return C->real_val(0);
    z3::expr_vector sum(*C);
    for (auto &t : n->p->t) {
      z3::expr_vector fs(*C);
      if (t.c != 1 || t.m.f.empty()) fs.push_back(ratE(t.c));
      for (auto &f : t.m.f) {
        z3::expr a = f.second > 0 ? tr(f.first) : (f.first->op == Op::PINV ? tr(f.first->k[0]) : invE(f.first));
        for (int i = 0; i < std::abs(f.second); i++) fs.push_back(a);
      }
      if (fs.size() == 1) sum.push_back(fs[0]);
      else { std::vector<Z3_ast> v; for (unsigned i = 0; i < fs.size(); i++) v.push_back(fs[i]); sum.push_back(z3::expr(*C, Z3_mk_mul(*C, (unsigned)v.size(), v.data()))); }
    }
    if (sum.size() == 1) return sum[0];
    return z3::sum(sum);
  }
  }
  abort();
}
static z3::expr tr(N n) {
  if (g_tr.size() <= n->id) g_tr.resize(nodeCount() + 1024);
  if (g_tr[n->id]) return *g_tr[n->id];
  auto e = std::make_unique<z3::expr>(tr0(n));
  z3::expr r = *e;
  if (g_tr.size() <= n->id) g_tr.resize(nodeCount() + 1024);
  g_tr[n->id] = std::move(e);
  return r;
}

static void closure(const std::vector<N> &conj, std::vector<N> &all) {
  std::unordered_set<N> seen;
  std::vector<N> st(conj.begin(), conj.end());
  while (!st.empty()) {
    N x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    all.push_back(x);
    for (auto k : x->k) st.push_back(k);
    if (x->op == Op::POLY) for (auto &t : x->p->t) for (auto &f : t.m.f) st.push_back(f.first);
  }
}
bool isNonlinear(N n) {
  static std::unordered_map<N, bool> memo;
  auto it = memo.find(n);
  if (it != memo.end()) return it->second;
  bool r = n->op == Op::SQRT || n->op == Op::PINV || n->op == Op::RPROD;
  if (n->op == Op::POLY) for (auto &t : n->p->t) {
    int d = 0; for (auto &f : t.m.f) { d += std::abs(f.second); if (f.second < 0) r = true; if (isNonlinear(f.first)) r = true; }
    if (d > 1) r = true;
  }
  for (auto k : n->k) if (isNonlinear(k)) r = true;
  return memo[n] = r;
}

struct Problem { z3::expr_vector as; std::vector<N> all; bool real = false, bv = false, nl = false, fp = false; Problem() : as(*C) {} };
static void build(const std::vector<N> &conj, Problem &P) {
  closure(conj, P.all);
  std::sort(P.all.begin(), P.all.end(), [](N a, N b) { return a->id < b->id; });
  for (auto c : conj) { P.as.push_back(tr(c)); if (isNonlinear(c)) P.nl = true; }
  std::vector<N> exps, logs, sqs; std::unordered_set<N> negs;
  auto R = [&](int v) { return C->real_val(v); };
  for (auto n : P.all) {
    if (n->sort == S::REAL) P.real = true;
    if (n->sort == S::BV) P.bv = true;
    if (n->op >= Op::FADD && n->op <= Op::FEQ) P.fp = true;
    switch (n->op) {
    case Op::VAR: {
      auto &v = g_vars[n->c];
      if (v.ranged) { P.as.push_back(tr(n) >= C->bv_val((int64_t)v.lo, v.w)); P.as.push_back(tr(n) <= C->bv_val((int64_t)v.hi, v.w)); }
      break; }
    case Op::EXP: exps.push_back(n); break;
    case Op::LOG: logs.push_back(n); break;
    case Op::SQRT: { sqs.push_back(n); auto v = tr(n); auto t = tr(n->k[0]); P.as.push_back(v >= R(0)); auto sq = v * v == t; P.as.push_back(rKnownPositive(n->k[0]) ? sq : z3::implies(t >= R(0), sq)); break; }
    case Op::PINV: { auto t = tr(n->k[0]); auto iv = tr(n) * t == R(1); P.as.push_back(rKnownPositive(n->k[0]) ? iv : z3::implies(t != R(0), iv)); break; }
    case Op::SI2R: case Op::UI2R: {
      N b = n->k[0]; auto x = tr(b);
      bool done = false;
      if (b->op == Op::VAR && g_vars[b->c].ranged && g_vars[b->c].hi - g_vars[b->c].lo <= 300) {
        auto &v = g_vars[b->c];
        z3::expr e = C->real_val((int64_t)v.hi);
        for (int64_t i = v.hi - 1; i >= v.lo; i--) e = z3::ite(x == C->bv_val(i, v.w), C->real_val(i), e);
        P.as.push_back(tr(n) == e); done = true;
      } else if (b->w <= 8) {
        int lo = n->op == Op::SI2R ? -(1 << (b->w - 1)) : 0, hi = n->op == Op::SI2R ? (1 << (b->w - 1)) - 1 : (1 << b->w) - 1;
        z3::expr e = C->real_val(hi);
        for (int i = hi - 1; i >= lo; i--) e = z3::ite(x == C->bv_val(i, b->w), C->real_val(i), e);
        P.as.push_back(tr(n) == e); done = true;
      }
      if (!done) P.as.push_back(tr(n) == z3::to_real(z3::bv2int(x, n->op == Op::SI2R)));
      break; }
    case Op::R2SI: {
      auto a = tr(n->k[0]);
      auto neg = z3::expr(*C, Z3_mk_real2int(*C, -a)), pos = z3::expr(*C, Z3_mk_real2int(*C, a));
      P.as.push_back(z3::bv2int(tr(n), true) == z3::ite(a >= R(0), pos, -neg));
      break; }
    case Op::POLY:
      for (auto &t : n->p->t) for (auto &f : t.m.f) if (f.second < 0 && f.first->op != Op::PINV && negs.insert(f.first).second) {
        auto t = tr(f.first); auto iv = invE(f.first) * t == R(1);
        P.as.push_back(rKnownPositive(f.first) ? iv : z3::implies(t != R(0), iv));
      }
      break;
    default: break;
    }
  }
  auto mono = [&](std::vector<N> &v) {
    if (v.size() > 12) return;
    for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) {
      auto a = tr(v[i]->k[0]), b = tr(v[j]->k[0]);
      P.as.push_back((a < b) == (tr(v[i]) < tr(v[j])));
      P.as.push_back((a == b) == (tr(v[i]) == tr(v[j])));
    }
  };
  for (auto e : exps) {
    auto a = tr(e->k[0]), v = tr(e);
    P.as.push_back(v > R(0)); P.as.push_back(v >= a + R(1));
    P.as.push_back(z3::implies(a <= R(0), v <= R(1)));
    P.as.push_back((a == R(0)) == (v == R(1)));
    P.as.push_back(z3::implies(a <= R(-1), v <= C->real_val("1/2")));
  }
  mono(exps);
  for (auto e : logs) {
    auto a = tr(e->k[0]), v = tr(e);
    P.as.push_back(z3::implies(a > R(0), v <= a - R(1)));
    P.as.push_back(z3::implies(a > R(0), (v <= R(0)) == (a <= R(1))));
    mpq_class q;
    if (rIsConst(e->k[0], &q) && q > 0) {
      double l = log(q.get_d()); double d = fabs(l) * 1e-9 + 1e-12;
      P.as.push_back(v >= ratE(mpq_class(l - d))); P.as.push_back(v <= ratE(mpq_class(l + d)));
    }
  }
  for (auto e : exps) {
    mpq_class q;
    if (rIsConst(e->k[0], &q) && fabs(q.get_d()) < 600) {
      double l = exp(q.get_d()); double d = l * 1e-9;
      P.as.push_back(tr(e) >= ratE(mpq_class(l - d))); P.as.push_back(tr(e) <= ratE(mpq_class(l + d)));
    }
  }
  for (auto &v : {&logs}) mono(*v);
  // uninterpreted functions: congruence
  std::vector<N> ufs; for (auto n : P.all) if (n->op == Op::RUF || n->op == Op::RBITS || n->op == Op::ROFBITS) ufs.push_back(n);
  if (ufs.size() <= 24)
    for (size_t i = 0; i < ufs.size(); i++) for (size_t j = i + 1; j < ufs.size(); j++) {
      if (ufs[i]->op != ufs[j]->op || ufs[i]->c != ufs[j]->c || ufs[i]->k.size() != ufs[j]->k.size() || ufs[i]->w != ufs[j]->w) continue;
      z3::expr e = C->bool_val(true);
      bool ok = true;
      for (size_t k = 0; k < ufs[i]->k.size(); k++) { if (ufs[i]->k[k]->w != ufs[j]->k[k]->w) ok = false; else e = e && (tr(ufs[i]->k[k]) == tr(ufs[j]->k[k])); }
      if (ok) P.as.push_back(z3::implies(e, tr(ufs[i]) == tr(ufs[j])));
    }
}
static void extract(z3::model &md, Problem &P, Model *m) {
  if (!m) return;
  m->valid = true;
  for (auto n : P.all) {
    if (n->op == Op::VAR) {
      z3::expr v = md.eval(tr(n), true); uint64_t u = 0;
      if (v.is_numeral_u64(u)) m->bv[n->id] = u;
    } else if (n->op == Op::BVAR) {
      z3::expr v = md.eval(tr(n), true); m->bv[n->id] = v.is_true();
    } else if (n->op == Op::RVAR || n->op == Op::EXP || n->op == Op::LOG || n->op == Op::SQRT || n->op == Op::RUF || n->op == Op::ROFBITS) {
      z3::expr v = md.eval(tr(n), true); std::string s;
      if (v.is_numeral(s)) { mpq_class q; q.set_str(s, 10); q.canonicalize(); m->r[n->id] = q; }
      else if (Z3_is_algebraic_number(*C, v)) {
        std::string d = v.get_decimal_string(20);
        m->r[n->id] = mpq_class(strtod(d.c_str(), nullptr));
      }
    }
  }
}
static void writeAll(int fd, const std::string &s) { size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) _exit(3); o += (size_t)k; } }
static void childSolve(Problem &P, int strat, int fd) {
  z3::check_result r = z3::unknown;
  std::string out;
  try {
    z3::solver s = strat == 1 ? (z3::tactic(*C, "simplify") & z3::tactic(*C, "solve-eqs") & z3::tactic(*C, "qfnra-nlsat")).mk_solver()
                 : strat == 2 ? z3::tactic(*C, "qfnra").mk_solver()
                 : strat == 4 ? (z3::tactic(*C, "simplify") & z3::tactic(*C, "propagate-values") & z3::tactic(*C, "fpa2bv") & z3::tactic(*C, "simplify") & z3::tactic(*C, "solve-eqs") & z3::tactic(*C, "bit-blast") & z3::tactic(*C, "sat")).mk_solver()
                 : strat == 5 ? z3::tactic(*C, "qffp").mk_solver() : z3::solver(*C);
    if (strat == 3) { z3::params p(*C); p.set("arith.solver", 2u); s.set(p); }
    s.add(P.as);
    r = s.check();
    if (r == z3::sat) {
      Model m; z3::model md = s.get_model(); extract(md, P, &m);
      out = "S\n";
      for (auto &kv : m.bv) out += "b " + std::to_string(kv.first) + " " + std::to_string(kv.second) + "\n";
      for (auto &kv : m.r) out += "r " + std::to_string(kv.first) + " " + kv.second.get_str() + "\n";
    } else out = r == z3::unsat ? "U\n" : "?\n";
  } catch (...) { out = "?\n"; }
  writeAll(fd, out + "E\n");
  _exit(0);
}
static Res forkSolve(Problem &P, Model *m, double timeoutS, bool pureReal) {
  g_sstats.forked++;
  struct Kid { pid_t pid; int fd; std::string buf; bool done = false; };
  std::vector<Kid> kids;
  std::vector<int> strats = {0};
  if (pureReal) strats.push_back(1);
  if (P.fp) strats = {4, 5};
  for (int st : strats) {
    int p[2]; if (pipe(p)) abort();
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) { close(p[0]); for (auto &k : kids) close(k.fd); childSolve(P, st, p[1]); }
    close(p[1]);
    kids.push_back({pid, p[0], ""});
  }
  double end = nowS() + timeoutS;
  Res res = Res::UNKNOWN; bool have = false;
  while (!have) {
    std::vector<pollfd> pf; std::vector<size_t> ix;
    for (size_t i = 0; i < kids.size(); i++) if (!kids[i].done) { pf.push_back({kids[i].fd, POLLIN, 0}); ix.push_back(i); }
    if (pf.empty()) break;
    double left = end - nowS();
    if (left <= 0) break;
    int r = poll(pf.data(), pf.size(), (int)(left * 1000) + 1);
    if (r <= 0) continue;
    for (size_t j = 0; j < pf.size(); j++) if (pf[j].revents) {
      Kid &k = kids[ix[j]];
      char b[65536]; ssize_t n = read(k.fd, b, sizeof b);
      if (n > 0) k.buf.append(b, (size_t)n);
      if (n <= 0 || (k.buf.size() >= 2 && k.buf.compare(k.buf.size() - 2, 2, "E\n") == 0)) {
        k.done = true;
        if (k.buf.empty() || k.buf[0] == '?') continue;
        if (k.buf.size() < 2 || k.buf.compare(k.buf.size() - 2, 2, "E\n") != 0) continue;
        have = true;
        if (k.buf[0] == 'U') { res = Res::UNSAT; break; }
        res = Res::SAT;
        if (m) {
          m->valid = true;
          size_t pos = 0;
          while (pos < k.buf.size()) {
            size_t e = k.buf.find('\n', pos); std::string l = k.buf.substr(pos, e - pos); pos = e + 1;
            if (l[0] == 'b' || l[0] == 'r') {
              size_t sp = l.find(' ', 2); uint32_t id = (uint32_t)strtoul(l.c_str() + 2, nullptr, 10); std::string v = l.substr(sp + 1);
              if (l[0] == 'b') m->bv[id] = strtoull(v.c_str(), nullptr, 10); else { mpq_class q; q.set_str(v, 10); m->r[id] = q; }
            }
          }
        }
        break;
      }
    }
  }
  for (auto &k : kids) { kill(k.pid, SIGKILL); int st; waitpid(k.pid, &st, 0); close(k.fd); }
  return res;
}
Res solverCheck(const std::vector<N> &conj0, Model *m, double timeoutS) {
  std::vector<N> conj;
  for (auto c : conj0) { if (isFalse(c)) return Res::UNSAT; if (!isTrue(c)) conj.push_back(c); }
  if (conj.empty()) { if (m) m->valid = true; return Res::SAT; }
  initC();
  double t0 = nowS();
  if (g_deadline > 0) timeoutS = std::min(timeoutS, std::max(0.5, g_deadline - t0));
  Problem P; build(conj, P);
  Res res = Res::UNKNOWN;
  if (P.fp || P.nl || (P.real && P.bv && timeoutS > 5)) {
    res = forkSolve(P, m, timeoutS, P.real && !P.bv);
  } else {
    try {
      z3::solver s = P.real ? z3::solver(*C) : z3::solver(*C, "QF_BV");
      z3::params p(*C); p.set("rlimit", (unsigned)std::min(4e9, timeoutS * 8e6)); s.set(p);
      s.add(P.as);
      auto r = s.check();
      if (r == z3::unknown) res = forkSolve(P, m, timeoutS, P.real && !P.bv);
      else if (r == z3::unsat) res = Res::UNSAT;
      else { res = Res::SAT; z3::model md = s.get_model(); extract(md, P, m); }
    } catch (z3::exception &e) { fprintf(stderr, "z3: %s\n", e.msg()); }
  }
  double dt = nowS() - t0;
  g_sstats.queries++; g_sstats.time += dt; g_sstats.maxq = std::max(g_sstats.maxq, dt);
  if (res == Res::SAT) g_sstats.sat++; else if (res == Res::UNSAT) g_sstats.unsat++; else g_sstats.unknown++;
  return res;
}
std::string smtDump(const std::vector<N> &conj) {
  initC(); Problem P; build(conj, P); z3::solver s(*C); s.add(P.as); return s.to_smt2();
}
std::vector<N> slice(const std::vector<N> &pc, const std::vector<N> &seed) {
  std::vector<uint64_t> vs;
  auto orIn = [&](const std::vector<uint64_t> &o) { if (o.size() > vs.size()) vs.resize(o.size()); for (size_t i = 0; i < o.size(); i++) vs[i] |= o[i]; };
  auto hit = [&](const std::vector<uint64_t> &o) { for (size_t i = 0; i < std::min(o.size(), vs.size()); i++) if (o[i] & vs[i]) return true; return false; };
  for (auto s : seed) orIn(varSet(s));
  std::vector<char> in(pc.size());
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!in[i] && hit(varSet(pc[i]))) { in[i] = 1; orIn(varSet(pc[i])); ch = true; }
  }
  std::vector<N> r;
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) r.push_back(pc[i]);
  return r;
}
