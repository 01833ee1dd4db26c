#include "engine.hpp"
#include "evald.hpp"
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <sys/file.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

static uint64_t hstr(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
static void appendFile(const std::string &path, const std::string &s) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd < 0) return;
  flock(fd, LOCK_EX); size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) break; o += (size_t)k; }
  flock(fd, LOCK_UN); close(fd);
}
static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c == '\n') r += "\\n"; else if (c < 32) r += ' '; else r += (char)c; }
  return r + "\"";
}

std::string Engine::where() {
  std::string s;
  int k = 0;
  for (size_t i = st.size(); i-- > 0 && k < 12;) {
    Frame &f = st[i]; if (f.ip == 0) continue;
    Instruction *I = f.fi->blocks[(size_t)f.bb].ins[f.ip - 1].I;
    const DebugLoc &dl = I->getDebugLoc();
    const DILocation *L = dl ? dl.get() : nullptr;
    while (L && k < 12) {
      std::string fn = L->getFilename().str();
      if (fn.find("/repo/") != std::string::npos || fn.find("harness/") != std::string::npos) { s += (s.empty() ? "" : " <- ") + fn.substr(fn.find("/repo/") != std::string::npos ? fn.find("/repo/") + 6 : 0) + ":" + std::to_string(L->getLine()); k++; }
      L = L->getInlinedAt();
    }
  }
  return s;
}
bool Engine::siteOk(const std::string &key) {
  uint64_t h = hstr(entry + "|" + key) | 1;
  for (int i = 0; i < 4096; i++) {
    int k = (int)((h + (uint64_t)i) & 4095); uint64_t z = 0;
    if (SH->siteHash[k].compare_exchange_strong(z, h) || z == h) return SH->siteCnt[k]++ < 3;
  }
  return true;
}
static uint64_t rnd(uint64_t seed, const std::string &nm) { uint64_t h = hstr(nm) ^ (seed * 0x9e3779b97f4a7c15ull); h ^= h >> 31; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; return h; }

std::string Engine::inputsText(const Model &m) {
  std::string s; char b[64];
  for (auto &in : inputs) {
    if (in.kind == 'f') {
      auto it = m.r.find(in.node->id); double d;
      if (it != m.r.end()) d = it->second.get_d(); else { auto jt = cur.r.find(in.node->id); d = jt != cur.r.end() ? jt->second.get_d() : 0; }
      snprintf(b, sizeof b, "%.17g", d);
      s += in.name + " f " + b + "\n";
    } else {
      auto it = m.bv.find(in.node->id); uint64_t u;
      if (it != m.bv.end()) u = it->second; else { auto jt = cur.bv.find(in.node->id); u = jt != cur.bv.end() ? jt->second : 0; }
      int64_t v = in.node->w < 64 ? (int64_t)(u << (64 - in.node->w)) >> (64 - in.node->w) : (int64_t)u;
      if (in.kind == 'F') { snprintf(b, sizeof b, "%.9g", fpD(u, in.node->w)); s += in.name + " f " + b + "\n"; continue; }
      if (in.kind == 'b') v = (int64_t)(u & 255);
      snprintf(b, sizeof b, "%lld", (long long)v);
      s += in.name + " i " + b + "\n";
    }
  }
  return s;
}
void Engine::candidate(const std::string &kind, const std::string &msg, const std::vector<Model> &models) {
  int id = SH->ncand++;
  std::string o = "{\"id\": " + std::to_string(id) + ", \"entry\": " + js(entry) + ", \"kind\": " + js(kind) + ", \"msg\": " + js(msg) + ", \"where\": " + js(where()) + ", \"inputs\": [";
  for (size_t i = 0; i < models.size(); i++) o += (i ? ", " : "") + js(inputsText(models[i]));
  o += "]}\n";
  appendFile(outDir + "/cand.jsonl", o);
  if (SH->ncand >= 40) SH->stop = 1;
}
void Engine::violationHere(const std::string &kind, const std::string &msg) {
  if (inProbe) return;
  if (!siteOk(kind + msg + where())) return;
  std::vector<Model> ms;
  Model m; Res r = solverCheck(pc, &m, 20);
  if (r == Res::UNSAT) return;                       // infeasible after all
  // prefer small input values
  std::vector<N> nice = pc;
  for (auto &in : inputs) if (in.kind == 'f') { N p = rSub(mkReal(0), mkReal(0)); (void)p; }
  ms.push_back(r == Res::SAT ? m : cur);
  candidate(kind, msg, ms);
}
void Engine::incomplete(const std::string &why) {
  SH->incomplete++;
  int i = SH->nreasons++;
  std::string w = entry + ": " + why + " @ " + where();
  if (i < 64) { strncpy(SH->reasons[i], w.c_str(), 239); SH->reasons[i][239] = 0; }
  throw Stop();
}
void Engine::endProcess() {
  SH->instrs += icount - icflush;
  SH->q += (long)g_sstats.queries; SH->qsat += (long)g_sstats.sat; SH->qunsat += (long)g_sstats.unsat; SH->qunk += (long)g_sstats.unknown; SH->qforked += (long)g_sstats.forked;
  SH->qus += (long)(g_sstats.time * 1e6);
  long mx = (long)(g_sstats.maxq * 1e6), o = SH->qmaxus.load(); while (mx > o && !SH->qmaxus.compare_exchange_weak(o, mx)) {}
  if (!notes.empty()) { std::string s; for (auto &n : notes) s += n + "\n"; appendFile(outDir + "/notes.txt", s); }
  if (ownsSlot) SH->slots++;
  for (auto p : kids) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { SH->incomplete++; int i = SH->nreasons++; if (i < 64) snprintf(SH->reasons[i], 239, "%s: explorer process died (status %d)", entry.c_str(), stt); } }
  _exit(0);
}
void Engine::fork2(const std::function<void()> &child) {
  SH->forks++;
  if (nowS() > g_deadline) incomplete("time budget exhausted");
  bool async = false;
  int s = SH->slots.load();
  while (s > 0) if (SH->slots.compare_exchange_weak(s, s - 1)) { async = true; break; }
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { if (async) SH->slots++; incomplete("fork failed"); }
  if (p == 0) {
    kids.clear(); g_sstats = SolverStats(); icflush = icount; notes.clear();
    ownsSlot = async;
    child();
    return;
  }
  if (async) kids.push_back(p);
  else { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { SH->incomplete++; int i = SH->nreasons++; if (i < 64) snprintf(SH->reasons[i], 239, "%s: explorer process died (status %d)", entry.c_str(), stt); } }
}
static void mergeModel(Model &a, const Model &b) { for (auto &k : b.bv) a.bv[k.first] = k.second; for (auto &k : b.r) a.r[k.first] = k.second; }

bool Engine::feasible(N cond) {
  if (isTrue(cond)) return true;
  if (isFalse(cond)) return false;
  { Evaluator ev(cur); auto e = ev.ev(cond); if (e.ok && e.u) return true; }
  auto conj = slice(pc, {cond}); conj.push_back(cond);
  return solverCheck(conj, nullptr, 20) != Res::UNSAT;
}
bool Engine::decide(N cond) {
  if (isTrue(cond)) return true;
  if (isFalse(cond)) return false;
  Evaluator ev(cur); auto e = ev.ev(cond);
  auto base = slice(pc, {cond});
  bool canT = false, canF = false; Model mt, mf;
  if (e.ok) { if (e.u) { canT = true; mt = cur; } else { canF = true; mf = cur; } }
  if (!canT) { auto c = base; c.push_back(cond); Model m; Res r = solverCheck(c, &m, 20); if (r == Res::SAT) { canT = true; mt = cur; mergeModel(mt, m); } else if (r == Res::UNKNOWN) { canT = true; mt = cur; notes.insert("some branch feasibility was undecided (both sides explored)"); } }
  if (!canF) { auto c = base; c.push_back(mkNot(cond)); Model m; Res r = solverCheck(c, &m, 20); if (r == Res::SAT) { canF = true; mf = cur; mergeModel(mf, m); } else if (r == Res::UNKNOWN) { canF = true; mf = cur; notes.insert("some branch feasibility was undecided (both sides explored)"); } }
  if (!canT && !canF) { SH->infeasible++; throw Stop(); }
  if (canT && canF) {
    bool first = true;   // parent takes true
    bool isChild = false;
    fork2([&] { isChild = true; });
    if (isChild) { pc.push_back(mkNot(cond)); cur = mf; return false; }
    if (SH->stop.load()) throw Stop();
    pc.push_back(cond); cur = mt; return first;
  }
  // implied: remember it only when it helps later simplification
  if (canT) { cur = mt; return true; }
  cur = mf; return false;
}
void Engine::assume(N cond) {
  if (isTrue(cond)) return;
  if (isFalse(cond)) { SH->infeasible++; throw Stop(); }
  Evaluator ev(cur); auto e = ev.ev(cond);
  if (!(e.ok && e.u)) {
    auto c = slice(pc, {cond}); c.push_back(cond); Model m; Res r = solverCheck(c, &m, 30);
    if (r == Res::UNSAT) { SH->infeasible++; throw Stop(); }
    if (r == Res::SAT) mergeModel(cur, m);
  }
  pc.push_back(cond);
}
uint64_t Engine::concretize(const Val &v, const char *why, int limit) {
  if (v.k == Val::I) return v.u;
  N n = toBV(v);
  std::vector<uint64_t> leaves;
  for (int i = 0; i < limit; i++) {
    Evaluator ev(cur); auto e = ev.ev(n); uint64_t val;
    if (e.ok) val = e.u;
    else {
      Model m; auto c = slice(pc, {n}); N dummy = mkEq(n, n); (void)dummy;
      c.push_back(mkUle(mkBV(0, n->w), n));
      Res r = solverCheck(c, &m, 20); if (r != Res::SAT) incomplete(std::string("cannot concretise ") + why);
      mergeModel(cur, m); Evaluator e2(cur, true); auto x = e2.ev(n); if (!x.ok) incomplete(std::string("cannot evaluate ") + why); val = x.u;
    }
    if (decide(mkEq(n, mkBV(val, n->w)))) return val;
  }
  incomplete(std::string("too many values for ") + why);
}

bool Engine::probe(const std::vector<N> &conj, Model &m) {
  // numeric search over the variables of conj, evaluating with the true functions
  std::vector<uint64_t> vs;
  for (auto c : conj) { auto &o = varSet(c); if (o.size() > vs.size()) vs.resize(o.size()); for (size_t i = 0; i < o.size(); i++) vs[i] |= o[i]; }
  static uint64_t rs = 88172645463325252ull + seed;
  auto nxt = [&] { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
  for (int t = 0; t < 400; t++) {
    EvalD ed;
    for (size_t i = 0; i < vs.size() * 64; i++) if (vs[i / 64] >> (i % 64) & 1) {
      auto &v = g_vars[i];
      if (v.sort == S::REAL) {
        double d; auto it = cur.r.find(v.node->id);
        if (it != cur.r.end() && (t % 4 == 0) && t) d = it->second.get_d() + ((double)(int64_t)(nxt() % 17) - 8) / 16;
        else if (it != cur.r.end() && t == 0) d = it->second.get_d();
        else d = ((double)(int64_t)(nxt() % 65) - 32) / (t % 3 == 0 ? 8 : 16);
        ed.r[v.node->id] = d;
      } else { auto it = cur.bv.find(v.node->id); uint64_t u = it != cur.bv.end() ? it->second : 0; if (t % 2 && v.ranged) u = (uint64_t)(v.lo + (int64_t)(nxt() % (uint64_t)(v.hi - v.lo + 1))); if (v.w < 64) u &= (1ull << v.w) - 1; ed.bv[v.node->id] = u; }
    }
    bool ok = true;
    for (auto c : conj) { auto &e = ed.ev(c); if (!e.ok || !e.u) { ok = false; break; } }
    if (ok) { m = Model(); m.valid = true; for (auto &k : ed.bv) m.bv[k.first] = k.second; for (auto &k : ed.r) m.r[k.first] = mpq_class(k.second); return true; }
  }
  return false;
}
// Is pc && extra && neg satisfiable?  Case-splits on ite conditions when the arithmetic is non-linear.
Res Engine::refute(N neg, Model &m, std::vector<N> extra, double tmo, int &budget) {
  if (isFalse(neg)) return Res::UNSAT;
  std::vector<N> seed = extra; seed.push_back(neg);
  auto conj = slice(pc, seed);
  for (auto e : extra) conj.push_back(e);
  conj.push_back(neg);
  bool nl = isNonlinear(neg);
  std::vector<N> conds;
  if (nl) collectIteConds(neg, conds, 200);
  if (!nl || conds.empty()) {
    Res r = solverCheck(conj, &m, tmo);
    if (r == Res::UNKNOWN && probe(conj, m)) return Res::SAT;
    return r;
  }
  if (--budget < 0) return Res::UNKNOWN;
  // choose a condition without nested ites
  N c = nullptr;
  for (auto x : conds) { std::vector<N> in; collectIteConds(x, in, 2); if (in.empty() && !isNonlinear(x)) { c = x; break; } }
  if (!c) for (auto x : conds) { std::vector<N> in; collectIteConds(x, in, 2); if (in.empty()) { c = x; break; } }
  if (!c) c = conds[0];
  bool unk = false;
  for (int b = 1; b >= 0; b--) {
    N cc = b ? c : mkNot(c);
    auto fe = slice(pc, {cc}); std::vector<N> s2 = extra; s2.push_back(cc);
    fe = slice(pc, s2); for (auto e : extra) fe.push_back(e); fe.push_back(cc);
    Res fr = solverCheck(fe, nullptr, 10);
    if (fr == Res::UNSAT) continue;
    std::unordered_map<N, N> memo; N sub = substitute(neg, c, b, memo);
    auto ex2 = extra; ex2.push_back(cc);
    Res r = refute(sub, m, ex2, tmo, budget);
    if (r == Res::SAT) return r;
    if (r == Res::UNKNOWN) unk = true;
  }
  return unk ? Res::UNKNOWN : Res::UNSAT;
}
static N boundAll(Engine &E, N about, const mpq_class &B) {
  auto &vs = varSet(about); N r = mkTrue();
  for (size_t i = 0; i < vs.size() * 64; i++) if (vs[i / 64] >> (i % 64) & 1) {
    auto &v = g_vars[i]; if (v.sort != S::REAL) continue;
    N x = nullptr;
    for (auto &in : E.inputs) if (in.node == v.node) { x = v.node; break; }
    if (!x) continue;
    // poly of the atom
    N px = polyOf(v.node);
    r = mkAnd(r, mkAnd(rLe(px, mkReal(B)), rLe(mkReal(-B), px)));
  }
  return r;
}
void Engine::check(N cond, const std::string &msg) {
  SH->checks++;
  if (isTrue(cond)) { SH->checksNF++; return; }
  N neg = mkNot(cond);
  Model m; int bud = 20000;
  Res r = refute(neg, m, {}, 40, bud);
  if (r == Res::UNSAT) return;
  if (r == Res::UNKNOWN) { SH->incomplete++; int i = SH->nreasons++; if (i < 64) snprintf(SH->reasons[i], 239, "%s: undecided check: %s", entry.c_str(), msg.c_str()); return; }
  if (siteOk(msg)) {
    std::vector<Model> ms;
    for (double B : {4.0, 64.0}) { Model m2; int b2 = 500; Res r2 = refute(neg, m2, {boundAll(*this, neg, mpq_class(B))}, 5, b2); if (r2 == Res::SAT) { ms.push_back(m2); break; } }
    ms.push_back(m);
    candidate("check", msg, ms);
  }
  // go on under the assumption that the check held
  if (isFalse(cond)) throw Stop();
  auto c = slice(pc, {cond}); c.push_back(cond); Model m3; Res r3 = solverCheck(c, &m3, 20);
  if (r3 == Res::UNSAT) throw Stop();
  if (r3 == Res::SAT) mergeModel(cur, m3);
  pc.push_back(cond);
}
void Engine::checkEqf(const Val &a, const Val &b, const std::string &msg) {
  SH->checks++;
  observed.push_back({msg, a});
  auto nonF = [](const Val &v) { return v.k == Val::F && !std::isfinite(fD(v)); };
  if (fpm) {   // equal up to a relative and absolute tolerance of 2^-10, as the native comparison
    SH->checks--; observed.pop_back();
    N x = fpB(a), y = fpB(b); if (x == y) { SH->checks++; SH->checksNF++; return; }
    auto ab = [&](N v) { return mkBin(Op::BAND, v, mkBV((1ull << (v->w - 1)) - 1, v->w)); };
    N tol = fpBin(Op::FMUL, mkBV(fpU(1.0 / 1024, x->w), x->w), fpBin(Op::FADD, mkBV(fpU(1, x->w), x->w), ab(y)));
    check(mkOr(fpLe(ab(fpBin(Op::FSUB, x, y)), tol), fpEq(x, y)), msg); return;
  }
  if (nonF(a) || nonF(b)) {
    bool eq = a.k == Val::F && b.k == Val::F && (fD(a) == fD(b) || (std::isnan(fD(a)) && std::isnan(fD(b))));
    if (!eq && siteOk(msg)) candidate("check", msg + " (one side is not finite)", {cur});
    return;
  }
  N x = toR(a), y = toR(b), d = rSub(x, y);
  mpq_class q;
  if (rIsConst(d, &q) && q == 0) { SH->checksNF++; return; }
  if (rIsConst(d, &q) && rIsConst(y) ) {   // two constants: rounding-level differences are not violations
    mpq_class yy; rIsConst(y, &yy);
    double dd = std::fabs(q.get_d()), mag = std::fabs(yy.get_d());
    if (dd <= 1e-6 * (1e-6 + mag)) { SH->checksTol++; return; }
    if (siteOk(msg)) candidate("check", msg, {cur});
    return;
  }
  N neg = mkNot(rEq(d, mkReal(0)));
  Model m; int bud = 20000;
  Res r = refute(neg, m, {}, 40, bud);
  if (r == Res::UNSAT) return;
  if (r == Res::UNKNOWN) { SH->incomplete++; int i = SH->nreasons++; if (i < 64) snprintf(SH->reasons[i], 239, "%s: undecided check: %s", entry.c_str(), msg.c_str()); return; }
  if (!siteOk(msg)) return;
  std::vector<Model> ms; bool allUnsat = true;
  struct { double B, mar; } tiers[] = {{4, 0.25}, {16, 0.0625}, {256, 0.01}};
  for (auto &t : tiers) {
    N mg = mkReal(mpq_class(t.mar));
    N far = mkOr(rLt(mg, d), rLt(d, rNeg(mg)));
    Model m2; int b2 = 2000;
    Res r2 = refute(far, m2, {boundAll(*this, d, mpq_class(t.B))}, 8, b2);
    if (r2 == Res::SAT) { ms.push_back(m2); allUnsat = false; break; }
    if (r2 == Res::UNKNOWN) allUnsat = false;
  }
  if (allUnsat) { SH->checksTol++; return; }
  ms.push_back(m);
  // numeric probing as a further source of replay inputs
  { Model pm; std::vector<N> cj = slice(pc, {neg}); cj.push_back(mkOr(rLt(mkReal(mpq_class(1, 64)), d), rLt(d, mkReal(mpq_class(-1, 64))))); if (probe(cj, pm)) ms.push_back(pm); }
  candidate("check", msg, ms);
}
void Engine::finishPath() {
  SH->paths++;
  int w = SH->nwit.load();
  bool take = w < SH->nwitMax && (w < 6 || rnd(seed, std::to_string(getpid()) + entry) % 3 == 0);
  if (!take) return;
  EvalD ed; for (auto &k : cur.bv) ed.bv[k.first] = k.second; for (auto &k : cur.r) ed.r[k.first] = k.second.get_d();
  // the native run sees float inputs
  for (auto &in : inputs) if (in.kind == 'f') { auto it = ed.r.find(in.node->id); if (it != ed.r.end()) it->second = (double)(float)it->second; }
  for (auto c : pc) { auto &e = ed.ev(c); if (!e.ok || !e.u) return; }
  if (SH->nwit++ >= SH->nwitMax) return;
  std::string o = "{\"entry\": " + js(entry) + ", \"inputs\": " + js(inputsText(cur)) + ", \"expect\": [";
  int n = 0;
  for (auto &p : observed) {
    double d = NAN; bool ok = true;
    if (p.second.k == Val::F) d = fD(p.second); else { auto &e = ed.ev(p.second.n); ok = e.ok; d = e.d; }
    if (!ok || !std::isfinite(d)) { o += (n++ ? ", " : "") + std::string("null"); continue; }
    char b[40]; snprintf(b, sizeof b, "%.9g", d); o += (n++ ? ", " : "") + std::string(b);
    if (n > 4000) break;
  }
  o += "]}\n";
  appendFile(outDir + "/wit.jsonl", o);
}
void Engine::runEntry(const std::string &fn) {
  entry = fn;
  try {
    // static constructors of the program under test
    if (auto *g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto *arr = dyn_cast<ConstantArray>(g->getInitializer())) {
      std::vector<std::pair<uint64_t, Function *>> cs;
      for (auto &o : arr->operands()) { auto *s = cast<ConstantStruct>(o.get()); if (auto *F = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), F}); }
      std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
      for (auto &c : cs) callSync(c.second, {});
    }
    Function *F = M->getFunction(fn);
    if (!F) incomplete("no such entry");
    callSync(F, {});
    finishPath();
  } catch (Stop &) {
  } catch (std::exception &e) {
    SH->incomplete++; int i = SH->nreasons++; if (i < 64) snprintf(SH->reasons[i], 239, "%s: internal error: %s", fn.c_str(), e.what());
  }
  endProcess();
}
