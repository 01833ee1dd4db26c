#include <unistd.h>
#include "engine.hpp"
#include <cmath>
#include <cstring>
using namespace llvm;
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static inline uint64_t msk(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static Val agg(std::vector<Val> e) { Val v; v.k = Val::AGG; v.a = std::make_shared<std::vector<Val>>(std::move(e)); return v; }
static uint64_t hstr(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

static const std::unordered_map<std::string, std::string> MATH = {
  {"exp", "exp"}, {"expf", "exp"}, {"log", "log"}, {"logf", "log"}, {"sqrt", "sqrt"}, {"sqrtf", "sqrt"}, {"fabs", "fabs"}, {"fabsf", "fabs"},
  {"floor", "floor"}, {"floorf", "floor"}, {"ceil", "ceil"}, {"ceilf", "ceil"}, {"trunc", "trunc"}, {"truncf", "trunc"}, {"round", "round"}, {"roundf", "round"},
  {"tanh", "tanh"}, {"tanhf", "tanh"}, {"expm1", "expm1"}, {"expm1f", "expm1"}, {"log1p", "log1p"}, {"log1pf", "log1p"}, {"exp2", "exp2"}, {"exp2f", "exp2"}, {"log2", "log2"}, {"log2f", "log2"}, {"log10", "log10"}, {"log10f", "log10"},
  {"sin", "sin"}, {"sinf", "sin"}, {"cos", "cos"}, {"cosf", "cos"}, {"rint", "rint"}, {"rintf", "rint"}, {"nearbyint", "rint"}, {"nearbyintf", "rint"}};

static N bindName(Engine &E, const std::string &nm0, std::string &nm) { int k = E.nameCnt[nm0]++; nm = nm0 + "#" + std::to_string(k); return nullptr; }
static double niceReal(uint64_t seed, const std::string &nm) { uint64_t h = hstr(nm) ^ (seed * 0x9e3779b97f4a7c15ull); h ^= h >> 31; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; int k = (int)(h % 32) - 16; if (k >= 0) k++; return k / 8.0; }

static Val symFloat(Engine &E, const std::string &nm0, unsigned w) {
  std::string nm; bindName(E, nm0, nm);
  if (E.fpm) { N v = mkBVVar(nm, w); E.inputs.push_back({nm, v, 'F'}); E.cur.bv[v->id] = fpU(niceReal(E.seed, nm), w); E.cur.valid = true; return E.fromFP(v); }
  N p = mkRVar(nm); N at = asPoly(p).t[0].m.f[0].first;
  E.inputs.push_back({nm, at, 'f'});
  E.cur.r[at->id] = mpq_class(niceReal(E.seed, nm)); E.cur.valid = true;
  return E.fromR(p, w);
}
static Val symInt(Engine &E, const std::string &nm0, int64_t lo, int64_t hi) {
  std::string nm; bindName(E, nm0, nm);
  if (lo == hi) { return mkI((uint64_t)lo, 64); }
  bool small = lo >= INT32_MIN && hi <= INT32_MAX;
  N v = mkRangedVar(nm, small ? 32 : 64, lo, hi);
  E.inputs.push_back({nm, v, 'i'});
  uint64_t h = hstr(nm) ^ (E.seed * 77777777777ull); h ^= h >> 29;
  int64_t init = lo + (int64_t)(hi - lo < 0 ? 0 : h % ((uint64_t)(hi - lo) + 1 ? (uint64_t)(hi - lo) + 1 : 1));
  E.cur.bv[v->id] = msk((uint64_t)init, v->w); E.cur.valid = true;
  return E.fromBV(small ? mkSext(v, 64) : v);
}

bool Engine::builtin(Function *F, const std::string &name, std::vector<Val> &a, const DInst &d, Val &ret, bool &handled) {
  handled = true;
  auto I = [&](size_t i) { return conc(a[i], name.c_str()); };
  // ---- harness interface
  if (name.compare(0, 3, "dw_") == 0) {
    if (name == "dw_sym_int") { ret = symInt(*this, cstr(I(0)), (int64_t)I(1), (int64_t)I(2)); return true; }
    if (name == "dw_sym_float") { ret = symFloat(*this, cstr(I(0)), 32); return true; }
    if (name == "dw_sym_floats") { std::string nm = cstr(I(0)); uint64_t p = I(1), n = I(2); for (uint64_t i = 0; i < n; i++) storeS(p + 4 * i, symFloat(*this, nm, 32)); return true; }
    if (name == "dw_sym_bytes") {
      std::string nm0 = cstr(I(0)); uint64_t p = I(1), n = I(2);
      for (uint64_t i = 0; i < n; i++) { std::string nm; bindName(*this, nm0, nm); N v = mkBVVar(nm, 8); inputs.push_back({nm, v, 'b'}); cur.bv[v->id] = hstr(nm) & 255; storeS(p + i, fromBV(v)); }
      return true;
    }
    if (name == "dw_assume") { assume(toBool(a[0])); return true; }
    if (name == "dw_check") { std::string m = cstr(I(1)); check(toBool(a[0]), m); return true; }
    if (name == "dw_check_eqf") { checkEqf(a[0], a[1], cstr(I(2))); return true; }
    if (name == "dw_split") { ret = mkI(concretize(a[0], "dw_split"), 64); return true; }
    if (name == "dw_fail") { std::string m = cstr(I(0)); SH->checks++; violationHere("check", m); throw Stop(); }
    if (name == "dw_heap_live") { ret = mkI((uint64_t)heapLive, 64); return true; }
    if (name == "dw_symbolic") { ret = mkI(1, 32); return true; }
    if (name == "dw_bit_precise") { fpm = a[0].u != 0; return true; }
    if (name == "dw_text_begin") { text[I(0)].clear(); return true; }
    if (name == "dw_text_float" || name == "dw_text_int") { uint64_t k = I(0); if (k >= textVals.size()) incomplete("recorded text"); ret = textVals[k]; if (name == "dw_text_int" && ret.w < 64) ret = fromBV(mkSext(toBV(ret), 64)); return true; }
    if (name == "dw_text_take") { std::string &t = text[I(0)]; if (!I(2)) { ret = mkI(t.size(), 64); return true; } uint64_t n = std::min<uint64_t>(t.size(), I(2)); if (n) writeBytes(I(1), (const uint8_t *)t.data(), n); if (t.size() > n) incomplete("recorded text is too long"); t.clear(); ret = mkI(n, 64); return true; }
    if (name == "dw_exp_ieee") { expIeee = a[0].u != 0; return true; }
    if (name == "dw_exp_limit") { expLimit = fD(a[0]); return true; }
    if (name == "dw_stop") { finishPath(); throw Stop(); }
    if (name == "dw_reach") {
      std::string m = cstr(I(0)); SH->reach++;
      uint64_t h = hstr(m) | 1;
      for (int i = 0; i < 1024; i++) { int k = (int)((h + (uint64_t)i) & 1023); uint64_t z = 0; if (SH->reachHash[k].compare_exchange_strong(z, h) || z == h) { if (!z) strncpy(SH->reachName[k], m.c_str(), 63); SH->reachCnt[k]++; break; } }
      return true;
    }
    if (name == "dw_race_on") { race = true; for (auto &G : M->globals()) if (G.getName() == "__libc_single_threaded") { uint8_t zero = 0; writeBytes(gaddr[&G], &zero, 1); } return true; }
    if (name == "dw_trace") {
      std::string s;
      for (size_t i = 1; i < a.size(); i++) { if (a[i].k == Val::I) s += " " + std::to_string((long long)sx(a[i].u, a[i].w)); else if (a[i].k == Val::F) s += " " + std::to_string(fD(a[i])); else if (a[i].n) s += " " + toStr(a[i].n); }
      fprintf(stderr, "[%d] %s%s\n", getpid(), cstr(I(0)).c_str(), s.c_str()); return true; }
    incomplete("unknown harness call " + name);
  }
  // ---- allocation
  auto doAlloc = [&](const Val &sz, int kind) -> Val {
    if (sz.k != Val::I) {
      // an allocation beyond the address-space limit throws; otherwise the size stays symbolic
      N n = toBV(sz);
      if (kind && decide(mkUlt(mkBV(1ull << 46, 64), n))) { Function *bt = M->getFunction("dw_rt_throw_bad_alloc"); if (!bt) incomplete("symbolic allocation size"); pushCall(bt, {}, -1, &d); return Val(); }
      uint64_t p = alloc(0, Obj::HEAP, "heap"); Obj *o = objOf(p); o->symSize = n; o->akind = (uint8_t)kind; return mkI(p, 64);
    }
    if (sz.u > (1ull << 31)) {
      if (kind) { Function *bt = M->getFunction("dw_rt_throw_bad_alloc"); if (!bt) incomplete("huge allocation"); if (sz.u > (1ull << 46)) { pushCall(bt, {}, -1, &d); return Val(); } }
      // large but addressable: contents are not modelled unless accessed
      uint64_t p = alloc(0, Obj::HEAP, "heap"); Obj *o = objOf(p); o->size = 0; o->symSize = mkBV(sz.u, 64); o->akind = (uint8_t)kind; return mkI(p, 64);
    }
    uint64_t p = alloc(sz.u, Obj::HEAP, "heap"); objOf(p)->akind = (uint8_t)kind; return mkI(p, 64);
  };
  if (name == "_Znwm" || name == "_ZnwmRKSt9nothrow_t" || name == "_ZnwmSt11align_val_t") { ret = doAlloc(a[0], 1); return true; }
  if (name == "_Znam" || name == "_ZnamRKSt9nothrow_t" || name == "_ZnamSt11align_val_t") { ret = doAlloc(a[0], 2); return true; }
  if (name == "_ZdlPv" || name == "_ZdlPvm" || name == "_ZdlPvSt11align_val_t" || name == "_ZdlPvmSt11align_val_t" || name == "_ZdlPvRKSt9nothrow_t") { freeObj(I(0), 1, "delete"); return true; }
  if (name == "_ZdaPv" || name == "_ZdaPvm" || name == "_ZdaPvSt11align_val_t" || name == "_ZdaPvRKSt9nothrow_t") { freeObj(I(0), 2, "delete[]"); return true; }
  if (name == "malloc") { ret = doAlloc(a[0], 0); return true; }
  if (name == "calloc") { uint64_t n = I(0) * I(1); ret = doAlloc(mkI(n, 64), 0); setMem(ret.u, mkI(0, 8), n); return true; }
  if (name == "aligned_alloc") { ret = doAlloc(a[1], 0); return true; }
  if (name == "posix_memalign") { Val p = doAlloc(a[2], 0); storeS(I(0), p); ret = mkI(0, 32); return true; }
  if (name == "free") { freeObj(I(0), 0, "free"); return true; }
  if (name == "realloc") {
    uint64_t p = I(0), n = I(1); Val q = doAlloc(mkI(n, 64), 0);
    if (p) { Obj *o = access(p, 0, false, "realloc"); copyMem(q.u, p, std::min(n, o->size)); freeObj(p, 0, "free"); }
    ret = q; return true;
  }
  // ---- memory and strings
  if (name == "memcpy" || name == "memmove" || name == "__memcpy_chk" || name == "__memmove_chk") { copyMem(I(0), I(1), I(2)); ret = a[0]; return true; }
  if (name == "memset") { setMem(I(0), bits(a[1], 0, 8), I(2)); ret = a[0]; return true; }
  if (name == "strlen") { ret = mkI(cstr(I(0)).size(), 64); return true; }
  if (name == "memcmp" || name == "bcmp" || name == "strcmp" || name == "strncmp") {
    uint64_t p = I(0), q = I(1), n = name == "strcmp" ? (1u << 20) : I(2); bool str = name[0] == 's';
    for (uint64_t i = 0; i < n; i++) {
      Val x = loadS(p + i, 1, 8), y = loadS(q + i, 1, 8);
      Val ne = icmp(CmpInst::ICMP_NE, x, y);
      bool t = ne.k == Val::I ? ne.u : decide(toBool(ne));
      if (t) { Val lt = icmp(CmpInst::ICMP_ULT, x, y); bool l = lt.k == Val::I ? lt.u : decide(toBool(lt)); ret = mkI(l ? ~0ull : 1, 32); return true; }
      if (str) { Val z = icmp(CmpInst::ICMP_EQ, x, mkI(0, 8)); bool e = z.k == Val::I ? z.u : decide(toBool(z)); if (e) break; }
    }
    ret = mkI(0, 32); return true;
  }
  if (name == "memchr") { uint64_t p = I(0), n = I(2); uint8_t c = (uint8_t)I(1); for (uint64_t i = 0; i < n; i++) if ((uint8_t)conc(loadS(p + i, 1, 8), "memchr") == c) { ret = mkI(p + i, 64); return true; } ret = mkI(0, 64); return true; }
  // ---- math
  { auto it = MATH.find(name); if (it != MATH.end()) { ret = fun1(it->second, a[0], d.tw); return true; } }
  if (name == "pow" || name == "powf") { ret = fpow(a[0], a[1], d.tw); return true; }
  if (name == "fmax" || name == "fmaxf") { ret = iteVal(toBool(fcmp(CmpInst::FCMP_OLT, a[0], a[1])), a[1], a[0]); return true; }
  if (name == "fmin" || name == "fminf") { ret = iteVal(toBool(fcmp(CmpInst::FCMP_OLT, a[1], a[0])), a[1], a[0]); return true; }
  if (name == "fma" || name == "fmaf") { ret = fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1]), a[2]); return true; }
  if (name == "fmod" || name == "fmodf") { ret = fbin(Instruction::FRem, a[0], a[1]); return true; }
  // ---- C++ runtime
  if (name == "__cxa_allocate_exception") { ret = mkI(alloc(I(0), Obj::EXN, "exception"), 64); return true; }
  if (name == "__cxa_free_exception" || name == "__cxa_guard_abort") return true;
  if (name == "__cxa_throw") { exnPtr = I(0); exnType[exnPtr] = I(1); exnDtor[exnPtr] = I(2); inFlight.insert(exnPtr); unwind(); return false; }
  if (name == "__cxa_begin_catch") { caught.push_back(I(0)); inFlight.erase(I(0)); ret = a[0]; return true; }
  if (name == "__cxa_get_exception_ptr") { ret = a[0]; return true; }
  if (name == "__cxa_end_catch") {
    if (caught.empty()) return true;
    uint64_t p = caught.back(); caught.pop_back();
    if (inFlight.count(p) || std::find(caught.begin(), caught.end(), p) != caught.end()) return true;
    uint64_t dt = exnDtor[p]; exnDtor[p] = 0;
    Obj *o = dt ? objOf(dt) : nullptr;
    if (o && o->fn) {
      if (!o->fn->isDeclaration()) pushCall(o->fn, {mkI(p, 64)}, -1, &d);   // the last handler destroys the exception object
    }
    return true;
  }
  if (name == "__cxa_rethrow") { if (caught.empty()) { violationHere("terminate", "rethrow without exception"); throw Stop(); } exnPtr = caught.back(); inFlight.insert(exnPtr); unwind(); return false; }
  if (name == "_Unwind_Resume") { exnPtr = I(0); unwind(); return false; }
  if (name == "_ZSt9terminatev" || name == "__clang_call_terminate" || name == "abort" || name == "__cxa_pure_virtual" || name == "__assert_fail" || name == "_ZSt21__glibcxx_assert_failPKciS0_S0_" || name == "__stack_chk_fail") { violationHere("terminate", "the program calls " + name); throw Stop(); }
  if (name == "exit" || name == "_exit" || name == "quick_exit") { violationHere("terminate", "the program exits"); throw Stop(); }
  if (name == "__cxa_atexit" || name == "atexit" || name == "__cxa_thread_atexit") { ret = mkI(0, 32); return true; }
  if (name == "__cxa_guard_acquire") { struct Quiet { int &t; int s; Quiet(int &x) : t(x), s(x) { x = -1; } ~Quiet() { t = s; } } quiet(raceThread); Val g = loadS(I(0), 1, 8); bool done = g.k == Val::I && g.u; ret = mkI(done ? 0 : 1, 32); if (!done && quiet.s >= 0) { guardThread = quiet.s; quiet.s = -1; } return true; }
  if (name == "__cxa_guard_release") { storeS(I(0), mkI(1, 8)); if (guardThread >= 0) { raceThread = guardThread; guardThread = -1; } return true; } // the initialisation happens before every use
  if (name == "_ZSt18uncaught_exceptionv") { ret = mkI(0, 1); return true; }
  if (name == "__dynamic_cast") {
    // {sub, srcType, dstType, hint}: single inheritance at offset 0
    uint64_t p = I(0); if (!p) { ret = mkI(0, 64); return true; }
    uint64_t vt = conc(loadS(p, 3, 64), "vptr"); uint64_t ti = conc(loadS(vt - 8, 3, 64), "rtti"); int64_t top = (int64_t)conc(loadS(vt - 16, 1, 64), "offset");
    ret = mkI(catches(I(2), ti) ? p + (uint64_t)top : 0, 64); return true;
  }
  if (name == "_ZNSt13random_device7_M_initERKSs" || name.find("St13random_device") != std::string::npos) { if (!F->getReturnType()->isVoidTy()) ret = mkI(12345 + 7919 * (uint64_t)rdCount++, 32); return true; } // never the same value twice
  if (name == "time" || name == "clock" || name == "_ZNSt6chrono3_V212system_clock3nowEv" || name == "_ZNSt6chrono3_V212steady_clock3nowEv") { ret = mkI(1000000, 64); return true; }
  if (name == "getenv" || name == "secure_getenv") { ret = mkI(0, 64); return true; }
  if (name == "printf" || name == "puts" || name == "fprintf" || name == "fputs" || name == "putchar" || name == "fwrite_stub" || name == "fflush") { ret = mkI(0, 32); return true; }
  if (name == "_setjmp" || name == "setjmp" || name == "__sigsetjmp") {
    uint64_t buf = I(0); static uint64_t key = 0; ++key;
    Frame &f = st.back(); f.setjmpKey = key;
    storeS(buf, mkI(key, 64)); storeS(buf + 8, mkI((uint64_t)f.bb, 64)); storeS(buf + 16, mkI((uint64_t)f.ip, 64)); storeS(buf + 24, mkI((uint64_t)(int64_t)d.dst, 64));
    ret = mkI(0, 32); return true;
  }
  if (name == "longjmp" || name == "_longjmp" || name == "__longjmp_chk" || name == "siglongjmp") {
    uint64_t buf = I(0); uint64_t key = conc(loadS(buf, 1, 64), "jmp"), bb = conc(loadS(buf + 8, 1, 64), "jmp"), ip = conc(loadS(buf + 16, 1, 64), "jmp"); int64_t dst = (int64_t)conc(loadS(buf + 24, 1, 64), "jmp"); uint64_t v = I(1);
    while (!st.empty() && st.back().setjmpKey != key) popFrame();
    if (st.empty()) { incomplete("longjmp without setjmp"); }
    Frame &f = st.back(); f.bb = (int)bb; f.ip = (size_t)ip; if (dst >= 0) f.regs[(size_t)dst] = mkI(v ? v : 1, 32);
    return false;
  }
  // ---- OpenMP: eight simulated threads, one after the other; their accesses are compared per address
  if (name == "__kmpc_fork_call") {
    uint64_t fnp = I(2); Function *mt = objOf(fnp) ? objOf(fnp)->fn : nullptr; if (!mt) incomplete("omp microtask");
    std::vector<Val> args(a.begin() + 3, a.end());
    if (omp.on) { uint64_t g = alloc(4, Obj::STACK, "gtid"); storeS(g, mkI((uint64_t)omp.tid, 32)); incomplete("nested parallel region"); }
    rW.clear(); rR.clear(); raceMsg.clear();
    uint64_t g = alloc(4, Obj::STACK, "gtid");
    raceBaseObj = objs.size(); omp.on = true;
    for (omp.tid = 0; omp.tid < OMP_THREADS; omp.tid++) {
      raceThread = -1; storeS(g, mkI((uint64_t)omp.tid, 32)); raceThread = omp.tid; raceEpoch = 0;
      std::vector<Val> full{mkI(g, 64), mkI(g, 64)}; full.insert(full.end(), args.begin(), args.end());
      callSync(mt, full);
    }
    raceThread = -1; omp.on = false; omp.tid = 0;
    if (race) { SH->checks++; if (!raceMsg.empty()) { violationHere("race", raceMsg); throw Stop(); } }
    return true;
  }
  if (name.compare(0, 24, "__kmpc_for_static_init_4") == 0 || name.compare(0, 24, "__kmpc_for_static_init_8") == 0) {
    unsigned w = name.find("init_4") != std::string::npos ? 32 : 64; bool uns = name.back() == 'u';
    int sv = raceThread; raceThread = -1;
    uint64_t plast = I(3), plo = I(4), pup = I(5), pst = I(6);
    int64_t lo = (int64_t)conc(loadS(plo, 1, w), "omp"), up = (int64_t)conc(loadS(pup, 1, w), "omp"); if (!uns) { lo = sx((uint64_t)lo, w); up = sx((uint64_t)up, w); }
    int64_t inc = sx(I(7), w), chunk = sx(I(8), w); bool chunked = (I(2) & 0xffff) == 33;
    int64_t n = inc > 0 ? (up >= lo ? (up - lo) / inc + 1 : 0) : (lo >= up ? (lo - up) / -inc + 1 : 0);
    int64_t per = chunked && chunk > 0 ? chunk : (n + OMP_THREADS - 1) / OMP_THREADS; if (per < 1) per = 1;
    int64_t first = lo + omp.tid * per * inc, last = first + (per - 1) * inc;
    if (omp.tid * per >= n) { first = up + (inc > 0 ? 1 : -1); last = up; } else if (inc > 0 ? last > up : last < up) last = up;
    storeS(plo, mkI((uint64_t)first, w)); storeS(pup, mkI((uint64_t)last, w)); storeS(pst, mkI((uint64_t)(OMP_THREADS * per * inc), w)); storeS(plast, mkI(n > 0 && omp.tid == (n - 1) / per % OMP_THREADS, 32));
    raceThread = sv;
    return true;
  }
  if (name.compare(0, 22, "__kmpc_dispatch_init_4") == 0 || name.compare(0, 22, "__kmpc_dispatch_init_8") == 0) {
    unsigned w = name.find("init_4") != std::string::npos ? 32 : 64; bool uns = name.back() == 'u';
    omp.lo = uns ? (int64_t)I(3) : sx(I(3), w); omp.up = uns ? (int64_t)I(4) : sx(I(4), w); omp.inc = sx(I(5), w); omp.lo += omp.tid * omp.inc; return true;
  }
  if (name.compare(0, 22, "__kmpc_dispatch_next_4") == 0 || name.compare(0, 22, "__kmpc_dispatch_next_8") == 0) {
    unsigned w = name.find("next_4") != std::string::npos ? 32 : 64; int sv = raceThread; raceThread = -1;
    bool none = omp.inc > 0 ? omp.lo > omp.up : omp.lo < omp.up;
    if (!none) { storeS(I(2), mkI(omp.lo + OMP_THREADS * omp.inc > omp.up, 32)); storeS(I(3), mkI((uint64_t)omp.lo, w)); storeS(I(4), mkI((uint64_t)omp.lo, w)); storeS(I(5), mkI((uint64_t)omp.inc, w)); omp.lo += OMP_THREADS * omp.inc; }
    raceThread = sv; ret = mkI(!none, 32); return true;
  }
  if (name.compare(0, 22, "__kmpc_dispatch_fini_4") == 0 || name.compare(0, 22, "__kmpc_dispatch_fini_8") == 0 || name == "__kmpc_dispatch_deinit") return true;
  if (name == "__kmpc_barrier") { raceEpoch++; return true; }
  if (name == "__kmpc_single" || name == "__kmpc_master" || name == "__kmpc_masked") { ret = mkI(omp.tid == 0, 32); return true; }
  if (name == "__kmpc_end_single" || name == "__kmpc_end_master" || name == "__kmpc_end_masked" || name == "__kmpc_serialized_parallel" || name == "__kmpc_end_serialized_parallel" || name == "__kmpc_flush") return true;
  if (name == "__kmpc_for_static_fini" || name == "__kmpc_push_num_threads") return true;
  if (name == "__kmpc_global_thread_num" || name == "omp_get_thread_num") { ret = mkI((uint64_t)omp.tid, 32); return true; }
  if (name == "omp_get_max_threads" || name == "omp_get_num_threads" || name == "omp_get_num_procs") { ret = mkI(OMP_THREADS, 32); return true; }
  if (name == "omp_set_num_threads") return true;
  if (name == "__kmpc_critical" || name == "__kmpc_end_critical") { if (name == "__kmpc_critical") { ompSaved = raceThread; raceThread = -1; } else raceThread = ompSaved; return true; }
  if (name == "__kmpc_reduce_nowait" || name == "__kmpc_reduce") { ompSaved = raceThread; raceThread = -1; ret = mkI(1, 32); return true; }
  if (name == "__kmpc_end_reduce_nowait" || name == "__kmpc_end_reduce") { raceThread = ompSaved; return true; }
  if (name == "omp_in_parallel") { ret = mkI(omp.on, 32); return true; }
  // ---- intrinsics
  if (name.compare(0, 5, "llvm.") == 0) {
    auto id = F->getIntrinsicID(); unsigned w = d.tw;
    auto lanes = [&](std::function<Val(std::vector<Val>)> fn) {
      if (a[0].k == Val::AGG) { std::vector<Val> e; for (size_t i = 0; i < a[0].a->size(); i++) { std::vector<Val> x; for (auto &v : a) x.push_back(v.k == Val::AGG ? (*v.a)[i] : v); e.push_back(fn(x)); } return agg(e); }
      return fn(a); };
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(I(0), I(1), I(2)); return true;
    case Intrinsic::memset: case Intrinsic::memset_inline: setMem(I(0), a[1], I(2)); return true;
    case Intrinsic::fabs: ret = lanes([&](std::vector<Val> x) { return fun1("fabs", x[0], x[0].w); }); return true;
    case Intrinsic::sqrt: ret = lanes([&](std::vector<Val> x) { return fun1("sqrt", x[0], x[0].w); }); return true;
    case Intrinsic::exp: ret = lanes([&](std::vector<Val> x) { return fun1("exp", x[0], x[0].w); }); return true;
    case Intrinsic::exp2: ret = fun1("exp2", a[0], w); return true;
    case Intrinsic::log: ret = lanes([&](std::vector<Val> x) { return fun1("log", x[0], x[0].w); }); return true;
    case Intrinsic::log2: ret = fun1("log2", a[0], w); return true;
    case Intrinsic::log10: ret = fun1("log10", a[0], w); return true;
    case Intrinsic::floor: ret = fun1("floor", a[0], w); return true;
    case Intrinsic::ceil: ret = fun1("ceil", a[0], w); return true;
    case Intrinsic::trunc: ret = fun1("trunc", a[0], w); return true;
    case Intrinsic::round: ret = fun1("round", a[0], w); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: ret = fun1("rint", a[0], w); return true;
    case Intrinsic::pow: ret = fpow(a[0], a[1], w); return true;
    case Intrinsic::powi: ret = fpow(a[0], mkF((double)sx(I(1), 32), w), w); return true;
    case Intrinsic::fmuladd: case Intrinsic::fma: ret = lanes([&](std::vector<Val> x) { return fbin(Instruction::FAdd, fbin(Instruction::FMul, x[0], x[1]), x[2]); }); return true;
    case Intrinsic::maxnum: case Intrinsic::maximum: ret = lanes([&](std::vector<Val> x) { if (x[0].k == Val::F && std::isnan(fD(x[0]))) return x[1]; return iteVal(toBool(fcmp(CmpInst::FCMP_OLT, x[0], x[1])), x[1], x[0]); }); return true;
    case Intrinsic::minnum: case Intrinsic::minimum: ret = lanes([&](std::vector<Val> x) { if (x[0].k == Val::F && std::isnan(fD(x[0]))) return x[1]; return iteVal(toBool(fcmp(CmpInst::FCMP_OLT, x[1], x[0])), x[1], x[0]); }); return true;
    case Intrinsic::copysign: { Val ab = fun1("fabs", a[0], w); ret = iteVal(toBool(fcmp(CmpInst::FCMP_OLT, a[1], mkF(0, w))), fneg(ab), ab); return true; }
    case Intrinsic::smax: ret = lanes([&](std::vector<Val> x) { return iteVal(toBool(icmp(CmpInst::ICMP_SLT, x[0], x[1])), x[1], x[0]); }); return true;
    case Intrinsic::smin: ret = lanes([&](std::vector<Val> x) { return iteVal(toBool(icmp(CmpInst::ICMP_SLT, x[1], x[0])), x[1], x[0]); }); return true;
    case Intrinsic::umax: ret = lanes([&](std::vector<Val> x) { return iteVal(toBool(icmp(CmpInst::ICMP_ULT, x[0], x[1])), x[1], x[0]); }); return true;
    case Intrinsic::umin: ret = lanes([&](std::vector<Val> x) { return iteVal(toBool(icmp(CmpInst::ICMP_ULT, x[1], x[0])), x[1], x[0]); }); return true;
    case Intrinsic::abs: ret = iteVal(toBool(icmp(CmpInst::ICMP_SLT, a[0], mkI(0, w))), intBin(Instruction::Sub, mkI(0, w), a[0], w), a[0]); return true;
    case Intrinsic::usub_sat: ret = iteVal(toBool(icmp(CmpInst::ICMP_ULT, a[0], a[1])), mkI(0, w), intBin(Instruction::Sub, a[0], a[1], w)); return true;
    case Intrinsic::uadd_sat: { Val s = intBin(Instruction::Add, a[0], a[1], w); ret = iteVal(toBool(icmp(CmpInst::ICMP_ULT, s, a[0])), mkI(~0ull, w), s); return true; }
    case Intrinsic::ctpop: ret = mkI((uint64_t)__builtin_popcountll(I(0)), w); return true;
    case Intrinsic::ctlz: { uint64_t u = I(0); ret = mkI(u ? (uint64_t)__builtin_clzll(u) - (64 - w) : w, w); return true; }
    case Intrinsic::cttz: { uint64_t u = I(0); ret = mkI(u ? (uint64_t)__builtin_ctzll(u) : w, w); return true; }
    case Intrinsic::bswap: { std::vector<Val> p; for (int i = (int)w - 8; i >= 0; i -= 8) p.push_back(bits(a[0], (unsigned)i, 8)); ret = joinParts(p); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      uint64_t k = I(2) % w; Val hi = a[0], lo = a[1];
      if (id == Intrinsic::fshl) ret = k ? intBin(Instruction::Or, intBin(Instruction::Shl, hi, mkI(k, w), w), intBin(Instruction::LShr, lo, mkI(w - k, w), w), w) : hi;
      else ret = k ? intBin(Instruction::Or, intBin(Instruction::Shl, hi, mkI(w - k, w), w), intBin(Instruction::LShr, lo, mkI(k, w), w), w) : lo;
      return true; }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::expect_with_probability: ret = a[0]; return true;
    case Intrinsic::is_constant: ret = mkI(0, 1); return true;
    case Intrinsic::objectsize: ret = mkI(~0ull, w); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violationHere("terminate", "trap"); throw Stop();
    case Intrinsic::eh_typeid_for: ret = mkI((uint64_t)typeId(I(0)), 32); return true;
    case Intrinsic::stacksave: case Intrinsic::returnaddress: case Intrinsic::frameaddress: ret = mkI(0, 64); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::invariant_start: ret = mkI(0, 64); return true;
    case Intrinsic::ptrmask: ret = intBin(Instruction::And, a[0], a[1], 64); return true;
    case Intrinsic::is_fpclass: {
      unsigned cls = (unsigned)I(1); bool r = false;
      if (a[0].k == Val::F) { double x = fD(a[0]); if (std::isnan(x)) r = cls & 3; else if (std::isinf(x)) r = cls & (x < 0 ? 4 : 0x200); else if (x == 0) r = cls & 0x60; else r = cls & (x < 0 ? 0x18 : 0x180); ret = mkI(r, 1); return true; }
      bool fin = (cls & 0x1f8) == 0x1f8, none = !(cls & 0x1f8);
      if (fin) ret = mkI(1, 1); else if (none) ret = mkI(0, 1); else incomplete("is.fpclass"); return true; }
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
      unsigned ww = a[0].w; bool sgn = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
      unsigned o = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? Instruction::Mul : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : Instruction::Sub;
      Val r = intBin(o, a[0], a[1], ww);
      if (a[0].k == Val::I && a[1].k == Val::I) {
        bool ov;
        if (sgn) { __int128 x = sx(a[0].u, ww), y = sx(a[1].u, ww), z = o == Instruction::Mul ? x * y : o == Instruction::Add ? x + y : x - y; ov = z != sx(r.u, ww); }
        else { __int128 x = a[0].u, y = a[1].u; __int128 z = o == Instruction::Mul ? (__int128)((unsigned __int128)x * (unsigned __int128)y) : o == Instruction::Add ? x + y : x - y; ov = o == Instruction::Mul ? ((unsigned __int128)z != (unsigned __int128)r.u) : z != (__int128)r.u; }
        ret = agg({r, mkI(ov, 1)}); return true;
      }
      if (!sgn && o == Instruction::Mul && (a[1].k == Val::I || a[0].k == Val::I)) { const Val &c = a[1].k == Val::I ? a[1] : a[0], &x = a[1].k == Val::I ? a[0] : a[1]; if (c.u == 0) { ret = agg({r, mkI(0, 1)}); return true; } ret = agg({r, icmp(CmpInst::ICMP_UGT, x, mkI(msk(~0ull, ww) / c.u, ww))}); return true; }
      if (!sgn && o == Instruction::Add) { ret = agg({r, icmp(CmpInst::ICMP_ULT, r, a[0])}); return true; }
      if (!sgn && o == Instruction::Sub) { ret = agg({r, icmp(CmpInst::ICMP_ULT, a[0], a[1])}); return true; }
      if (ww <= 32) {
        N x = sgn ? mkSext(toBV(a[0]), 64) : mkZext(toBV(a[0]), 64), y = sgn ? mkSext(toBV(a[1]), 64) : mkZext(toBV(a[1]), 64);
        N z = o == Instruction::Mul ? mkBin(Op::MUL, x, y) : o == Instruction::Add ? mkBin(Op::ADD, x, y) : mkSub(x, y);
        N rr = sgn ? mkSext(toBV(r), 64) : mkZext(toBV(r), 64);
        ret = agg({r, fromBool(mkNot(mkEq(z, rr)))}); return true;
      }
      incomplete("overflow intrinsic"); }
    case Intrinsic::vector_reduce_fadd: { Val s = a[0]; for (auto &x : *a[1].a) s = fbin(Instruction::FAdd, s, x); ret = s; return true; }
    case Intrinsic::vector_reduce_add: { Val s = (*a[0].a)[0]; for (size_t i = 1; i < a[0].a->size(); i++) s = intBin(Instruction::Add, s, (*a[0].a)[i], w); ret = s; return true; }
    case Intrinsic::vector_reduce_or: { Val s = (*a[0].a)[0]; for (size_t i = 1; i < a[0].a->size(); i++) s = intBin(Instruction::Or, s, (*a[0].a)[i], w); ret = s; return true; }
    case Intrinsic::vector_reduce_and: { Val s = (*a[0].a)[0]; for (size_t i = 1; i < a[0].a->size(); i++) s = intBin(Instruction::And, s, (*a[0].a)[i], w); ret = s; return true; }
    default: break;
    }
    incomplete("intrinsic " + name);
  }
  // ---- iostreams: output is recorded for streams that ask for it; everything else is a no-op returning its first argument
  if (!text.empty() && !a.empty() && a[0].k == Val::I && text.count(a[0].u)) insertion(name, a);
  static const char *pre[] = {"_ZNSo", "_ZNSi", "_ZNSd", "_ZNSolsE", "_ZStls", "_ZStrs", "_ZNKSt9basic_ios", "_ZNSt9basic_ios", "_ZNKSt8ios_base", "_ZNSt8ios_base", "_ZNSt6locale", "_ZNKSt6locale", "_ZNSt15basic_stringbuf", "_ZNKSt15basic_stringbuf",
    "_ZNSt7__cxx1115basic_stringbuf", "_ZNKSt7__cxx1115basic_stringbuf", "_ZNSt7__cxx1118basic_stringstream", "_ZNKSt7__cxx1118basic_stringstream", "_ZNSt18basic_stringstream", "_ZNSt7__cxx1119basic_ostringstream", "_ZNKSt7__cxx1119basic_ostringstream", "_ZNSt15basic_streambuf", "_ZNKSt15basic_streambuf", "_ZNSt13basic_filebuf",
    "_ZSt16__ostream_insert", "_ZSt4endl", "_ZSt5flush", "_ZNSt7__cxx1119basic_istringstream", "_ZSt20__throw_bad_cast"};
  for (auto p : pre) if (name.compare(0, strlen(p), p) == 0) {
    Type *T = F->getReturnType();
    if (T->isPointerTy()) ret = a.empty() ? mkI(0, 64) : a[0]; else if (!T->isVoidTy()) ret = constVal(Constant::getNullValue(T));
    return true;
  }
  handled = false;
  return true;
}
// what an insertion into a recorded stream appends
bool Engine::insertion(const std::string &name, std::vector<Val> &a) {
  std::string &t = text[a[0].u]; auto is = [&](const char *p) { return name.compare(0, strlen(p), p) == 0; };
  auto chars = [&](uint64_t p, uint64_t n) { for (uint64_t i = 0; i < n; i++) t += (char)conc(loadS(p + i, 1, 8), "printed character"); };
  auto num = [&](const Val &v, bool sgn) { if (v.k == Val::I) t += sgn ? std::to_string((long long)sx(v.u, v.w)) : std::to_string((unsigned long long)v.u); else { t += "#" + std::to_string(textVals.size()); textVals.push_back(v); } };
  auto flt = [&](const Val &v) { if (v.k != Val::F) { t += "@" + std::to_string(textVals.size()); textVals.push_back(v); return; } char b[40]; snprintf(b, 40, "%g", fD(v)); t += b; };
  if (is("_ZSt16__ostream_insert")) { chars(conc(a[1], "printed text"), conc(a[2], "printed text")); return true; }
  if (is("_ZSt4endl") || is("_ZNSolsEPFRSoS_E")) { t += '\n'; return true; }
  if (is("_ZNSo3putEc")) { t += a.size() > 1 && a[1].k == Val::I && a[1].w == 8 && a[1].u ? (char)a[1].u : '\n'; return true; }
  if (is("_ZNSo5writeEPKcl")) { chars(conc(a[1], "printed text"), conc(a[2], "printed text")); return true; }
  if (is("_ZNSolsEi") || is("_ZNSolsEl") || is("_ZNSolsEx") || is("_ZNSolsEs") || is("_ZNSo9_M_insertIlE") || is("_ZNSo9_M_insertIxE")) { num(a[1], true); return true; }
  if (is("_ZNSolsEj") || is("_ZNSolsEm") || is("_ZNSolsEy") || is("_ZNSolsEt") || is("_ZNSolsEb") || is("_ZNSo9_M_insertImE") || is("_ZNSo9_M_insertIyE") || is("_ZNSo9_M_insertIbE")) { num(a[1], false); return true; }
  if (is("_ZNSolsEf") || is("_ZNSolsEd") || is("_ZNSo9_M_insertIdE")) { flt(a[1]); return true; }
  if (is("_ZStlsISt11char_traits")) { if (a[1].k == Val::I && a[1].w == 8) t += (char)a[1].u; else { uint64_t p = conc(a[1], "printed text"); t += cstr(p); } return true; }
  if (is("_ZStlsIcSt11char_traitsIcESaIcE")) { uint64_t p = conc(a[1], "printed string"), d = conc(loadS(p, 3, 64), "printed string"); uint64_t n = name.find("__cxx11") != std::string::npos ? conc(loadS(p + 8, 1, 64), "printed string") : conc(loadS(d - 24, 1, 64), "printed string"); chars(d, n); return true; }
  if (is("_ZNSo5flushEv") || is("_ZSt5flush") || is("_ZNSoC") || is("_ZNSoD") || is("_ZNSt7__cxx1119basic_o") || is("_ZNSt19basic_o") || is("_ZNKSt9basic_ios") || is("_ZNSt9basic_ios")) return true;
  incomplete("stream output by " + name);
}
// a one-argument mathematical function that neither fails nor forks for this argument
bool Engine::pureMath(Function *F, const Val &a) {
  if (!F->isDeclaration() || a.k == Val::NONE || expIeee || expLimit > 0) return false;
  switch (F->getIntrinsicID()) { case Intrinsic::exp: case Intrinsic::fabs: return true; case Intrinsic::log: return rKnownPositive(toR(a)); case Intrinsic::sqrt: return rKnownPositive(toR(a)); case Intrinsic::not_intrinsic: break; default: return false; }
  auto it = MATH.find(F->getName().str()); if (it == MATH.end()) return false;
  const std::string &n = it->second;
  return n == "exp" || n == "expm1" || n == "tanh" || n == "fabs" || ((n == "log" || n == "sqrt") && rKnownPositive(toR(a)));
}
void Engine::call(Frame &f, const DInst &d) {
  std::vector<Val> args; size_t na = cast<CallBase>(d.I)->arg_size();
  args.reserve(na);
  auto op = [&](size_t i) -> const Val & { int32_t o = d.ops[i]; return o >= 0 ? f.regs[(size_t)o] : f.fi->consts[(size_t)(-o - 1)]; };
  for (size_t i = 0; i < na; i++) args.push_back(op(i));
  Function *F = d.callee;
  if (!F) {
    if (isa<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand())) { if (d.dst >= 0) f.regs[(size_t)d.dst] = args.empty() ? mkI(0, d.tw ? d.tw : 64) : args[0]; if (d.op == Instruction::Invoke) jump(f, d.b0); return; }
    uint64_t p = conc(op(na), "function pointer");
    Obj *o = objOf(p);
    if (!o || !o->fn) { violationHere("memory", p < 65536 ? "call through a null function pointer" : "call through an invalid function pointer"); throw Stop(); }
    F = o->fn;
  }
  if (!F->isDeclaration()) { pushCall(F, std::move(args), d.dst, &d); return; }
  Val ret; bool handled; size_t depth = st.size();
  std::string name = F->getName().str();
  if (!builtin(F, name, args, d, ret, handled)) return;   // control was transferred
  if (!handled) incomplete("call of unmodelled external function " + name);
  if (st.size() != depth) return;                          // a call was pushed instead
  Frame &g = st.back();
  if (d.dst >= 0) { if (ret.k == Val::NONE) ret = constVal(Constant::getNullValue(F->getReturnType())); g.regs[(size_t)d.dst] = ret; }
  if (d.op == Instruction::Invoke) jump(g, d.b0);
}
