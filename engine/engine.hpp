#pragma once
#include "interp.hpp"
#include <atomic>
#include <functional>

struct Shared {
  std::atomic<int> slots, stop, nreasons, nwit, nwitMax, ncand;
  std::atomic<long> paths, infeasible, instrs, forks, checks, checksNF, checksTol, incomplete, reach;
  std::atomic<long> q, qsat, qunsat, qunk, qforked, qus, qmaxus;
  char reasons[64][240];
  std::atomic<uint8_t> fn[65536];
  std::atomic<uint64_t> siteHash[4096]; std::atomic<int> siteCnt[4096];
  std::atomic<uint64_t> reachHash[1024]; std::atomic<long> reachCnt[1024]; char reachName[1024][64];
};
extern Shared *SH;

struct Stop { };                       // unwinds the C++ stack: this path is finished

struct Input { std::string name; N node; char kind; };

struct Engine {
  llvm::Module *M; const llvm::DataLayout *DL;
  std::vector<Obj *> objs;
  std::unordered_map<const llvm::Value *, uint64_t> gaddr;
  std::unordered_map<const llvm::Function *, FnInfo *> fninfo;
  std::unordered_map<const llvm::Function *, int> fnIx;
  std::vector<Frame> st;
  std::vector<N> pc; Model cur;
  std::vector<Input> inputs; std::map<std::string, int> nameCnt;
  std::vector<std::pair<std::string, Val>> observed;
  std::vector<N> eqPending;            // equalities decided by normal form, confirmed in one query per path
  std::string entry, outDir; uint64_t seed = 1; long maxInstr = 400000000; long icount = 0, icflush = 0;
  std::vector<pid_t> kids; bool ownsSlot = true;
  uint64_t exnPtr = 0; std::vector<uint64_t> caught; std::unordered_map<uint64_t, uint64_t> exnType, exnDtor; std::set<uint64_t> inFlight;
  std::unordered_map<uint64_t, int> typeIds; int uncaughtCount = 0;
  std::map<std::string, int> freshCnt;
  std::set<std::string> notes;
  double expLimit = 0; bool expIeee = false; int heapLive = 0;
  bool inProbe = false; bool fpm = false;   // fpm: floats are IEEE bit patterns, every rounding counts
  std::map<uint64_t, std::string> text; std::vector<Val> textVals; bool insertion(const std::string &name, std::vector<Val> &a);   // streams whose output is recorded
  // OpenMP access log
  bool race = false; int raceThread = -1; uint64_t raceBaseObj = 0; int raceEpoch = 0;
  std::unordered_map<uint64_t, int> rW, rR; std::string raceMsg;
  int ompSaved = -1, guardThread = -1, rdCount = 0;
  struct OmpReg { bool on = false; int tid = 0; int64_t lo = 0, up = 0, inc = 1; } omp; enum { OMP_THREADS = 8 };

  void init(llvm::Module *m);
  void runEntry(const std::string &fn);
  void finishPath();
  [[noreturn]] void endProcess();

  // control
  bool decide(N cond);
  bool feasible(N cond);               // pc && cond (sliced); unknown counts as feasible
  void assume(N cond);
  [[noreturn]] void incomplete(const std::string &why);
  void check(N cond, const std::string &msg);
  void checkEqf(const Val &a, const Val &b, const std::string &msg);
  Res refute(N neg, Model &m, std::vector<N> extra, double tmo, int &budget);
  void candidate(const std::string &kind, const std::string &msg, const std::vector<Model> &models);
  void violationHere(const std::string &kind, const std::string &msg);
  bool siteOk(const std::string &key);
  std::string where();
  std::string inputsText(const Model &m);
  bool probe(const std::vector<N> &conj, Model &m);
  uint64_t concretize(const Val &v, const char *why, int limit = 4096);
  void fork2(const std::function<void()> &child);

  // memory
  uint64_t alloc(uint64_t size, Obj::Kind k, const std::string &name = "");
  Obj *objOf(uint64_t addr) { uint64_t id = addr >> 40; return id && id < objs.size() ? objs[id] : nullptr; }
  Obj *access(uint64_t addr, uint64_t n, bool write, const char *what);
  void writeBytes(uint64_t addr, const uint8_t *p, uint64_t n);
  void clearCells(Obj *o, uint64_t off, uint64_t n);
  Val loadS(uint64_t addr, int tk, unsigned w);                 // scalar
  void storeS(uint64_t addr, const Val &v);
  Val loadT(uint64_t addr, llvm::Type *T);
  void storeT(uint64_t addr, const Val &v, llvm::Type *T);
  Val loadSym(const Val &addr, llvm::Type *T);
  void storeSym(const Val &addr, const Val &v, llvm::Type *T);
  void copyMem(uint64_t d, uint64_t s, uint64_t n);
  void setMem(uint64_t d, const Val &b, uint64_t n);
  void freeObj(uint64_t p, int akind, const char *what);
  std::vector<std::pair<N, uint64_t>> resolve(const Val &addr, uint64_t n);
  std::string cstr(uint64_t p);
  uint64_t conc(const Val &v, const char *why) { return v.k == Val::I ? v.u : concretize(v, why); }
  N fresh(const std::string &base, unsigned w);
  Val freshVal(const std::string &base, int tk, unsigned w);
  void raceAccess(uint64_t addr, uint64_t n, bool write);

  // values
  N toBV(const Val &v); N toBool(const Val &v); N toR(const Val &v);
  Val fromBV(N n); Val fromBool(N n); Val fromR(N n, unsigned w);
  Val iteVal(N c, const Val &a, const Val &b);
  Val bits(const Val &v, unsigned lo, unsigned w); Val joinParts(const std::vector<Val> &p);
  Val intBin(unsigned op, const Val &a, const Val &b, unsigned w);
  Val icmp(int pred, const Val &a, const Val &b);
  Val fbin(unsigned op, const Val &a, const Val &b);
  Val fcmp(int pred, const Val &a, const Val &b);
  Val castV(unsigned op, const Val &v, llvm::Type *from, llvm::Type *to);
  N fpB(const Val &v); Val fromFP(N n); Val fneg(const Val &a); Val fun1(const std::string &f, const Val &a, unsigned w); Val fpow(const Val &a, const Val &b, unsigned w);
  bool outOfDomain(N bad, const char *note); std::set<N> inDomain;
  Val constVal(const llvm::Constant *c);
  void initGlobal(uint64_t addr, const llvm::Constant *c);

  FnInfo *info(llvm::Function *F);
  void pushCall(llvm::Function *F, std::vector<Val> args, int dst, const DInst *ci);
  void doReturn(const Val &v);
  void popFrame();
  void loop(size_t base);
  void step(Frame &f, const DInst &d);
  void jump(Frame &f, int to);
  bool pureMath(llvm::Function *F, const Val &a);
  bool merge(Frame &f, const DInst &d, N cond);   // both sides of a small float-only branch at once
  void call(Frame &f, const DInst &d);
  bool builtin(llvm::Function *F, const std::string &name, std::vector<Val> &args, const DInst &d, Val &ret, bool &handled);
  void unwind();
  bool catches(uint64_t clauseTi, uint64_t exnTi);
  int typeId(uint64_t ti);
  Val callSync(llvm::Function *F, std::vector<Val> args);
};
Val mkI(uint64_t u, unsigned w);
Val mkF(double d, unsigned w);
double fD(const Val &v);
