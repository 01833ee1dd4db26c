#include "engine.hpp"
#include <cstring>
#include <fstream>
#include <fcntl.h>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/Scalar/Scalarizer.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

static std::unique_ptr<Module> load(const std::string &p, LLVMContext &C) {
  SMDiagnostic e; auto m = parseIRFile(p, e, C);
  if (!m) { e.print("dwsym", errs()); exit(2); }
  return m;
}
// functions whose bodies are irrelevant (formatted output): the executor treats them as no-ops
static bool streamFn(StringRef n) {
  static const char *pre[] = {"_ZNSo", "_ZNSi", "_ZStls", "_ZNKSt9basic_ios", "_ZNSt9basic_ios", "_ZNKSt8ios_base", "_ZNSt8ios_base", "_ZNSt6locale", "_ZNSt15basic_stringbuf", "_ZNKSt15basic_stringbuf",
    "_ZNSt7__cxx1115basic_stringbuf", "_ZNKSt7__cxx1115basic_stringbuf", "_ZNSt7__cxx1118basic_stringstream", "_ZNKSt7__cxx1118basic_stringstream", "_ZNSt18basic_stringstream", "_ZNSt7__cxx1119basic_ostringstream", "_ZNKSt7__cxx1119basic_ostringstream", "_ZNSt15basic_streambuf", "_ZNKSt15basic_streambuf",
    "_ZSt16__ostream_insert", "_ZSt4endl", "_ZSt5flush", "_ZNSt7__cxx1119basic_istringstream"};
  if (n.contains("dwstub")) return false;
  for (auto p : pre) if (n.starts_with(p)) return true;
  return false;
}
static int prep(const std::string &in, const std::string &out) {
  LLVMContext C; auto M = load(in, C);
  for (auto &F : *M) if (!F.isDeclaration() && streamFn(F.getName())) { F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PipelineTuningOptions pto; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false; pto.LoopInterleaving = false;
  PassBuilder PB(nullptr, pto);
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
  MPM.run(*M, MAM);
  ModulePassManager M2;
  M2.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass()));
  SimplifyCFGOptions so; so.bonusInstThreshold(8).speculateBlocks(true).convertSwitchToLookupTable(false).sinkCommonInsts(true);
  M2.addPass(createModuleToFunctionPassAdaptor(SimplifyCFGPass(so)));
  M2.run(*M, MAM);
  std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*M, os);
  return 0;
}

int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: dwsym prep IN OUT | run --out DIR --entries a,b FILES...\n"); return 2; }
  const char *opts[] = {"dwsym", "-two-entry-phi-node-folding-threshold=12", "-phi-node-folding-threshold=12", "-speculate-one-expensive-inst=true"};
  cl::ParseCommandLineOptions(4, opts);
  std::string mode = argv[1];
  if (mode == "prep") return prep(argv[2], argv[3]);
  std::vector<std::string> files, entries; std::string out = "."; double tlimit = 300; int jobs = 8, wit = 24; uint64_t seed = 1; long maxI = 400000000;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") out = argv[++i];
    else if (a == "--entries") { std::string s = argv[++i], t; for (char c : s + ",") { if (c == ',') { if (!t.empty()) entries.push_back(t); t.clear(); } else t += c; } }
    else if (a == "--time") tlimit = atof(argv[++i]);
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--wit") wit = atoi(argv[++i]);
    else if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
    else if (a == "--maxinstr") maxI = atol(argv[++i]);
    else files.push_back(a);
  }
  double t0 = nowS();
  g_deadline = t0 + tlimit;
  LLVMContext C; auto M = std::make_unique<Module>("linked", C); 
  { auto first = load(files[0], C); M->setDataLayout(first->getDataLayout()); M->setTargetTriple(first->getTargetTriple()); }
  Linker L(*M);
  for (auto &f : files) { auto m = load(f, C); if (L.linkInModule(std::move(m))) { fprintf(stderr, "link error in %s\n", f.c_str()); return 2; } }
  // drop what the entries cannot reach
  {
    std::set<std::string> keep(entries.begin(), entries.end()); keep.insert("dw_rt_throw_bad_alloc"); keep.insert("llvm.global_ctors"); keep.insert("llvm.used");
    internalizeModule(*M, [&](const GlobalValue &g) { return keep.count(g.getName().str()) > 0; });
    ModuleAnalysisManager MAM; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager P; P.addPass(GlobalDCEPass()); P.run(*M, MAM);
  }
  for (auto &e : entries) if (!M->getFunction(e) || M->getFunction(e)->isDeclaration()) { fprintf(stderr, "dwsym: entry %s not found\n", e.c_str()); return 2; }
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)SH, 0, sizeof(Shared));
  SH->slots = jobs; SH->nwitMax = wit;
  Engine E; E.outDir = out; E.seed = seed; E.maxInstr = maxI;
  try { E.init(M.get()); } catch (Stop &) { fprintf(stderr, "dwsym: initialisation failed: %s\n", SH->reasons[0]); return 2; }
  double t1 = nowS();
  // one explorer per entry, bounded by the slots
  std::vector<pid_t> kids; std::map<pid_t, std::string> names; std::map<std::string, double> started, took;
  auto reap = [&](bool block) { int stt; pid_t p = waitpid(-1, &stt, block ? 0 : WNOHANG); if (p > 0) { took[names[p]] = nowS() - started[names[p]]; if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { SH->incomplete++; int i = SH->nreasons++; if (i < 64) snprintf(SH->reasons[i], 239, "%s: explorer process died (status %d)", names[p].c_str(), stt); SH->slots++; } return true; } return false; };
  size_t live = 0;
  for (auto &e : entries) {
    for (;;) { while (live && reap(false)) live--; int s = SH->slots.load(); if (s > 0 && SH->slots.compare_exchange_strong(s, s - 1)) break; usleep(3000); }
    if (SH->stop.load()) { SH->slots++; continue; }
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) { rlimit lim{3ul << 30, 3ul << 30}; setrlimit(RLIMIT_AS, &lim); E.ownsSlot = true; E.runEntry(e); } // no path may take the machine's memory: it ends as undecided instead
    names[p] = e; started[e] = nowS(); live++;
  }
  while (live) { if (reap(true)) live--; else break; }
  double t2 = nowS();
  // summary
  std::vector<std::string> fns; size_t nf = 0, nr = 0; std::vector<std::string> repoF;
  for (auto &F : *M) { int ix = E.fnIx[&F]; if (ix < 65536 && SH->fn[ix]) { nf++; if (auto *sp = F.getSubprogram()) { StringRef fn = sp->getFilename(); if (fn.contains("/repo/")) { nr++; repoF.push_back(demangle(F.getName().str())); } } } }
  std::sort(repoF.begin(), repoF.end());
  auto js = [](const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32) r += ' '; else r += (char)c; } return r + "\""; };
  std::ofstream o(out + "/summary.json");
  o << "{\n \"entries\": " << entries.size() << ", \"paths\": " << SH->paths << ", \"infeasible\": " << SH->infeasible << ", \"instructions\": " << SH->instrs << ", \"forks\": " << SH->forks
    << ",\n \"checks\": " << SH->checks << ", \"checks_by_normal_form\": " << SH->checksNF << ", \"checks_within_rounding\": " << SH->checksTol << ", \"incomplete\": " << SH->incomplete << ", \"candidates\": " << SH->ncand
    << ",\n \"queries\": " << SH->q << ", \"sat\": " << SH->qsat << ", \"unsat\": " << SH->qunsat << ", \"unknown\": " << SH->qunk << ", \"solver_s\": " << SH->qus / 1e6 << ", \"max_query_s\": " << SH->qmaxus / 1e6
    << ",\n \"load_s\": " << t1 - t0 << ", \"explore_s\": " << t2 - t1 << ", \"functions_executed\": " << nf << ", \"repo_functions\": [";
  for (size_t i = 0; i < repoF.size(); i++) o << (i ? ", " : "") << js(repoF[i]);
  o << "],\n \"reached\": {";
  bool first = true;
  for (int i = 0; i < 1024; i++) if (SH->reachHash[i]) { o << (first ? "" : ", ") << js(SH->reachName[i]) << ": " << SH->reachCnt[i]; first = false; }
  o << "},\n \"reasons\": [";
  for (int i = 0; i < std::min(64, SH->nreasons.load()); i++) o << (i ? ", " : "") << js(SH->reasons[i]);
  o << "],\n \"entry_s\": {"; first = true;
  for (auto &k : took) { o << (first ? "" : ", ") << js(k.first) << ": " << k.second; first = false; }
  o << "}\n}\n";
  o.close();
  fflush(stdout);
  _exit(0);
}
