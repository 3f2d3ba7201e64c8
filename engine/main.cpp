#include "interp.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/PassManager.h>
#include <llvm/Analysis/CGSCCPassManager.h>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>

void setupGlobals(State &s);
std::string jsonEsc(const std::string &x) { std::string r; for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string outFile = "/dev/stdout";
double T0;
struct Shared { volatile int stop; volatile uint64_t paths; };
static Shared *SH;
static int tokR = -1, tokW = -1;
static std::vector<std::pair<pid_t, std::string>> kids;
static int kidNo = 0;
static bool isChild = false;
static std::string err;

static std::string statsText() { // line based format for merging between processes
  std::ostringstream o;
  auto kv = [&](const char *k, double v) { o << "N " << k << " " << v << "\n"; };
  kv("paths", S.paths); kv("instrs", S.instrs); kv("forks", S.forks); kv("queries", S.queries); kv("sat", S.sat); kv("unsat", S.unsat); kv("unknown", S.unknown);
  kv("asserts", S.asserts); kv("assertsSolver", S.assertsSolver); kv("pruned", S.pruned); kv("solverSec", S.solverSec); kv("checksTrivial", S.checksTrivial);
  kv("axEvents", S.axEvents); kv("axReads", S.axReads); kv("axWrites", S.axWrites); kv("axQueries", S.axQueries); kv("axIters", S.axIters); kv("axRf", S.axRf);
  for (auto &r : S.reach) o << "R " << r.second << " " << r.first << "\n";
  for (auto &r : S.ended) o << "E " << r.second << " " << r.first << "\n";
  for (auto &r : S.fns) o << "F " << r.second << " " << r.first << "\n";
  for (auto &x : S.samples) o << "S " << jsonEsc(x) << "\n";
  for (auto &x : S.replays) o << "P " << x << "\n";
  for (auto &v : S.viol) {
    o << "V {\"kind\":\"" << jsonEsc(v.kind) << "\",\"msg\":\"" << jsonEsc(v.msg) << "\",\"where\":\"" << jsonEsc(v.where) << "\",\"stack\":[";
    for (size_t i = 0; i < v.stack.size(); i++) o << (i ? "," : "") << "\"" << jsonEsc(v.stack[i]) << "\"";
    o << "],\"inputs\":[";
    for (size_t i = 0; i < v.inputs.size(); i++) o << (i ? "," : "") << "[\"" << jsonEsc(v.inputs[i].first) << "\",\"" << v.inputs[i].second << "\"]";
    o << "]" << v.extra << "}\n";
  }
  if (!err.empty()) o << "X " << jsonEsc(err) << "\n";
  return o.str();
}
static std::map<std::string, double> accN; static std::map<std::string, uint64_t> accR, accE, accF; static std::vector<std::string> accV, accS, accX, accP;
static void mergeText(const std::string &t) {
  std::istringstream in(t); std::string l;
  while (std::getline(in, l)) {
    if (l.size() < 2) continue;
    std::string r = l.substr(2);
    if (l[0] == 'V') { accV.push_back(r); continue; }
    if (l[0] == 'S') { if (accS.size() < 8) accS.push_back(r); continue; }
    if (l[0] == 'P') { accP.push_back(r); continue; }
    if (l[0] == 'X') { accX.push_back(r); continue; }
    std::istringstream ls(r);
    if (l[0] == 'N') { std::string k; double v; ls >> k >> v; accN[k] += v; }
    else { uint64_t v; std::string k; ls >> v; std::getline(ls, k); k = k.substr(1); (l[0] == 'R' ? accR : l[0] == 'E' ? accE : accF)[k] += v; }
  }
}
static std::string accText() {
  std::ostringstream o; o.precision(17);
  for (auto &x : accN) o << "N " << x.first << " " << x.second << "\n";
  for (auto &x : accR) o << "R " << x.second << " " << x.first << "\n";
  for (auto &x : accE) o << "E " << x.second << " " << x.first << "\n";
  for (auto &x : accF) o << "F " << x.second << " " << x.first << "\n";
  for (auto &x : accS) o << "S " << x << "\n"; for (auto &x : accV) o << "V " << x << "\n"; for (auto &x : accX) o << "X " << x << "\n"; for (auto &x : accP) o << "P " << x << "\n";
  return o.str();
}
static std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream b; b << i.rdbuf(); return b.str(); }

static void collectKids() {
  for (auto &k : kids) { int st; waitpid(k.first, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) accX.push_back("worker process died"); mergeText(slurp(k.second)); unlink(k.second.c_str()); }
  kids.clear();
}
static std::string tmpBase;
static std::deque<State> *mainWL = nullptr;

static bool offload(std::vector<State> &wl) {
  if (O.jobs <= 1 || wl.size() < 2) return false;
  char c; if (read(tokR, &c, 1) != 1) return false;
  std::string f = tmpBase + "." + std::to_string(getpid()) + "." + std::to_string(kidNo++);
  fflush(stderr);
  pid_t p = fork();
  if (p < 0) { (void)!write(tokW, &c, 1); return false; }
  if (p == 0) {
    isChild = true; kids.clear(); kidNo = 0; accN.clear(); accR.clear(); accE.clear(); accF.clear(); accV.clear(); accS.clear(); accX.clear(); accP.clear();
    S = Stats(); err.clear();
    State s0 = std::move(wl.front()); wl.clear(); wl.push_back(std::move(s0));
    outFile = f; return true; // child continues in the exploration loop
  }
  wl.erase(wl.begin()); kids.push_back({p, f});
  return false;
}
static std::unordered_map<const Function *, uint64_t> fnHits;

void runPath(State s) {
  try {
    while (true) {
      step(s);
      if ((s.steps & 0xff) == 0) {
        if (s.steps > O.maxSteps) engineError("path too long (step bound)");
        if (SH->stop) throw PathEnd{"stopped"};
        if (nowSec() - T0 > O.timeLimit) engineError("time limit");
      }
    }
  } catch (PathEnd &e) {
    S.paths++; S.ended[e.why]++;
    // sample completed paths: 1 in 2^k, so that long runs are sampled throughout
    uint64_t k = 1; while (k * 4 < S.paths) k *= 2;
    if ((e.why == "done" || e.why == "vp_end") && S.paths % k == 0) {
      std::shared_ptr<Model> m = s.model; if (!m || true) { m.reset(); feasible(s, exTrue(), &m); }
      extern std::string modelValV(const std::shared_ptr<Model> &, const Ex &, unsigned); extern std::vector<std::string> labelNames;
      std::string t, j = "{\"inputs\":["; bool f = true;
      for (auto &i : s.inputs) { std::string v = modelValV(m, i.e, i.w); if (t.size() < 300) t += i.name + "=" + v + " "; j += std::string(f ? "" : ",") + "[\"" + jsonEsc(i.name) + ":" + std::to_string(i.w) + "\",\"" + v + "\"]"; f = false; }
      j += "],\"labels\":["; f = true; for (int l : s.labels) { j += std::string(f ? "" : ",") + "\"" + jsonEsc(labelNames[l]) + "\""; f = false; } j += "]}";
      if (S.samples.size() < 3 && !t.empty()) S.samples.push_back(t);
      if (S.replays.size() < 12) S.replays.push_back(j); else S.replays[(S.paths / k) % 12] = j;
    }
    if (e.why == "violation" && !O.keepGoing) SH->stop = 1;
  } catch (std::runtime_error &e) {
    err = std::string(e.what()) + " in " + whereStr(s); SH->stop = 1;
  }
}
static void explore(std::vector<State> &wl) {
  WL = &wl;
  while (!wl.empty() && !SH->stop) {
    offload(wl);
    State s = std::move(wl.back()); wl.pop_back();
    runPath(std::move(s));
    if (S.paths > O.maxPaths) { err = "path bound exceeded"; SH->stop = 1; }
  }
}
extern void axInit();
std::vector<FnInfo *> allFns();

int main(int argc, char **argv) {
  std::string in; T0 = nowSec(); bool noMerge = false, noOpt = false; std::string dumpIR;
  std::vector<std::string> noinl;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&](const char *k) -> const char * { size_t n = strlen(k); return a.compare(0, n, k) == 0 ? a.c_str() + n : nullptr; };
    if (auto v = val("--entry=")) O.entry = v; else if (auto v = val("--out=")) outFile = v; else if (auto v = val("--jobs=")) O.jobs = atoi(v);
    else if (auto v = val("--time=")) O.timeLimit = atof(v); else if (auto v = val("--max-paths=")) O.maxPaths = atoll(v); else if (auto v = val("--max-steps=")) O.maxSteps = atoll(v);
    else if (a == "--verbose") O.verbose = true; else if (a == "--no-opt") noOpt = true; else if (auto v = val("--dump-ir=")) dumpIR = v; else if (a == "--keep-going") O.keepGoing = true;
    else if (auto v = val("--seed=")) O.seed = atoll(v); else if (auto v = val("--noinline=")) noinl.push_back(v); else if (auto v = val("--qtimeout=")) O.queryTimeoutMs = atoi(v);
    else if (auto v = val("--ax-spin=")) O.axSpin = atoi(v);
    else if (auto v = val("--preempt=")) { std::stringstream ss(v); std::string x; while (std::getline(ss, x, ',')) O.preemptIn.push_back(x); }
    else if (a == "--preempt-after") O.preemptAfter = true; else if (a == "--no-merge") noMerge = true; else if (a == "--alternate-victims") O.canon = true; else if (auto v = val("--spin=")) O.spinLimit = atoi(v);
    else if (a == "--no-race") O.axRace = false; else if (auto v = val("--dump-smt=")) O.dumpSmt = v;
    else in = a;
  }
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int pp[2]; if (pipe(pp)) return 2; tokR = pp[0]; tokW = pp[1]; fcntl(tokR, F_SETFL, O_NONBLOCK); for (int i = 1; i < O.jobs; i++) (void)!write(tokW, "x", 1);
  if (!noMerge) { extern void mergeInit(); mergeInit(); }
  tmpBase = "/tmp/vpeng." + std::to_string(getpid());
  LLVMContext ctx; SMDiagnostic diag; auto mod = parseIRFile(in, diag, ctx);
  if (!mod) { diag.print("engine", errs()); return 2; }
  M = mod.get();
  for (auto &F : *M) {
    auto n = F.getName(); bool ni = (O.canon && (n.contains("generate_canonical") || n.contains("12__shuffle_fn"))) || n.contains("vp_merge") || n.contains("atomic_wait_address") || n.contains("atomic_notify_address");
    if (n.contains("13__atomic_spin")) // libstdc++'s bounded spin before a wait: one look instead of sixteen (a subset of its outcomes with the same observable ones)
      for (auto &BB : F) for (auto &I : BB) if (auto *C = dyn_cast<ICmpInst>(&I)) if (auto *K = dyn_cast<ConstantInt>(C->getOperand(1))) if (K->getZExtValue() == 16 && C->getPredicate() == CmpInst::ICMP_SLT) C->setOperand(1, ConstantInt::get(K->getType(), 1));
    for (auto &x : noinl) if (n.contains(x)) ni = true;
    if (ni && !F.isDeclaration()) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
  }
  if (!noOpt) {
    PipelineTuningOptions PTO; PTO.LoopVectorization = PTO.LoopInterleaving = PTO.SLPVectorization = false; // vectors would only get in the way
    PassBuilder PB(nullptr, PTO); LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    auto MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1); MPM.run(*M, MAM);
  }
  if (!dumpIR.empty()) { std::error_code ec; raw_fd_ostream os(dumpIR, ec); M->print(os, nullptr); }
  DL = &M->getDataLayout();
  try {
    State s; s.thr.emplace_back();
    setupGlobals(s);
    Function *E = M->getFunction(O.entry);
    if (!E || E->isDeclaration()) engineError("no entry " + O.entry);
    // static constructors run before the entry point
    std::vector<Function *> ctors;
    if (auto *GV = M->getNamedGlobal("llvm.global_ctors")) if (GV->hasInitializer()) if (auto *CA = dyn_cast<ConstantArray>(GV->getInitializer())) for (auto &U : CA->operands()) ctors.push_back(cast<Function>(cast<ConstantStruct>(U)->getOperand(1)->stripPointerCasts()));
    pushCall(s, E, {}, true);
    for (auto it = ctors.rbegin(); it != ctors.rend(); ++it) pushCall(s, *it, {}, true);
    std::vector<State> wl; wl.push_back(std::move(s));
    explore(wl);
  } catch (std::runtime_error &e) { err = e.what(); }
  for (auto *f : allFns()) if (f->execs) { std::string d = demangle(f->F->getName().str()); S.fns[d] += f->execs; }
  mergeText(statsText());
  if (isChild) { (void)!write(tokW, "x", 1); collectKids(); std::ofstream(outFile) << accText(); _exit(0); }
  collectKids();
  std::ofstream o(outFile); o.precision(15);
  o << "{\"wall\":" << nowSec() - T0; for (auto &x : accN) { o << ",\"" << x.first << "\":"; if (x.first == "solverSec") o << x.second; else o << (uint64_t)x.second; }
  auto mp = [&](const char *n, std::map<std::string, uint64_t> &m) { o << ",\"" << n << "\":{"; bool f = true; for (auto &x : m) { o << (f ? "" : ",") << "\"" << jsonEsc(x.first) << "\":" << x.second; f = false; } o << "}"; };
  mp("reach", accR); mp("ended", accE); mp("functions", accF);
  auto li = [&](const char *n, std::vector<std::string> &v, bool q) { o << ",\"" << n << "\":["; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << (q ? "\"" : "") << v[i] << (q ? "\"" : ""); o << "]"; };
  li("samples", accS, true); li("violations", accV, false); li("replays", accP, false); li("errors", accX, true);
  o << "}\n"; o.close();
  return !accX.empty() ? 2 : !accV.empty() ? 1 : 0;
}
