#pragma once
#include "val.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/ADT/DenseMap.h>
#include <chrono>
#include <deque>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <unordered_map>

using namespace llvm;

// ---------------------------------------------------------------- memory
enum class OK : uint8_t { Heap, New, NewArr, Stack, Global, Exc, Tls };
struct SymB { Ex e; uint8_t idx; };
struct Obj {
  std::vector<uint8_t> b, st; // st: 0 undef, 1 concrete, 2 symbolic
  std::map<uint32_t, SymB> sym;
};
struct MemEnt {
  uint64_t base, size;
  std::shared_ptr<Obj> o;
  OK kind;
  bool alive;
  bool ro;
  int16_t owner; // allocating thread
  const Instruction *site;
};

// ---------------------------------------------------------------- code
struct Opnd { int32_t reg = -1; Val cv; const GlobalVariable *tls = nullptr; };
struct PInst {
  const Instruction *I;
  unsigned op;
  int32_t dest = -1;
  unsigned w = 0;
  std::vector<Opnd> ops;
  uint32_t bb;
  const Function *callee = nullptr; // direct callee
  int builtin = -1;
};
struct FnInfo {
  const Function *F;
  std::vector<PInst> code;
  std::vector<uint32_t> bbStart;
  DenseMap<const Value *, int32_t> regOf;
  DenseMap<const BasicBlock *, uint32_t> bbIdx;
  uint32_t nregs = 0;
  bool merge = false;
  uint64_t execs = 0;
};

struct Frame {
  FnInfo *f;
  uint32_t pc = 0;
  uint32_t prevbb = 0;
  std::vector<Val> r;
  std::vector<uint64_t> allocas;
  bool discardRet = false; // return value is not wanted (engine initiated call)
};

struct Cons { Ex e; std::shared_ptr<Cons> prev; unsigned depth; };

struct Caught { uint64_t ptr; bool rethrown; };
struct ExcInfo { uint64_t ptr; const Value *ti; uint64_t dtor; int refs; };

struct Thread {
  std::vector<std::shared_ptr<Frame>> st;
  std::map<const GlobalVariable *, uint64_t> tls;
  std::vector<Caught> caught;
  uint64_t excPtr = 0; // in flight / landing
  int status = 0;      // 0 runnable, 1 finished, 2 blocked futex, 3 blocked join, 4 blocked mutex, 5 blocked cond
  uint64_t waitAddr = 0;
  int waitThr = -1;
  uint64_t retval = 0;
  int uncaught = 0, canon = 0;
  uint64_t spinSig = 0; int spinCnt = 0;
  bool forcedYield = false, after = false;
  bool spin = false;                             // was forced to yield and has made no progress since
  std::map<const Instruction *, int> visits;     // executions of atomic operations since progress or the last forced yield
};

struct SymIn { std::string name; unsigned w; Ex e; };

struct Model {
  Z3_model m;
  explicit Model(Z3_model x) : m(x) { Z3_model_inc_ref(Z, m); }
  ~Model() { Z3_model_dec_ref(Z, m); }
};

struct State {
  std::vector<Thread> thr;
  int cur = 0;
  std::vector<MemEnt> mem;
  uint64_t nextAddr = 0x100000;
  std::shared_ptr<Cons> cons;
  std::vector<SymIn> inputs;
  std::map<uint64_t, ExcInfo> excs;
  std::shared_ptr<Model> model;
  uint64_t steps = 0;
  int64_t liveHeap = 0;
  int oomBudget = 0;
  bool autoSched = false;
  int preempts = 0;
  uint64_t consHash = 0;
  int lastChoiceThr = 0;
  int idleYields = 0;                      // forced yields since any thread made progress
  uint64_t wver = 0; // bumped whenever shared memory changes value (auto scheduling)
  std::vector<int> trace; // schedule trace (auto)
  std::vector<int> labels; // reached labels, in order
  // axiomatic mode
  int axThr = -1;
  Ex axGuard;
  int axPo = -1;                           // last event of this thread
  unsigned axSeq = 0;                      // allocations so far
  std::map<std::pair<const Instruction *, uint64_t>, int> axSame; // repeated plain reads
  std::map<const Instruction *, int> axCnt; // executions of synchronising instructions
  std::set<uint64_t> axOwn;                // locations overwritten after the parallel phase
  bool ended = false;
  Frame &top() {
    auto &p = thr[cur].st.back();
    if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
    return *p;
  }
  Thread &T() { return thr[cur]; }
};

struct PathEnd { std::string why; }; // thrown to end the current path silently

struct Violation {
  std::string kind, msg, where;
  std::vector<std::string> stack;
  std::vector<std::pair<std::string, std::string>> inputs; // name:width, value (hex)
  std::string extra; // json fragment
};

struct Stats {
  uint64_t paths = 0, instrs = 0, forks = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, asserts = 0, assertsSolver = 0, pruned = 0, checksTrivial = 0;
  double solverSec = 0;
  std::map<std::string, uint64_t> reach, fns, ended;
  std::vector<Violation> viol;
  std::vector<std::string> samples;
  std::vector<std::string> replays; // json: inputs and labels of completed paths
  // axiomatic
  uint64_t axEvents = 0, axReads = 0, axWrites = 0, axQueries = 0, axIters = 0, axRf = 0;
};
extern Stats S;
extern Module *M;
extern const DataLayout *DL;

struct Options {
  std::string entry = "vp_main";
  uint64_t maxPaths = 2000000, maxSteps = 20000000;
  double timeLimit = 800;
  int jobs = 8;
  bool verbose = false;
  bool keepGoing = false;
  unsigned queryTimeoutMs = 120000;
  uint64_t seed = 1;
  std::string dumpSmt;
  int axIterMax = 24;
  int axSpin = 8;
  std::vector<std::string> preemptIn;  // auto scheduling: preempt only at operations in (functions inlined from) files with these names
  bool canon = false, preemptAfter = false; int spinLimit = 3;                       // auto scheduling: executions of one atomic operation without progress before another thread has to run
  bool axRace = true;
  std::string replayOut;
};
extern Options O;

FnInfo *fnInfo(const Function *F);
void step(State &s);           // executes one instruction
MemEnt *findObj(State &s, uint64_t addr);
uint64_t allocObj(State &s, uint64_t size, uint64_t align, OK kind, const Instruction *site);
Val loadMem(State &s, uint64_t addr, unsigned width);
void storeMem(State &s, uint64_t addr, const Val &v, unsigned width);
bool feasible(State &s, const Ex &extra, std::shared_ptr<Model> *m = nullptr);
void addCons(State &s, const Ex &e);
void report(State &s, const std::string &kind, const std::string &msg, const std::shared_ptr<Model> &m, bool endPath = true);
extern std::vector<State> *WL; // current worklist
std::string whereStr(State &s);
void setReg(State &s, const PInst &p, const Val &v);
Val evalOp(State &s, const Opnd &o);
double nowSec();
uint64_t concretize(State &s, const Val &v, const char *what);
void pushCall(State &s, const Function *F, std::vector<Val> args, bool discard);
Val iteVal(const Ex &c, const Val &a, const Val &b);
// axiomatic hooks (ax.cpp)
bool axActive(State &s);
uint64_t axAlloc(State &s, uint64_t size, uint64_t align, OK kind);
void axFree(State &s, uint64_t base, uint64_t size);
void axAssume(State &s, const Ex &c);
Ex axLive(State &s);
MemEnt *axKnown(State &s, uint64_t a);
void axExc(State &s, const ExcInfo &x);
ExcInfo *axExcFind(uint64_t q);
bool axLoad(State &s, const PInst &p, uint64_t addr, const Val &addrV, unsigned w, AtomicOrdering ord, bool atomic, Val &out);
bool axStore(State &s, const PInst &p, const Val &addrV, const Val &v, unsigned w, AtomicOrdering ord, bool atomic);
void axFence(State &s, AtomicOrdering ord);
void axPar(State &s, std::vector<std::pair<uint64_t, uint64_t>> thr);
void axAssert(State &s, const Ex &cond, const std::string &msg);
void axBlockUntilChange(State &s, const PInst &p, const Val &addr, const Val &old, unsigned w);
void axNotify(State &s, const Val &addr, bool all);
