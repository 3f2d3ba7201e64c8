#include "interp.h"
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <cmath>
#include <sys/mman.h>
#include <atomic>
#include <llvm/IR/CFG.h>
#include <cstring>

Z3_context Z;
unsigned long long freshCounter = 0;
Stats S;
Module *M;
const DataLayout *DL;
Options O;
std::vector<State> *WL;

void engineError(const std::string &msg) { throw std::runtime_error(msg); }
double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ solver
static Z3_solver SOL;
static std::vector<std::shared_ptr<Cons>> solStack;
static Z3_solver getSolver() {
  if (!SOL) {
    SOL = Z3_mk_solver(Z);
    Z3_solver_inc_ref(Z, SOL);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), O.queryTimeoutMs);
    Z3_solver_set_params(Z, SOL, p); Z3_params_dec_ref(Z, p);
  }
  return SOL;
}
static void syncSolver(State &s) {
  Z3_solver sol = getSolver();
  std::vector<std::shared_ptr<Cons>> path;
  for (auto c = s.cons; c; c = c->prev) {
    if (c->depth <= solStack.size() && solStack[c->depth - 1] == c) break;
    path.push_back(c);
  }
  size_t keep = path.empty() ? (s.cons ? s.cons->depth : 0) : path.back()->depth - 1;
  if (solStack.size() > keep) { Z3_solver_pop(Z, sol, solStack.size() - keep); solStack.resize(keep); }
  for (auto it = path.rbegin(); it != path.rend(); ++it) {
    Z3_solver_push(Z, sol); Z3_solver_assert(Z, sol, (*it)->e); solStack.push_back(*it);
  }
}
bool feasible(State &s, const Ex &extra, std::shared_ptr<Model> *m) {
  if (isF(extra)) return false;
  syncSolver(s);
  double t0 = nowSec();
  Z3_solver sol = getSolver();
  Z3_solver_push(Z, sol); Z3_solver_assert(Z, sol, extra);
  Z3_lbool r = Z3_solver_check(Z, sol);
  S.queries++;
  if (r == Z3_L_TRUE) { S.sat++; if (m) *m = std::make_shared<Model>(Z3_solver_get_model(Z, sol)); }
  else if (r == Z3_L_FALSE) S.unsat++;
  Z3_solver_pop(Z, sol, 1);
  S.solverSec += nowSec() - t0;
  if (r == Z3_L_UNDEF) { S.unknown++; engineError("solver returned unknown"); }
  return r == Z3_L_TRUE;
}
static uint64_t exHash(const Ex &e);
void addCons(State &s, const Ex &e) {
  if (isT(e)) return;
  auto c = std::make_shared<Cons>(); c->e = e; c->prev = s.cons; c->depth = s.cons ? s.cons->depth + 1 : 1;
  s.cons = c;
  if (s.autoSched) s.consHash = s.consHash * 0x100000001b3ull ^ exHash(e);
  if (s.axThr >= 0 && s.axGuard) s.axGuard = exAnd(s.axGuard, e);
}
static std::optional<bool> evalUnder(const std::shared_ptr<Model> &m, const Ex &e) {
  Z3_ast out = nullptr;
  if (!m || !Z3_model_eval(Z, m->m, e, true, &out)) return {};
  Ex o(out);
  if (isT(o)) return true; if (isF(o)) return false;
  return {};
}
// decide both sides of a condition
static std::pair<bool, bool> bothSides(State &s, const Ex &c, std::shared_ptr<Model> &mt, std::shared_ptr<Model> &mf) {
  auto ev = evalUnder(s.model, c);
  bool t, f;
  if (ev && *ev) { t = true; mt = s.model; f = feasible(s, exNot(c), &mf); }
  else if (ev) { f = true; mf = s.model; t = feasible(s, c, &mt); }
  else { t = feasible(s, c, &mt); f = feasible(s, exNot(c), &mf); }
  return {t, f};
}

// ------------------------------------------------------------------ memory
static size_t entIdx(State &s, uint64_t addr) { // index of entry with base<=addr, or npos
  auto &v = s.mem; size_t lo = 0, hi = v.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].base <= addr) lo = m + 1; else hi = m; }
  return lo ? lo - 1 : (size_t)-1;
}
MemEnt *findObj(State &s, uint64_t addr) {
  size_t i = entIdx(s, addr);
  if (i == (size_t)-1) return nullptr;
  auto &e = s.mem[i];
  if (addr < e.base + e.size || (e.size == 0 && addr == e.base)) return &e;
  return nullptr;
}
uint64_t allocObj(State &s, uint64_t size, uint64_t align, OK kind, const Instruction *site) {
  if (align < 16) align = 16;
  uint64_t base;
  if (s.axThr >= 0) base = axAlloc(s, size, align, kind);
  else { uint64_t &na = s.nextAddr; base = (na + align - 1) / align * align; na = base + size + (align > 64 ? 64 : 48); }
  MemEnt e;
  e.base = base; e.size = size; e.kind = kind; e.alive = true; e.ro = false; e.owner = s.axThr >= 0 ? s.axThr : s.cur; e.site = site;
  e.o = std::make_shared<Obj>();
  e.o->b.assign(size, 0); e.o->st.assign(size, 0);
  if (!s.mem.empty() && s.mem.back().base > base) {
    auto it = s.mem.begin(); while (it != s.mem.end() && it->base < base) ++it;
    s.mem.insert(it, e);
  } else s.mem.push_back(e);
  return base;
}
static Obj &wobj(MemEnt &e) { if (e.o.use_count() > 1) e.o = std::make_shared<Obj>(*e.o); return *e.o; }

static Val loadBytes(const Obj &o, uint64_t off, unsigned nb) {
  bool allC = true, allU = true;
  for (unsigned i = 0; i < nb; i++) { if (o.st[off + i] != 1) allC = false; if (o.st[off + i] != 0) allU = false; }
  if (allU) return Val::undef(nb * 8);
  if (allC && nb <= 8) { uint64_t v = 0; for (unsigned i = 0; i < nb; i++) v |= (uint64_t)o.b[off + i] << (8 * i); return Val::con(v, nb * 8); }
  // whole symbolic word?
  if (o.st[off] == 2) {
    auto it = o.sym.find(off);
    if (it->second.idx == 0 && bvW(it->second.e) == nb * 8) {
      bool ok = true;
      for (unsigned i = 1; i < nb && ok; i++) {
        if (o.st[off + i] != 2) { ok = false; break; }
        auto j = o.sym.find(off + i); ok = j->second.idx == i && j->second.e == it->second.e;
      }
      if (ok) return fromBV(it->second.e, nb * 8);
    }
  }
  Ex r;
  for (unsigned i = 0; i < nb;) { // low to high, group
    Ex piece; unsigned n = 1;
    if (o.st[off + i] == 1) {
      uint64_t v = o.b[off + i];
      while (i + n < nb && n < 8 && o.st[off + i + n] == 1) { v |= (uint64_t)o.b[off + i + n] << (8 * n); n++; }
      piece = bvNum(v, 8 * n);
    } else if (o.st[off + i] == 0) piece = freshBV("undef", 8);
    else {
      auto it = o.sym.find(off + i); unsigned b0 = it->second.idx;
      while (i + n < nb && o.st[off + i + n] == 2) { auto j = o.sym.find(off + i + n); if (j->second.e == it->second.e && j->second.idx == b0 + n) n++; else break; }
      piece = exExtract(it->second.e, 8 * (b0 + n) - 1, 8 * b0);
    }
    r = r ? exConcat(piece, r) : piece;
    i += n;
  }
  uint64_t num; Ex rs = exSimp(r);
  if (nb <= 8 && isNum(rs, num)) return Val::con(num, nb * 8);
  return fromBV(rs, nb * 8);
}
static void storeBytes(Obj &o, uint64_t off, const Val &v, unsigned nb) {
  if (v.k == Val::Undef) { for (unsigned i = 0; i < nb; i++) { if (o.st[off + i] == 2) o.sym.erase(off + i); o.st[off + i] = 0; } return; }
  if (v.k == Val::Con) {
    for (unsigned i = 0; i < nb; i++) { if (o.st[off + i] == 2) o.sym.erase(off + i); o.st[off + i] = 1; o.b[off + i] = i < 8 ? (uint8_t)(v.c >> (8 * i)) : 0; }
    return;
  }
  Ex e = bvOf(v); unsigned w = bvW(e);
  if (w < nb * 8) e = Ex(Z3_mk_zero_ext(Z, nb * 8 - w, e));
  for (unsigned i = 0; i < nb; i++) { o.st[off + i] = 2; o.sym[off + i] = SymB{e, (uint8_t)i}; }
}
static bool checkAccess(State &s, uint64_t addr, unsigned nb, bool wr, MemEnt *&ent) {
  ent = findObj(s, addr);
  if (!ent || addr + nb > ent->base + ent->size) {
    report(s, "memory", addr < 4096 ? "null pointer access" : "out of bounds access (" + std::to_string(nb) + " bytes)", nullptr);
    return false;
  }
  if (!ent->alive) { report(s, "memory", wr ? "write to freed memory" : "read of freed memory", nullptr); return false; }
  if (wr && ent->ro) { report(s, "memory", "write to read-only memory", nullptr); return false; }
  return true;
}
Val loadMem(State &s, uint64_t addr, unsigned width) {
  unsigned nb = (width + 7) / 8; MemEnt *e;
  checkAccess(s, addr, nb, false, e);
  Val v = loadBytes(*e->o, addr - e->base, nb);
  if (v.w != width) {
    if (v.k == Val::Undef) return Val::undef(width);
    if (v.k == Val::Con) return Val::con(v.c, width);
    return fromBV(exExtract(bvOf(v), width - 1, 0), width);
  }
  return v;
}
void storeMem(State &s, uint64_t addr, const Val &v, unsigned width) {
  unsigned nb = (width + 7) / 8; MemEnt *e;
  checkAccess(s, addr, nb, true, e);
  storeBytes(wobj(*e), addr - e->base, v, nb);
}

// ------------------------------------------------------------------ code
static std::unordered_map<const Function *, std::unique_ptr<FnInfo>> fnCache;
static std::unordered_map<const GlobalVariable *, uint64_t> gvAddr;
static std::unordered_map<const Function *, uint64_t> fnAddr;
static std::vector<const Function *> fnByIdx;
static const uint64_t FN_BASE = 0x10000;

uint64_t addrOfFn(const Function *F) {
  auto it = fnAddr.find(F); if (it != fnAddr.end()) return it->second;
  uint64_t a = FN_BASE + 16 * fnByIdx.size(); fnByIdx.push_back(F); fnAddr[F] = a; return a;
}
const Function *fnAt(uint64_t a) {
  if (a < FN_BASE || (a - FN_BASE) % 16) return nullptr;
  uint64_t i = (a - FN_BASE) / 16; return i < fnByIdx.size() ? fnByIdx[i] : nullptr;
}
static unsigned typeW(Type *T) { return T->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(T).getFixedValue(); }

static Val undefOf(Type *T) {
  if (auto *ST = dyn_cast<StructType>(T)) { std::vector<Val> v; for (auto *e : ST->elements()) v.push_back(undefOf(e)); return Val::agg(v); }
  if (auto *AT = dyn_cast<ArrayType>(T)) { std::vector<Val> v(AT->getNumElements(), undefOf(AT->getElementType())); return Val::agg(v); }
  if (auto *VT = dyn_cast<FixedVectorType>(T)) { std::vector<Val> v(VT->getNumElements(), undefOf(VT->getElementType())); return Val::agg(v); }
  return Val::undef(typeW(T));
}
static Val evalConst(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    unsigned w = CI->getBitWidth();
    if (w <= 64) return Val::con(CI->getZExtValue(), w);
    SmallString<64> str; CI->getValue().toString(str, 10, false);
    return Val::sym(Ex(Z3_mk_numeral(Z, str.c_str(), Z3_mk_bv_sort(Z, w))), w);
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) { APInt a = CF->getValueAPF().bitcastToAPInt(); return Val::con(a.getLimitedValue(), a.getBitWidth()); }
  if (isa<ConstantPointerNull>(C)) return Val::con(0, 64);
  if (isa<UndefValue>(C)) return undefOf(C->getType());
  if (auto *F = dyn_cast<Function>(C)) return Val::con(addrOfFn(F), 64);
  if (auto *GV = dyn_cast<GlobalVariable>(C)) {
    if (GV->isThreadLocal()) return Val::con(0xdead, 64);
    auto it = gvAddr.find(GV);
    if (it == gvAddr.end()) engineError("unknown global " + GV->getName().str());
    return Val::con(it->second, 64);
  }
  if (auto *GA = dyn_cast<GlobalAlias>(C)) return evalConst(GA->getAliasee());
  if (isa<ConstantAggregateZero>(C) || isa<ConstantAggregate>(C) || isa<ConstantDataSequential>(C)) {
    unsigned n = 0; Type *T = C->getType();
    if (auto *ST = dyn_cast<StructType>(T)) n = ST->getNumElements();
    else if (auto *AT = dyn_cast<ArrayType>(T)) n = AT->getNumElements();
    else n = cast<FixedVectorType>(T)->getNumElements();
    std::vector<Val> v; for (unsigned i = 0; i < n; i++) v.push_back(evalConst(C->getAggregateElement(i)));
    return Val::agg(v);
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
    case Instruction::GetElementPtr: {
      Val b = evalConst(CE->getOperand(0)); APInt off(64, 0);
      if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) engineError("const gep");
      return Val::con(b.c + off.getZExtValue(), 64);
    }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return evalConst(CE->getOperand(0));
    case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::Trunc: case Instruction::ZExt: { Val v = evalConst(CE->getOperand(0)); return Val::con(v.c, typeW(CE->getType())); }
    case Instruction::Add: return Val::con(evalConst(CE->getOperand(0)).c + evalConst(CE->getOperand(1)).c, typeW(CE->getType()));
    case Instruction::Sub: return Val::con(evalConst(CE->getOperand(0)).c - evalConst(CE->getOperand(1)).c, typeW(CE->getType()));
    case Instruction::Xor: return Val::con(evalConst(CE->getOperand(0)).c ^ evalConst(CE->getOperand(1)).c, typeW(CE->getType()));
    case Instruction::Mul: return Val::con(evalConst(CE->getOperand(0)).c * evalConst(CE->getOperand(1)).c, typeW(CE->getType()));
    case Instruction::Shl: return Val::con(evalConst(CE->getOperand(0)).c << evalConst(CE->getOperand(1)).c, typeW(CE->getType()));
    case Instruction::ICmp: { bool eq = evalConst(CE->getOperand(0)).c == evalConst(CE->getOperand(1)).c;
      if (CE->getPredicate() == CmpInst::ICMP_EQ) return Val::con(eq, 1); if (CE->getPredicate() == CmpInst::ICMP_NE) return Val::con(!eq, 1); engineError("const icmp"); }
    case Instruction::Select: return evalConst(CE->getOperand(0)).c ? evalConst(CE->getOperand(1)) : evalConst(CE->getOperand(2));
    default: engineError(std::string("constexpr ") + CE->getOpcodeName());
    }
  }
  std::string str; raw_string_ostream os(str); C->print(os); engineError("constant " + str);
}
static void storeConst(Obj &o, uint64_t off, const Constant *C) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C)) { uint64_t n = DL->getTypeAllocSize(T); for (uint64_t i = 0; i < n; i++) { o.st[off + i] = 1; o.b[off + i] = 0; } return; }
  if (isa<UndefValue>(C)) { if (!T->isAggregateType()) return; return; }
  if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
    StringRef raw = CDS->getRawDataValues(); for (uint64_t i = 0; i < raw.size(); i++) { o.st[off + i] = 1; o.b[off + i] = (uint8_t)raw[i]; } return; }
  if (auto *ST = dyn_cast<StructType>(T)) {
    auto *SL = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++) storeConst(o, off + SL->getElementOffset(i), C->getAggregateElement(i));
    return;
  }
  if (auto *AT = dyn_cast<ArrayType>(T)) {
    uint64_t sz = DL->getTypeAllocSize(AT->getElementType());
    for (uint64_t i = 0; i < AT->getNumElements(); i++) storeConst(o, off + i * sz, C->getAggregateElement((unsigned)i));
    return;
  }
  storeBytes(o, off, evalConst(C), (typeW(T) + 7) / 8);
}
void setupGlobals(State &s) {
  for (auto &GV : M->globals()) {
    if (GV.isThreadLocal()) continue;
    if (GV.getName() == "llvm.global_ctors" || GV.getName() == "llvm.used" || GV.getName() == "llvm.compiler.used" || GV.getName() == "llvm.global_dtors") continue;
    uint64_t sz = 256;
    if (GV.hasInitializer() || GV.getValueType()->isSized()) sz = std::max<uint64_t>(DL->getTypeAllocSize(GV.getValueType()), GV.hasInitializer() ? 0 : 256);
    gvAddr[&GV] = allocObj(s, sz, GV.getAlign() ? GV.getAlign()->value() : 16, OK::Global, nullptr);
  }
  for (auto &F : *M) addrOfFn(&F);
  for (auto &GV : M->globals()) {
    auto it = gvAddr.find(&GV); if (it == gvAddr.end()) continue;
    MemEnt *e = findObj(s, it->second);
    if (GV.hasInitializer()) storeConst(wobj(*e), 0, GV.getInitializer());
    else if (GV.getName() == "__libc_single_threaded") storeBytes(wobj(*e), 0, Val::con(0, 8), 1);
    e->ro = GV.isConstant();
  }
}
static uint64_t tlsAddr(State &s, const GlobalVariable *GV) {
  auto &m = s.T().tls; auto it = m.find(GV);
  if (it != m.end()) return it->second;
  uint64_t a = allocObj(s, DL->getTypeAllocSize(GV->getValueType()), GV->getAlign() ? GV->getAlign()->value() : 16, OK::Tls, nullptr);
  MemEnt *e = findObj(s, a);
  if (GV->hasInitializer()) storeConst(wobj(*e), 0, GV->getInitializer());
  m[GV] = a; return a;
}

using Builtin = void (*)(State &, const PInst &, std::vector<Val> &);
static std::vector<std::pair<std::string, Builtin>> builtins;
static std::unordered_map<std::string, int> builtinIdx;
static int findBuiltin(const Function *F);

static Opnd mkOpnd(FnInfo &fi, const Value *V) {
  Opnd o;
  if (auto *C = dyn_cast<Constant>(V)) {
    if (auto *GV = dyn_cast<GlobalVariable>(C); GV && GV->isThreadLocal()) { o.tls = GV; return o; }
    o.cv = evalConst(C); return o;
  }
  if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V) || isa<BasicBlock>(V)) return o;
  o.reg = fi.regOf.lookup(V); return o;
}
FnInfo *fnInfo(const Function *F) {
  auto &p = fnCache[F];
  if (p) return p.get();
  p = std::make_unique<FnInfo>(); FnInfo &fi = *p; fi.F = F;
  fi.merge = F->getName().contains("vp_merge");
  for (auto &A : F->args()) fi.regOf[&A] = fi.nregs++;
  uint32_t bi = 0, pc = 0;
  for (auto &BB : *F) { fi.bbIdx[&BB] = bi++; fi.bbStart.push_back(pc); for (auto &I : BB) { if (isa<DbgInfoIntrinsic>(I)) continue; if (!I.getType()->isVoidTy()) fi.regOf[&I] = fi.nregs++; pc++; } }
  bi = 0;
  for (auto &BB : *F) {
    for (auto &I : BB) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      PInst q; q.I = &I; q.op = I.getOpcode(); q.bb = bi; q.w = I.getType()->isSized() && !I.getType()->isVoidTy() ? typeW(I.getType()) : 0;
      if (!I.getType()->isVoidTy()) q.dest = fi.regOf.lookup(&I);
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        for (auto &A : CB->args()) q.ops.push_back(mkOpnd(fi, A.get()));
        const Value *cv = CB->getCalledOperand()->stripPointerCasts();
        if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee()->stripPointerCasts();
        q.callee = dyn_cast<Function>(cv);
        if (!q.callee) q.ops.push_back(mkOpnd(fi, CB->getCalledOperand()));
        else q.builtin = findBuiltin(q.callee);
      } else if (auto *PN = dyn_cast<PHINode>(&I)) { for (auto &U : PN->incoming_values()) q.ops.push_back(mkOpnd(fi, U.get())); }
      else for (auto &U : I.operands()) q.ops.push_back(mkOpnd(fi, U.get()));
      fi.code.push_back(std::move(q));
    }
    bi++;
  }
  return &fi;
}

Val evalOp(State &s, const Opnd &o) {
  if (o.reg >= 0) return s.thr[s.cur].st.back()->r[o.reg];
  if (o.tls) return Val::con(tlsAddr(s, o.tls), 64);
  return o.cv;
}
void setReg(State &s, const PInst &p, const Val &v) { if (p.dest >= 0) s.top().r[p.dest] = v; }

std::string whereStr(State &s) {
  if (s.thr[s.cur].st.empty()) return "?";
  auto &fr = *s.thr[s.cur].st.back();
  std::string r = fr.f->F->getName().str();
  if (fr.pc < fr.f->code.size()) if (auto &dl = fr.f->code[fr.pc].I->getDebugLoc()) { auto *sc = cast<DILocation>(dl.get()); r += " (" + sc->getFilename().str() + ":" + std::to_string(dl.getLine()) + ")"; }
  return r;
}
static std::string modelVal(const std::shared_ptr<Model> &m, const Ex &e, unsigned w) {
  Z3_ast out = nullptr; Ex bv = w == 1 ? exIte(e, bvNum(1, 1), bvNum(0, 1)) : e;
  if (!m || !Z3_model_eval(Z, m->m, bv, true, &out)) return "0";
  Ex o(out); uint64_t v; if (isNum(o, v)) return std::to_string(v); return exStr(o);
}
void report(State &s, const std::string &kind, const std::string &msg, const std::shared_ptr<Model> &m0, bool endPath) {
  std::shared_ptr<Model> m = m0;
  if (s.axThr >= 0) { axAssert(s, exFalse(), kind + ": " + msg + " at " + whereStr(s)); throw PathEnd{"violation"}; }
  if (!m) { if (!feasible(s, exTrue(), &m)) throw PathEnd{"infeasible"}; }
  Violation v; v.kind = kind; v.msg = msg; v.where = whereStr(s);
  for (auto it = s.T().st.rbegin(); it != s.T().st.rend(); ++it) {
    auto &fr = **it; std::string r = fr.f->F->getName().str();
    if (fr.pc < fr.f->code.size()) if (auto &dl = fr.f->code[fr.pc].I->getDebugLoc()) {
      for (DILocation *d = dl.get(); d; d = d->getInlinedAt()) r += "\n      " + d->getScope()->getSubprogram()->getName().str() + " " + d->getFilename().str() + ":" + std::to_string(d->getLine());
    }
    v.stack.push_back(r);
  }
  for (auto &in : s.inputs) v.inputs.push_back({in.name + ":" + std::to_string(in.w), modelVal(m, in.e, in.w)});
  S.viol.push_back(v);
  if (endPath) throw PathEnd{"violation"};
}

// Pick one feasible value of v, forking the others (the current instruction is re-executed for them).
uint64_t concretize(State &s, const Val &v, const char *what) {
  if (v.k == Val::Con) return v.c;
  if (v.k == Val::Undef) { report(s, "undef", std::string("use of uninitialised value as ") + what, nullptr); }
  Ex e = bvOf(v);
  std::shared_ptr<Model> m = s.model;
  if (!m) { if (!feasible(s, exTrue(), &m)) throw PathEnd{"infeasible"}; s.model = m; }
  Z3_ast out = nullptr; Z3_model_eval(Z, m->m, e, true, &out); Ex o(out); uint64_t val;
  if (!isNum(o, val)) engineError("concretize");
  Ex eq = exEq(e, bvNum(val, v.w));
  std::shared_ptr<Model> mo;
  if (feasible(s, exNot(eq), &mo)) { S.forks++; WL->push_back(s); WL->back().model = mo; addCons(WL->back(), exNot(eq)); }
  addCons(s, eq);
  return val;
}
static uint64_t ptrOf(State &s, const Val &v) { return concretize(s, v, "address"); }

// decide a boolean, forking
static bool decide(State &s, const Val &c, const char *what) {
  if (c.k == Val::Con) return c.c & 1;
  if (c.k == Val::Undef) { report(s, "undef", std::string("branch on uninitialised value: ") + what, nullptr); }
  std::shared_ptr<Model> mt, mf;
  auto [t, f] = bothSides(s, c.e, mt, mf);
  if (t && f) { S.forks++; WL->push_back(s); WL->back().model = mf; addCons(WL->back(), exNot(c.e)); addCons(s, c.e); s.model = mt; return true; }
  if (t) { s.model = mt; return true; }
  if (f) { s.model = mf; return false; }
  throw PathEnd{"infeasible"};
}

Val iteVal(const Ex &c, const Val &a, const Val &b) {
  if (isT(c)) return a; if (isF(c)) return b;
  if (a.k == Val::Undef) return b; if (b.k == Val::Undef) return a;
  if (a.k == Val::Ag) { std::vector<Val> r; for (size_t i = 0; i < a.ag->size(); i++) r.push_back(iteVal(c, (*a.ag)[i], (*b.ag)[i])); return Val::agg(r); }
  if (a.k == Val::Con && b.k == Val::Con && a.c == b.c) return a;
  if (a.w == 1) return Val::sym(exIte(c, boolOf(a), boolOf(b)), 1);
  return fromBV(exIte(c, bvOf(a), bvOf(b)), a.w);
}

// ------------------------------------------------------------------ integer ops
static int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
static Val binop(State &s, const PInst &p, unsigned op, const Val &a, const Val &b, unsigned w) {
  if (a.k == Val::Ag) { std::vector<Val> r; for (size_t i = 0; i < a.ag->size(); i++) r.push_back(binop(s, p, op, (*a.ag)[i], (*b.ag)[i], (*a.ag)[i].w)); return Val::agg(r); }
  if (a.k == Val::Undef || b.k == Val::Undef) {
    if (op == Instruction::And && ((a.isCon() && !a.c) || (b.isCon() && !b.c))) return Val::con(0, w);
    if (a.k == Val::Undef && b.k == Val::Undef) return Val::undef(w);
    if (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Xor) return Val::undef(w);
    // fall through with fresh symbols
  }
  if (a.isCon() && b.isCon()) {
    uint64_t x = a.c, y = b.c; int64_t X = sx(x, w), Y = sx(y, w);
    switch (op) {
    case Instruction::Add: return Val::con(x + y, w);
    case Instruction::Sub: return Val::con(x - y, w);
    case Instruction::Mul: return Val::con(x * y, w);
    case Instruction::And: return Val::con(x & y, w);
    case Instruction::Or: return Val::con(x | y, w);
    case Instruction::Xor: return Val::con(x ^ y, w);
    case Instruction::Shl: return y >= w ? Val::undef(w) : Val::con(x << y, w);
    case Instruction::LShr: return y >= w ? Val::undef(w) : Val::con(x >> y, w);
    case Instruction::AShr: return y >= w ? Val::undef(w) : Val::con((uint64_t)(X >> y), w);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
      if (y == 0) report(s, "arith", "division by zero", nullptr);
      if (op == Instruction::UDiv) return Val::con(x / y, w);
      if (op == Instruction::URem) return Val::con(x % y, w);
      if (Y == -1) return op == Instruction::SDiv ? Val::con(-x, w) : Val::con(0, w);
      return op == Instruction::SDiv ? Val::con((uint64_t)(X / Y), w) : Val::con((uint64_t)(X % Y), w);
    }
  }
  if (w == 1) {
    Ex x = boolOf(a), y = boolOf(b);
    switch (op) {
    case Instruction::And: case Instruction::Mul: return Val::sym(exAnd(x, y), 1);
    case Instruction::Or: return Val::sym(exOr(x, y), 1);
    case Instruction::Xor: case Instruction::Add: case Instruction::Sub:
      if (isT(x)) return Val::sym(exNot(y), 1); if (isT(y)) return Val::sym(exNot(x), 1);
      if (isF(x)) return Val::sym(y, 1); if (isF(y)) return Val::sym(x, 1);
      return Val::sym(Ex(Z3_mk_xor(Z, x, y)), 1);
    default: engineError("i1 op");
    }
  }
  // identities
  auto isC = [](const Val &v, uint64_t c) { return v.k == Val::Con && v.c == c; };
  switch (op) {
  case Instruction::Add: if (isC(a, 0)) return b; if (isC(b, 0)) return a; break;
  case Instruction::Sub: if (isC(b, 0)) return a; if (a.isSym() && b.isSym() && a.e == b.e) return Val::con(0, w); break;
  case Instruction::Mul: if (isC(a, 1)) return b; if (isC(b, 1)) return a; if (isC(a, 0) || isC(b, 0)) return Val::con(0, w); break;
  case Instruction::And: if (isC(a, 0) || isC(b, 0)) return Val::con(0, w); if (isC(a, Val::mask(w))) return b; if (isC(b, Val::mask(w))) return a; break;
  case Instruction::Or: case Instruction::Xor: if (isC(a, 0)) return b; if (isC(b, 0)) return a; break;
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: if (isC(b, 0)) return a; break;
  }
  Ex x = bvOf(a), y = bvOf(b);
  Z3_ast r = nullptr;
  switch (op) {
  case Instruction::Add: r = Z3_mk_bvadd(Z, x, y); break;
  case Instruction::Sub: r = Z3_mk_bvsub(Z, x, y); break;
  case Instruction::Mul: r = Z3_mk_bvmul(Z, x, y); break;
  case Instruction::And: r = Z3_mk_bvand(Z, x, y); break;
  case Instruction::Or: r = Z3_mk_bvor(Z, x, y); break;
  case Instruction::Xor: r = Z3_mk_bvxor(Z, x, y); break;
  case Instruction::Shl: r = Z3_mk_bvshl(Z, x, y); break;
  case Instruction::LShr: r = Z3_mk_bvlshr(Z, x, y); break;
  case Instruction::AShr: r = Z3_mk_bvashr(Z, x, y); break;
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
    Val z = Val::sym(exEq(y, bvNum(0, w)), 1);
    if (z.isSym() ? decide(s, z, "division") : z.c) report(s, "arith", "division by zero", nullptr);
    r = op == Instruction::UDiv ? Z3_mk_bvudiv(Z, x, y) : op == Instruction::URem ? Z3_mk_bvurem(Z, x, y) : op == Instruction::SDiv ? Z3_mk_bvsdiv(Z, x, y) : Z3_mk_bvsrem(Z, x, y);
    break;
  }
  default: engineError("binop");
  }
  Ex re(r);
  if (w <= 64) { Ex rs = exSimp(re); return Val::sym(rs, w); }
  return Val::sym(exSimp(re), w);
}
static Val icmp(CmpInst::Predicate pr, const Val &a, const Val &b) {
  unsigned w = a.w;
  if (a.isCon() && b.isCon()) {
    uint64_t x = a.c, y = b.c; int64_t X = sx(x, w), Y = sx(y, w); bool r;
    switch (pr) {
    case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
    case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
    case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
    case CmpInst::ICMP_SLT: r = X < Y; break; case CmpInst::ICMP_SLE: r = X <= Y; break;
    case CmpInst::ICMP_SGT: r = X > Y; break; case CmpInst::ICMP_SGE: r = X >= Y; break;
    default: engineError("icmp");
    }
    return Val::con(r, 1);
  }
  if (a.isUndef() || b.isUndef()) return Val::undef(1);
  if (w == 1) {
    Ex x = boolOf(a), y = boolOf(b);
    if (pr == CmpInst::ICMP_EQ) return Val::sym(exSimp(Ex(Z3_mk_iff(Z, x, y))), 1);
    if (pr == CmpInst::ICMP_NE) return Val::sym(exSimp(Ex(Z3_mk_xor(Z, x, y))), 1);
    Val A = fromBV(bvOf(a), 2), B = A; // not used in practice
    engineError("i1 cmp");
  }
  Ex x = bvOf(a), y = bvOf(b); Z3_ast r;
  switch (pr) {
  case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x, y); break; case CmpInst::ICMP_NE: return Val::sym(exNot(exSimp(Ex(Z3_mk_eq(Z, x, y)))), 1);
  case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x, y); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x, y); break;
  case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x, y); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x, y); break;
  case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x, y); break; case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x, y); break;
  case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x, y); break; case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x, y); break;
  default: engineError("icmp");
  }
  return Val::sym(exSimp(Ex(r)), 1);
}
static Val castI(unsigned op, const Val &a, unsigned w) {
  if (a.k == Val::Ag) { std::vector<Val> r; for (auto &x : *a.ag) r.push_back(castI(op, x, w / a.ag->size())); return Val::agg(r); }
  if (a.isUndef()) { if (op == Instruction::ZExt && a.w < w) { return fromBV(Ex(Z3_mk_zero_ext(Z, w - a.w, bvOf(a))), w); } return Val::undef(w); }
  if (a.w == w) return a;
  if (a.isCon()) { if (op == Instruction::SExt) return Val::con((uint64_t)sx(a.c, a.w), w); return w > 64 ? Val::sym(exSimp(Ex(Z3_mk_zero_ext(Z, w - a.w, bvOf(a)))), w) : Val::con(a.c, w); }
  Ex x = bvOf(a);
  switch (op) {
  case Instruction::Trunc: return fromBV(exExtract(x, w - 1, 0), w);
  case Instruction::ZExt: return fromBV(exSimp(Ex(Z3_mk_zero_ext(Z, w - a.w, x))), w);
  case Instruction::SExt: return fromBV(exSimp(Ex(Z3_mk_sign_ext(Z, w - a.w, x))), w);
  default:
    if (w < a.w) return fromBV(exExtract(x, w - 1, 0), w);
    return fromBV(Ex(Z3_mk_zero_ext(Z, w - a.w, x)), w);
  }
}

// ------------------------------------------------------------------ typed load/store (aggregates)
static Val loadTyped(State &s, uint64_t addr, Type *T) {
  if (auto *ST = dyn_cast<StructType>(T)) { auto *SL = DL->getStructLayout(ST); std::vector<Val> v; for (unsigned i = 0; i < ST->getNumElements(); i++) v.push_back(loadTyped(s, addr + SL->getElementOffset(i), ST->getElementType(i))); return Val::agg(v); }
  if (auto *AT = dyn_cast<ArrayType>(T)) { uint64_t sz = DL->getTypeAllocSize(AT->getElementType()); std::vector<Val> v; for (unsigned i = 0; i < AT->getNumElements(); i++) v.push_back(loadTyped(s, addr + i * sz, AT->getElementType())); return Val::agg(v); }
  if (auto *VT = dyn_cast<FixedVectorType>(T)) { uint64_t sz = DL->getTypeAllocSize(VT->getElementType()); std::vector<Val> v; for (unsigned i = 0; i < VT->getNumElements(); i++) v.push_back(loadTyped(s, addr + i * sz, VT->getElementType())); return Val::agg(v); }
  return loadMem(s, addr, typeW(T));
}
static void storeTyped(State &s, uint64_t addr, const Val &v, Type *T) {
  if (auto *ST = dyn_cast<StructType>(T)) { auto *SL = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) storeTyped(s, addr + SL->getElementOffset(i), (*v.ag)[i], ST->getElementType(i)); return; }
  if (auto *AT = dyn_cast<ArrayType>(T)) { uint64_t sz = DL->getTypeAllocSize(AT->getElementType()); for (unsigned i = 0; i < AT->getNumElements(); i++) storeTyped(s, addr + i * sz, (*v.ag)[i], AT->getElementType()); return; }
  if (auto *VT = dyn_cast<FixedVectorType>(T)) { uint64_t sz = DL->getTypeAllocSize(VT->getElementType()); for (unsigned i = 0; i < VT->getNumElements(); i++) storeTyped(s, addr + i * sz, (*v.ag)[i], VT->getElementType()); return; }
  storeMem(s, addr, v, typeW(T));
}

// ------------------------------------------------------------------ calls, returns, unwinding
void pushCall(State &s, const Function *F, std::vector<Val> args, bool discard) {
  if (F->isDeclaration()) engineError("call of external function " + F->getName().str());
  FnInfo *fi = fnInfo(F); fi->execs++;
  auto fr = std::make_shared<Frame>(); fr->f = fi; fr->r.resize(fi->nregs); fr->discardRet = discard;
  unsigned i = 0;
  for (auto &A : F->args()) {
    if (i >= args.size()) break;
    Val v = args[i];
    if (A.hasByValAttr()) { // copy
      Type *T = A.getParamByValType(); uint64_t sz = DL->getTypeAllocSize(T);
      uint64_t src = ptrOf(s, v); uint64_t d = allocObj(s, sz, 16, OK::Stack, nullptr);
      MemEnt *se; if (!checkAccess(s, src, sz, false, se)) return; uint64_t so = src - se->base; auto sobj = se->o; MemEnt *de = findObj(s, d); Obj &o = wobj(*de);
      for (uint64_t k = 0; k < sz; k++) { o.st[k] = sobj->st[so + k]; o.b[k] = sobj->b[so + k]; if (o.st[k] == 2) o.sym[k] = sobj->sym.at(so + k); }
      fr->allocas.push_back(d); v = Val::con(d, 64);
    }
    fr->r[i] = v; i++;
  }
  if (s.T().st.size() > 2000) { report(s, "stack", "unbounded recursion (call depth > 2000)", nullptr); }
  s.T().st.push_back(std::move(fr));
}
static void killAllocas(State &s, Frame &fr) {
  for (uint64_t a : fr.allocas) { MemEnt *e = findObj(s, a); if (!e) { size_t i = entIdx(s, a); e = &s.mem[i]; } if (s.axThr >= 0) axFree(s, e->base, e->size); e->alive = false; e->o = std::make_shared<Obj>(); e->o->b.clear(); }
  // stack objects on the end of the table can be dropped: addresses are never reused
  if (s.axThr < 0) while (!s.mem.empty() && !s.mem.back().alive && s.mem.back().kind == OK::Stack) s.mem.pop_back();
}
static void gotoBB(State &s, const BasicBlock *bb) {
  Frame &fr = s.top(); FnInfo *f = fr.f;
  uint32_t cur = f->code[fr.pc].bb, nb = f->bbIdx.lookup(bb);
  uint32_t pc = f->bbStart[nb];
  // phis in parallel
  const BasicBlock *from = f->code[fr.pc].I->getParent();
  std::vector<std::pair<int, Val>> upd;
  while (f->code[pc].op == Instruction::PHI) {
    auto &q = f->code[pc]; auto *PN = cast<PHINode>(q.I); int k = PN->getBasicBlockIndex(from);
    upd.push_back({q.dest, evalOp(s, q.ops[k])}); pc++;
  }
  for (auto &u : upd) fr.r[u.first] = u.second;
  fr.prevbb = cur; fr.pc = pc;
}
static void threadFinished(State &s);
static void afterCall(State &s, const Val &ret, bool has) { // top frame's current instr is a call/invoke that returned
  Frame &fr = s.top(); auto &q = fr.f->code[fr.pc];
  if (has && q.dest >= 0) fr.r[q.dest] = ret;
  if (auto *IV = dyn_cast<InvokeInst>(q.I)) gotoBB(s, IV->getNormalDest()); else fr.pc++;
}
static void doReturn(State &s, const Val &v, bool has) {
  auto fr = s.T().st.back();
  killAllocas(s, *fr);
  s.T().st.pop_back();
  if (s.T().st.empty()) { if (has && v.k == Val::Con) s.T().retval = v.c; threadFinished(s); return; }
  if (fr->discardRet) { return; } // engine initiated call; continue where we were (caller pc already advanced)
  afterCall(s, v, has);
}
static void excKnown(State &s, uint64_t q) { if (s.axThr >= 0 && !s.excs.count(q)) if (auto *x = axExcFind(q)) s.excs[q] = *x; } // thrown by another thread
static ExcInfo &excAt(State &s, uint64_t q) { excKnown(s, q); auto it = s.excs.find(q); if (it == s.excs.end()) engineError("unknown exception object"); return it->second; }
static uint64_t exObjTi(State &s, uint64_t p);
static std::map<std::string, int> typeIds;
static int typeId(const Value *ti) {
  if (!ti) return 0;
  auto n = ti->getName().str(); auto it = typeIds.find(n); if (it != typeIds.end()) return it->second;
  int id = typeIds.size() + 1; typeIds[n] = id; return id;
}
static bool tiMatch(const Value *want, const Value *have) {
  if (!want) return true;
  if (!have) return false;
  if (want->getName() == have->getName()) return true;
  static const std::map<std::string, std::string> ext = {
      {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
      {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
      {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
      {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
  auto *GV = dyn_cast<GlobalVariable>(have);
  if (GV && GV->hasInitializer()) {
    auto *CS = dyn_cast<ConstantStruct>(GV->getInitializer());
    if (!CS) return false;
    for (unsigned i = 2; i < CS->getNumOperands(); i++) {
      const Value *b = CS->getOperand(i)->stripPointerCasts();
      if (isa<GlobalVariable>(b) && tiMatch(want, b)) return true;
    }
    return false;
  }
  auto it = ext.find(have->getName().str());
  if (it != ext.end()) {
    if (want->getName() == it->second) return true;
    if (auto *b = M->getNamedGlobal(it->second)) return tiMatch(want, b);
    auto it2 = ext.find(it->second); if (it2 != ext.end()) return want->getName() == it2->second;
  }
  return false;
}
static void excRelease(State &s, uint64_t p) {
  excKnown(s, p); auto it = s.excs.find(p); if (it == s.excs.end()) { report(s, "exception", "release of unknown exception object", nullptr); return; }
  if (--it->second.refs > 0) return;
  uint64_t d = it->second.dtor; s.excs.erase(it);
  const Function *F = d ? fnAt(d) : nullptr;
  if (F && !F->isDeclaration()) { pushCall(s, F, {Val::con(p, 64)}, true); }
  // the object's storage is considered released once the destructor ran; keep it readable for the destructor
  s.liveHeap--;
}
static void unwind(State &s) { // s.T().excPtr in flight; pops frames until a landing pad
  uint64_t p = s.T().excPtr; const Value *ti = excAt(s, p).ti;
  while (true) {
    if (s.T().st.empty()) { threadFinished(s); engineError("uncaught (internal)"); }
    Frame &fr = s.top(); auto &q = fr.f->code[fr.pc];
    bool callSite = isa<CallBase>(q.I);
    if (auto *IV = dyn_cast<InvokeInst>(q.I); IV && callSite) {
      // does the landing pad want it?
      auto *LP = IV->getLandingPadInst(); bool take = LP->isCleanup();
      for (unsigned i = 0; i < LP->getNumClauses() && !take; i++) {
        if (LP->isCatch(i)) { const Value *c = LP->getClause(i)->stripPointerCasts(); take = isa<ConstantPointerNull>(c) || tiMatch(c, ti); }
        else take = true; // filter
      }
      if (take) { gotoBB(s, IV->getUnwindDest()); return; }
    }
    if (fr.f->F->doesNotThrow()) { report(s, "terminate", "exception escapes a noexcept function", nullptr); }
    if (s.T().st.size() == 1) { report(s, "terminate", "uncaught exception " + (ti ? ti->getName().str() : "?"), nullptr); }
    if (fr.discardRet) { report(s, "terminate", "exception escapes a destructor", nullptr); }
    auto f0 = s.T().st.back(); killAllocas(s, *f0); s.T().st.pop_back();
  }
}
static void throwExc(State &s, uint64_t p) { s.T().excPtr = p; s.T().uncaught++; unwind(s); }
static uint64_t mkExc(State &s, uint64_t size, const Value *ti, uint64_t dtor) {
  uint64_t p = allocObj(s, size, 16, OK::Exc, nullptr); s.liveHeap++;
  s.excs[p] = ExcInfo{p, ti, dtor, 1}; if (s.axThr >= 0) axExc(s, s.excs[p]); return p;
}
static void throwStd(State &s, const char *tiName) {
  GlobalVariable *GV = M->getNamedGlobal(tiName);
  if (!GV) { GV = new GlobalVariable(*M, Type::getInt8Ty(M->getContext()), true, GlobalValue::ExternalLinkage, nullptr, tiName); gvAddr[GV] = allocObj(s, 256, 16, OK::Global, nullptr); }
  uint64_t p = mkExc(s, 64, GV, 0); throwExc(s, p);
}

// ------------------------------------------------------------------ heap
static void progress(State &s);
static uint64_t heapAlloc(State &s, const PInst &p, const Val &sz, uint64_t align, OK kind) {
  uint64_t n = concretize(s, sz, "allocation size");
  if (n > (64u << 20)) return 0;
  uint64_t a = allocObj(s, n, align, kind, p.I); s.liveHeap++; progress(s);
  return a;
}
static void heapFree(State &s, uint64_t a, OK kind, bool anyNew = false) {
  if (!a) return;
  progress(s);
  MemEnt *e = s.axThr >= 0 ? axKnown(s, a) : findObj(s, a);
  if (!e || e->base != a || (e->kind != OK::Heap && e->kind != OK::New && e->kind != OK::NewArr)) { report(s, "memory", "free of a pointer that was not allocated", nullptr); return; }
  if (!e->alive) { report(s, "memory", "double free", nullptr); return; }
  if (e->kind != kind) { report(s, "memory", "mismatched allocation/deallocation functions", nullptr); return; }
  if (s.axThr >= 0) axFree(s, e->base, e->size);
  e->alive = false; s.liveHeap--;
  if (s.axThr < 0) { e->o = std::make_shared<Obj>(); }
}

// ------------------------------------------------------------------ scheduling (auto mode)
static bool runnable(State &s, int t) {
  auto &T = s.thr[t];
  if (T.status == 0) return true;
  if (T.status == 3) return s.thr[T.waitThr].status == 1;
  if (T.status == 4) { Val v = loadMem(s, T.waitAddr, 32); return v.k == Val::Con && v.c == 0; }
  return false;
}
// ------------------------------------------------------------------ merging of states that differ only in the schedule (auto mode)
// live registers of a frame that is about to execute code[pc] (a caller's frame: the call itself)
static const std::vector<int32_t> &liveRegs(FnInfo &fi, uint32_t pc) {
  static std::map<std::pair<FnInfo *, uint32_t>, std::vector<int32_t>> memo;
  static std::map<FnInfo *, std::vector<std::vector<bool>>> outs;
  auto mk = memo.find({&fi, pc}); if (mk != memo.end()) return mk->second;
  size_t nb = fi.bbStart.size();
  auto bbEnd = [&](size_t b) { return b + 1 < nb ? fi.bbStart[b + 1] : (uint32_t)fi.code.size(); };
  auto back = [&](std::vector<bool> &L, const PInst &q) { if (q.dest >= 0) L[q.dest] = false; if (q.op != Instruction::PHI) for (auto &o : q.ops) if (o.reg >= 0) L[o.reg] = true; };
  auto &out = outs[&fi];
  if (out.empty()) {
    out.assign(nb, std::vector<bool>(fi.nregs, false));
    std::vector<std::vector<bool>> in(nb, std::vector<bool>(fi.nregs, false));
    std::vector<const BasicBlock *> bbs; for (auto &BB : *fi.F) bbs.push_back(&BB);
    for (bool ch = true; ch;) {
      ch = false;
      for (size_t b = nb; b-- > 0;) {
        std::vector<bool> L(fi.nregs, false);
        for (const BasicBlock *S : llvm::successors(bbs[b])) {
          uint32_t sb = fi.bbIdx[S]; for (uint32_t i = 0; i < fi.nregs; i++) if (in[sb][i]) L[i] = true;
          for (auto &PN : S->phis()) { auto it = fi.regOf.find(PN.getIncomingValueForBlock(bbs[b])); if (it != fi.regOf.end()) L[it->second] = true; }
        }
        out[b] = L;
        for (uint32_t i = bbEnd(b); i-- > fi.bbStart[b];) back(L, fi.code[i]);
        if (L != in[b]) { in[b] = L; ch = true; }
      }
    }
  }
  uint32_t b = fi.code[pc].bb; std::vector<bool> L = out[b];
  for (uint32_t i = bbEnd(b); i-- > pc;) back(L, fi.code[i]);
  // a value defined by this call itself is not live before it, the phi inputs of the next block are
  std::vector<int32_t> r; for (uint32_t i = 0; i < fi.nregs; i++) if (L[i]) r.push_back(i);
  return memo[{&fi, pc}] = r;
}
struct H2 {
  uint64_t a = 0x243f6a8885a308d3ull, b = 0x13198a2e03707344ull;
  void u(uint64_t v) { a = (a ^ v) * 0x9e3779b97f4a7c15ull; a ^= a >> 29; b = (b + v) * 0xd6e8feb86659fd93ull; b ^= b >> 32; }
};
static uint64_t exHash(const Ex &e) { // structural, the same in all processes
  static std::map<Z3_ast, std::pair<Ex, uint64_t>> memo; auto it = memo.find(e); if (it != memo.end()) return it->second.second;
  if (memo.size() > 20000) memo.clear();
  uint64_t h = std::hash<std::string>()(exStr(e)); memo[e] = {e, h}; return h;
}
static std::pair<uint64_t, uint64_t> stateHash(State &s) {
  static std::vector<uint64_t> canon; canon.assign(s.mem.size(), 0);
  std::map<int, uint64_t> rank; std::map<uint64_t, uint64_t> tls;
  for (size_t t = 0; t < s.thr.size(); t++) for (auto &x : s.thr[t].tls) tls[x.second] = s.thr[t].status == 1 ? 1 : (uint64_t)x.first ^ (t << 56); // 1: of a finished thread
  for (size_t i = 0; i < s.mem.size(); i++) { auto &e = s.mem[i]; if (!e.alive) continue; if (e.kind == OK::Global) { canon[i] = e.base; continue; } if (e.kind == OK::Tls) { canon[i] = tls[e.base]; continue; } int k = e.owner * 16 + (int)e.kind; canon[i] = (1ull << 63) | ((uint64_t)k << 40) | (rank[k]++ << 20 << 0); }
  H2 h;
  auto word = [&](uint64_t v) {
    if (v >= 0x100000 && v < s.nextAddr) { size_t i = entIdx(s, v); if (i != (size_t)-1 && s.mem[i].alive && v <= s.mem[i].base + s.mem[i].size) { h.u(canon[i]); h.u(v - s.mem[i].base); return; } }
    h.u(v);
  };
  std::function<void(const Val &)> val = [&](const Val &v) {
    h.u((uint64_t)v.k << 32 | v.w);
    switch (v.k) { case Val::Con: word(v.c); break; case Val::Sym: h.u(exHash(v.e)); break; case Val::Ag: for (auto &x : *v.ag) val(x); break; default: break; }
  };
  uint64_t sa = 0, sb = 0; H2 h0 = h; // independent of the order of the objects
  for (size_t i = 0; i < s.mem.size(); i++) {
    auto &e = s.mem[i]; if (!e.alive || (e.ro && e.kind == OK::Global) || canon[i] == 1) continue;
    h.u(canon[i]); h.u(e.size);
    const Obj &o = *e.o; size_t n = o.b.size(), j = 0;
    for (; j + 8 <= n; j += 8) {
      uint64_t st, v; memcpy(&st, &o.st[j], 8);
      if (!st) { h.u(0x55); continue; }
      memcpy(&v, &o.b[j], 8);
      if (st == 0x0101010101010101ull) { word(v); continue; }
      h.u(st); for (int k = 0; k < 8; k++) h.u(o.st[j + k] == 1 ? o.b[j + k] : 0);
    }
    for (; j < n; j++) { h.u(o.st[j]); h.u(o.st[j] == 1 ? o.b[j] : 0); }
    for (auto &x : o.sym) if (o.st[x.first] == 2) { h.u(x.first); h.u(x.second.idx); h.u(exHash(x.second.e)); }
    sa += h.a; sb += h.b; h.a = h0.a; h.b = h0.b;
  }
  h.u(sa); h.u(sb);
  h.u(s.cur); h.u(s.preempts); h.u(s.idleYields); h.u(s.liveHeap); h.u(s.oomBudget); h.u(s.thr.size());
  for (auto &t : s.thr) {
    h.u(t.status); if (t.status == 1) { word(t.retval); continue; } word(t.waitAddr); h.u(t.waitThr); h.u(t.spin | t.forcedYield << 1); h.u(t.canon & 1); h.u(t.uncaught); word(t.excPtr); word(t.retval);
    for (auto &v : t.visits) if (v.second) { h.u((uint64_t)v.first); h.u(v.second); }
    for (auto &c : t.caught) { word(c.ptr); h.u(c.rethrown); }
    h.u(t.st.size());
    for (size_t d = 0; d < t.st.size(); d++) {
      auto &f = *t.st[d]; h.u((uint64_t)f.f); h.u(f.pc); h.u(f.discardRet); if (f.pc >= f.f->code.size()) continue;
      if (f.f->code[f.pc].op == Instruction::PHI) h.u(f.prevbb);
      for (int32_t r : liveRegs(*f.f, f.pc)) val(f.r[r]);
      for (uint64_t a : f.allocas) word(a);
    }
  }
  for (auto &x : s.excs) { word(x.first); h.u(x.second.refs); }
  h.u(s.consHash);
  return {h.a, h.b};
}
static std::atomic<uint64_t> *visited = nullptr; static constexpr uint64_t VIS = 1ull << 27; // shared by all processes
void mergeInit() { visited = (std::atomic<uint64_t> *)mmap(nullptr, VIS * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (visited == MAP_FAILED) visited = nullptr; }
// at a choice of the scheduler: ends the path if a state that agrees in everything but the history of choices was here before
static void mergePoint(State &s, uint64_t tag) {
  if (!visited) return;
  auto h = stateHash(s); uint64_t k = (h.first ^ (h.second * 31) ^ tag) | 1, i = (h.second ^ tag * 0x9e3779b97f4a7c15ull) % VIS;
  for (int n = 0; n < 64; n++, i = (i + 1) % VIS) {
    uint64_t c = visited[i].load(std::memory_order_relaxed);
    if (c == 0 && visited[i].compare_exchange_strong(c, k)) return;
    if (c == k) { s.model.reset(); throw PathEnd{"merged"}; }
  }
}
// choose the next thread among `opts`; forks
static void chooseThread(State &s, std::vector<int> opts) {
  if (opts.size() == 1) { s.cur = opts[0]; return; }
  mergePoint(s, 1);
  Ex v = freshBV("sched", 32);
  s.inputs.push_back({"sched", 32, v});
  for (size_t i = 1; i < opts.size(); i++) {
    S.forks++; WL->push_back(s); State &t = WL->back(); t.model.reset();
    auto c = std::make_shared<Cons>(); c->e = exEq(v, bvNum(opts[i], 32)); c->prev = t.cons; c->depth = t.cons ? t.cons->depth + 1 : 1; t.cons = c;
    t.cur = opts[i]; t.thr[t.cur].status = 0; t.thr[t.cur].forcedYield = false;
    t.trace.push_back(opts[i]);
  }
  auto c = std::make_shared<Cons>(); c->e = exEq(v, bvNum(opts[0], 32)); c->prev = s.cons; c->depth = s.cons ? s.cons->depth + 1 : 1; s.cons = c;
  s.model.reset();
  s.cur = opts[0]; s.trace.push_back(opts[0]);
}
static void blockSwitch(State &s) { // current thread cannot run
  std::vector<int> o; for (int i = 0; i < (int)s.thr.size(); i++) if (i != s.cur && runnable(s, i)) o.push_back(i);
  if (runnable(s, s.cur)) o.push_back(s.cur);
  if (o.empty()) { report(s, "deadlock", "all threads are blocked", nullptr); }
  // threads in forced-yield (spinning) state run only if nobody else can
  std::vector<int> o2; for (int t : o) if (!s.thr[t].forcedYield) o2.push_back(t);
  if (o2.empty()) { for (int t : o) s.thr[t].forcedYield = false; o2 = o; }
  chooseThread(s, o2);
  s.thr[s.cur].status = 0; s.thr[s.cur].forcedYield = false;
}
// something happened that a spinning thread does not do
static void progress(State &s) { if (!s.autoSched) return; s.idleYields = 0; auto &T = s.T(); T.spin = false; T.visits.clear(); }
static void clearYields(State &s) { if (!s.T().spin) for (auto &t : s.thr) t.forcedYield = false; }
static void forceYield(State &s) {
  auto &T = s.T(); T.visits.clear(); T.spin = true; T.forcedYield = true;
  if (++s.idleYields > 40 * (int)s.thr.size()) { report(s, "livelock", "the threads that can run only spin", nullptr); return; }
  blockSwitch(s);
}
static bool mayPreempt(const Instruction *I) {
  if (O.preemptIn.empty()) return true;
  static std::map<const Instruction *, bool> memo; auto it = memo.find(I); if (it != memo.end()) return it->second;
  bool r = false;
  for (const DILocation *L = I->getDebugLoc().get(); L && !r; L = L->getInlinedAt()) { auto f = L->getFilename(); for (auto &n : O.preemptIn) if (f.contains(n)) r = true; }
  return memo[I] = r;
}
// preemption point before a synchronisation operation. returns true if switched away (instruction must be re-executed)
static bool preemptPoint(State &s, const Instruction *I) {
  if (!s.autoSched) return false;
  if (++s.T().visits[I] > O.spinLimit) { forceYield(s); return true; }
  if (s.preempts <= 0 || s.T().spin || !mayPreempt(I)) return false;
  std::vector<int> o; for (int i = 0; i < (int)s.thr.size(); i++) if (i != s.cur && runnable(s, i) && !s.thr[i].forcedYield) o.push_back(i);
  if (o.empty()) return false;
  mergePoint(s, 2);
  Ex v = freshBV("sched", 32); s.inputs.push_back({"sched", 32, v});
  for (int t : o) {
    S.forks++; WL->push_back(s); State &n = WL->back(); n.model.reset(); n.T().visits[I]--;
    auto c = std::make_shared<Cons>(); c->e = exEq(v, bvNum(t, 32)); c->prev = n.cons; c->depth = n.cons ? n.cons->depth + 1 : 1; n.cons = c;
    n.preempts--; n.cur = t; n.thr[t].status = 0; n.trace.push_back(t);
  }
  auto c = std::make_shared<Cons>(); c->e = exEq(v, bvNum(s.cur, 32)); c->prev = s.cons; c->depth = s.cons ? s.cons->depth + 1 : 1; s.cons = c; s.model.reset();
  return false;
}
// after an atomic write (option --preempt-after): plain accesses that wrongly follow it are seen from the other side
static void preemptAfter(State &s) {
  s.T().after = false; if (s.preempts <= 0 || s.T().spin) return;
  std::vector<int> o; for (int i = 0; i < (int)s.thr.size(); i++) if (i != s.cur && runnable(s, i) && !s.thr[i].forcedYield) o.push_back(i);
  if (o.empty()) return;
  mergePoint(s, 3);
  Ex v = freshBV("sched", 32); s.inputs.push_back({"sched", 32, v});
  auto con = [&](State &n, int t) { auto c = std::make_shared<Cons>(); c->e = exEq(v, bvNum(t, 32)); c->prev = n.cons; c->depth = n.cons ? n.cons->depth + 1 : 1; n.cons = c; };
  for (int t : o) { S.forks++; WL->push_back(s); State &n = WL->back(); n.model.reset(); con(n, t); n.preempts--; n.cur = t; n.thr[t].status = 0; n.trace.push_back(t); }
  con(s, s.cur); s.model.reset();
}
static void wake(State &s, uint64_t addr, uint64_t n) {
  bool any = false;
  std::vector<int> w; for (int i = 0; i < (int)s.thr.size(); i++) if (s.thr[i].status == 2 && s.thr[i].waitAddr == addr) w.push_back(i);
  for (size_t i = 0; i < w.size() && i < n; i++) { s.thr[w[i]].status = 0; any = true; }
  if (any) progress(s);
}
static void threadFinished(State &s) {
  s.T().status = 1; progress(s);
  if (s.cur == 0) throw PathEnd{"done"};
  if (s.autoSched) { blockSwitch(s); return; }
  s.cur = 0;
}

// ------------------------------------------------------------------ builtins
#define B(nm) static void b_##nm(State &s, const PInst &p, std::vector<Val> &a)
static void ret(State &s, const PInst &p, const Val &v) { setReg(s, p, v); afterCall(s, v, false); }
static std::string cstr(State &s, uint64_t a) { std::string r; while (true) { Val v = loadMem(s, a++, 8); if (v.k != Val::Con || !v.c) break; r += (char)v.c; } return r; }

B(sym) { // uint64 vp_sym(bits, name)
  unsigned w = concretize(s, a[0], "width"); std::string n = cstr(s, ptrOf(s, a[1]));
  Ex e = freshBV(n, w); s.inputs.push_back({n, w, e});
  ret(s, p, w < 64 ? fromBV(Ex(Z3_mk_zero_ext(Z, 64 - w, w == 1 ? bvOf(Val::sym(e, 1)) : e)), 64) : fromBV(e, 64));
}
B(choice) { // int vp_choice(n): fork over all values
  uint64_t n = concretize(s, a[0], "choice");
  if (n == 0) engineError("vp_choice(0)");
  if (n == 1) { ret(s, p, Val::con(0, 32)); return; }
  Ex v = freshBV("choice", 32); s.inputs.push_back({"choice", 32, v});
  for (uint64_t i = 1; i < n; i++) {
    S.forks++; WL->push_back(s); State &t = WL->back(); t.model.reset();
    uint64_t ch = t.consHash; addCons(t, exEq(v, bvNum(i, 32))); t.consHash = ch; ret(t, p, Val::con(i, 32));
  }
  s.model.reset(); uint64_t ch = s.consHash; addCons(s, exEq(v, bvNum(0, 32))); s.consHash = ch; ret(s, p, Val::con(0, 32));
}
B(assume) {
  if (a[0].k == Val::Con) { if (!a[0].c) { S.pruned++; throw PathEnd{"assume"}; } afterCall(s, Val(), false); return; }
  Ex c = a[0].w == 1 ? boolOf(a[0]) : exNot(exEq(bvOf(a[0]), bvNum(0, a[0].w)));
  std::shared_ptr<Model> m;
  auto ev = evalUnder(s.model, c);
  if (!(ev && *ev)) { if (!feasible(s, c, &m)) { S.pruned++; throw PathEnd{"assume"}; } s.model = m; }
  if (s.axThr >= 0) axAssume(s, c);
  addCons(s, c); afterCall(s, Val(), false);
}
B(assert_) { // void vp_assert(bool, msg)
  S.asserts++;
  std::string msg = cstr(s, ptrOf(s, a[1]));
  Val c = a[0];
  if (c.k == Val::Undef) { report(s, "assert", msg + " (depends on uninitialised memory)", nullptr); }
  if (c.k == Val::Con) { if (!(c.c)) report(s, "assert", msg, nullptr); S.checksTrivial++; afterCall(s, Val(), false); return; }
  Ex e = c.w == 1 ? boolOf(c) : exNot(exEq(bvOf(c), bvNum(0, c.w)));
  if (s.axThr >= 0) { axAssert(s, e, msg); afterCall(s, Val(), false); return; }
  S.assertsSolver++;
  std::shared_ptr<Model> m;
  if (feasible(s, exNot(e), &m)) {
    report(s, "assert", msg, m, false);
    if (!feasible(s, e, &m)) throw PathEnd{"violation"};
    s.model = m; addCons(s, e);
  }
  afterCall(s, Val(), false);
}
std::vector<std::string> labelNames;
B(reach) { progress(s); std::string n = cstr(s, ptrOf(s, a[0])); if (s.axThr >= 0) { extern void axReach(State &, const std::string &); axReach(s, n); } else { S.reach[n]++; static std::map<std::string, int> ids; auto it = ids.find(n); if (it == ids.end()) { it = ids.emplace(n, (int)labelNames.size()).first; labelNames.push_back(n); } s.labels.push_back(it->second); } afterCall(s, Val(), false); }
B(reach_if) { // axiomatic mode: reachability witness with a condition, without a branch
  std::string n = cstr(s, ptrOf(s, a[1])); Ex c = a[0].w == 1 ? boolOf(a[0]) : exNot(exEq(bvOf(a[0]), bvNum(0, a[0].w)));
  if (s.axThr < 0) throw std::runtime_error("vp_reach_if outside of the axiomatic mode");
  extern void axReachIf(State &, const std::string &, const Ex &); axReachIf(s, n, c); afterCall(s, Val(), false);
}
B(spawn) { // int vp_spawn(void(*)(void*), void*)
  const Function *F = fnAt(ptrOf(s, a[0])); int id = s.thr.size(); s.thr.emplace_back();
  int c = s.cur; s.cur = id; pushCall(s, F, {a[1]}, false); s.cur = c;
  ret(s, p, Val::con(id, 32));
}
B(switch_) { uint64_t t = concretize(s, a[0], "thread"); afterCall(s, Val(), false);
  if (t >= s.thr.size()) engineError("vp_switch bad thread"); if (s.thr[t].status == 1) report(s, "sched", "switch to finished thread", nullptr); s.cur = t; }
B(self) { ret(s, p, Val::con(s.cur, 32)); }
B(live) { if (s.axThr >= 0) { ret(s, p, fromBV(axLive(s), 64)); return; } ret(s, p, Val::con(s.liveHeap, 64)); }
B(hbytes) { uint64_t n = 0; for (auto &e : s.mem) if (e.alive && (e.kind == OK::Heap || e.kind == OK::New || e.kind == OK::NewArr)) n += e.size; ret(s, p, Val::con(n, 64)); }
B(valid) { // bool vp_valid(ptr, size): [ptr, ptr+size) lies inside one live heap object
  if (a[0].k == Val::Undef || a[1].k == Val::Undef) { report(s, "undef", "pointer or size is uninitialised", nullptr); return; }
  uint64_t q;
  if (a[0].k == Val::Con) q = a[0].c;
  else {
    std::shared_ptr<Model> m = s.model; if (!m) { if (!feasible(s, exTrue(), &m)) throw PathEnd{"infeasible"}; s.model = m; }
    Z3_ast out = nullptr; Z3_model_eval(Z, m->m, a[0].e, true, &out); Ex o(out); if (!isNum(o, q)) engineError("vp_valid");
  }
  size_t i = entIdx(s, q); // an end pointer belongs to the object it ends
  if (i == (size_t)-1 || !s.mem[i].alive || (s.mem[i].kind != OK::Heap && s.mem[i].kind != OK::New && s.mem[i].kind != OK::NewArr)) { ret(s, p, Val::con(0, 1)); return; }
  Ex x = bvOf(a[0]), n = bvOf(a[1]), lo = bvNum(s.mem[i].base, 64), hi = bvNum(s.mem[i].base + s.mem[i].size, 64);
  Ex c = exAndN({Ex(Z3_mk_bvuge(Z, x, lo)), Ex(Z3_mk_bvule(Z, x, hi)), Ex(Z3_mk_bvule(Z, n, Ex(Z3_mk_bvsub(Z, hi, x))))});
  ret(s, p, Val::sym(exSimp(c), 1));
}
B(oom) { s.oomBudget = concretize(s, a[0], "oom"); afterCall(s, Val(), false); }
B(note) { if (O.verbose) fprintf(stderr, "[note] %s %s\n", cstr(s, ptrOf(s, a[0])).c_str(), a[1].k == Val::Con ? std::to_string(a[1].c).c_str() : a[1].k == Val::Sym ? exStr(a[1].e).c_str() : "undef"); afterCall(s, Val(), false); }
B(end) { throw PathEnd{"vp_end"}; }
B(fail) { report(s, "assert", cstr(s, ptrOf(s, a[0])), nullptr); }
B(auto_) { s.autoSched = true; s.preempts = concretize(s, a[0], "preempts"); afterCall(s, Val(), false); }
B(isconc) { ret(s, p, Val::con(a[0].k == Val::Con, 1)); }
B(par) { // vp_par(n, fns*, args*)
  uint64_t n = concretize(s, a[0], "par"); std::vector<std::pair<uint64_t, uint64_t>> v;
  uint64_t f = ptrOf(s, a[1]), g = ptrOf(s, a[2]);
  for (uint64_t i = 0; i < n; i++) v.push_back({loadMem(s, f + 8 * i, 64).c, loadMem(s, g + 8 * i, 64).c});
  afterCall(s, Val(), false);
  axPar(s, v);
}

// allocations above 64 MiB fail
static bool tooBig(State &s, const Val &n) { Val c = icmp(CmpInst::ICMP_UGT, n, Val::con(64u << 20, 64)); return decide(s, c, "allocation size"); }
static bool oomFork(State &s, const PInst &p) { // true: this state must fail the allocation
  if (s.oomBudget <= 0) return false;
  Ex e = freshBool("oom"); s.inputs.push_back({"oom", 1, e});
  S.forks++; WL->push_back(s); State &t = WL->back(); t.model.reset();
  // the alternative succeeds: give it a marker so that re-execution does not ask again
  t.lastChoiceThr = -7; addCons(t, exNot(e));
  s.model.reset(); addCons(s, e); s.oomBudget--; return true;
}
static bool allocFails(State &s, const PInst &p) {
  if (s.lastChoiceThr == -7) { s.lastChoiceThr = 0; return false; }
  return oomFork(s, p);
}
B(malloc_) { bool big = tooBig(s, a[0]); uint64_t n = big ? 0 : concretize(s, a[0], "allocation size"); if (big || allocFails(s, p)) { ret(s, p, Val::con(0, 64)); return; } ret(s, p, Val::con(heapAlloc(s, p, Val::con(n, 64), 16, OK::Heap), 64)); }
B(calloc_) { uint64_t n = concretize(s, a[0], "n") * concretize(s, a[1], "size"); if (n > (64u << 20) || allocFails(s, p)) { ret(s, p, Val::con(0, 64)); return; }
  uint64_t q = heapAlloc(s, p, Val::con(n, 64), 16, OK::Heap); MemEnt *e = findObj(s, q); Obj &o = wobj(*e); std::fill(o.st.begin(), o.st.end(), 1); ret(s, p, Val::con(q, 64)); }
B(aligned_alloc_) { uint64_t al = concretize(s, a[0], "align"), n = concretize(s, a[1], "size"); if (allocFails(s, p)) { ret(s, p, Val::con(0, 64)); return; } ret(s, p, Val::con(heapAlloc(s, p, Val::con(n, 64), al, OK::Heap), 64)); }
B(free_) { heapFree(s, ptrOf(s, a[0]), OK::Heap); afterCall(s, Val(), false); }
static void newImpl(State &s, const PInst &p, std::vector<Val> &a, OK k, uint64_t al) {
  bool big = tooBig(s, a[0]); uint64_t n = big ? 0 : concretize(s, a[0], "allocation size");
  if (big || allocFails(s, p)) { throwStd(s, "_ZTISt9bad_alloc"); return; }
  ret(s, p, Val::con(heapAlloc(s, p, Val::con(n, 64), al, k), 64));
}
B(new_) { newImpl(s, p, a, OK::New, 16); }
B(newa) { newImpl(s, p, a, OK::NewArr, 16); }
B(newal) { newImpl(s, p, a, OK::New, concretize(s, a[1], "align")); }
B(newaal) { newImpl(s, p, a, OK::NewArr, concretize(s, a[1], "align")); }
B(newnt) { uint64_t n = concretize(s, a[0], "size"); if (n > (64u << 20) || allocFails(s, p)) { ret(s, p, Val::con(0, 64)); return; } ret(s, p, Val::con(heapAlloc(s, p, Val::con(n, 64), 16, OK::New), 64)); }
B(del) { heapFree(s, ptrOf(s, a[0]), OK::New); afterCall(s, Val(), false); }
B(dela) { heapFree(s, ptrOf(s, a[0]), OK::NewArr); afterCall(s, Val(), false); }

static void copyMem(State &s, uint64_t d, uint64_t sr, uint64_t n) {
  if (!n) return;
  MemEnt *se, *de; if (!checkAccess(s, sr, n, false, se)) return; auto so = se->o; uint64_t off = sr - se->base;
  if (!checkAccess(s, d, n, true, de)) return; uint64_t doff = d - de->base;
  std::shared_ptr<Obj> keep = so; Obj tmp; // handle overlap by copying first
  std::vector<uint8_t> st(keep->st.begin() + off, keep->st.begin() + off + n), b(keep->b.begin() + off, keep->b.begin() + off + n);
  std::vector<std::pair<uint32_t, SymB>> sy; for (auto it = keep->sym.lower_bound(off); it != keep->sym.end() && it->first < off + n; ++it) sy.push_back({it->first - off, it->second});
  keep.reset(); so.reset();
  Obj &o = wobj(*de);
  for (uint64_t i = 0; i < n; i++) { if (o.st[doff + i] == 2) o.sym.erase(doff + i); o.st[doff + i] = st[i]; o.b[doff + i] = b[i]; }
  for (auto &x : sy) o.sym[doff + x.first] = x.second;
}
B(strlen_) { uint64_t q = ptrOf(s, a[0]); ret(s, p, Val::con(cstr(s, q).size(), 64)); }
B(strcmp_) { auto x = cstr(s, ptrOf(s, a[0])), y = cstr(s, ptrOf(s, a[1])); ret(s, p, Val::con((uint64_t)(int64_t)x.compare(y), 32)); }
B(memcmp_) { uint64_t n = concretize(s, a[2], "n"), x = ptrOf(s, a[0]), y = ptrOf(s, a[1]); Val r = Val::con(0, 32);
  Ex res = bvNum(0, 32);
  for (int64_t i = n - 1; i >= 0; i--) { Val u = loadMem(s, x + i, 8), v = loadMem(s, y + i, 8); Ex eq = exEq(bvOf(u), bvOf(v)); Ex lt(Z3_mk_bvult(Z, bvOf(u), bvOf(v))); res = exIte(eq, res, exIte(lt, bvNum(0xffffffff, 32), bvNum(1, 32))); }
  ret(s, p, fromBV(exSimp(res), 32)); }
B(memmove_) { uint64_t n = concretize(s, a[2], "n"); copyMem(s, ptrOf(s, a[0]), ptrOf(s, a[1]), n); ret(s, p, a[0]); }
B(nop) { ret(s, p, p.dest >= 0 ? Val::con(0, p.w) : Val()); }
B(nopThis) { ret(s, p, a.empty() ? Val() : a[0]); }
B(abort_) { report(s, "abort", "abort/terminate called", nullptr); }
B(assertfail) { report(s, "library assertion", cstr(s, ptrOf(s, a[0])) + " (" + cstr(s, ptrOf(s, a[1])) + ":" + std::to_string(a[2].c) + ")", nullptr); }
B(glibassert) { report(s, "library assertion", "libstdc++ assertion " + cstr(s, ptrOf(s, a[3])), nullptr); }

B(exalloc) { uint64_t n = concretize(s, a[0], "size"); uint64_t q = allocObj(s, n, 16, OK::Exc, p.I); s.liveHeap++; ret(s, p, Val::con(q, 64)); }
B(exfree) { s.liveHeap--; uint64_t q = ptrOf(s, a[0]); MemEnt *e = findObj(s, q); if (e) e->alive = false; afterCall(s, Val(), false); }
B(throw_) {
  auto *CB = cast<CallBase>(p.I); uint64_t q = ptrOf(s, a[0]);
  const Value *ti = CB->getArgOperand(1)->stripPointerCasts();
  s.excs[q] = ExcInfo{q, ti, a[2].c, 1}; if (s.axThr >= 0) axExc(s, s.excs[q]); throwExc(s, q);
}
B(begincatch) { uint64_t q = ptrOf(s, a[0]); s.T().caught.push_back({q, false}); s.T().uncaught--; ret(s, p, a[0]); }
B(endcatch) {
  if (s.T().caught.empty()) { report(s, "exception", "end_catch without catch", nullptr); return; }
  auto c = s.T().caught.back(); s.T().caught.pop_back();
  afterCall(s, Val(), false);
  if (!c.rethrown) excRelease(s, c.ptr);
}
B(rethrow) { if (s.T().caught.empty()) { report(s, "terminate", "rethrow with no exception", nullptr); return; } s.T().caught.back().rethrown = true; throwExc(s, s.T().caught.back().ptr); }
B(curexc) { // sret pointer
  uint64_t d = ptrOf(s, a[0]); uint64_t q = 0;
  if (!s.T().caught.empty()) { q = s.T().caught.back().ptr; excAt(s, q).refs++; }
  storeMem(s, d, Val::con(q, 64), 64); afterCall(s, Val(), false);
}
B(eprelease) { uint64_t d = ptrOf(s, a[0]); uint64_t q = concretize(s, loadMem(s, d, 64), "exception_ptr"); storeMem(s, d, Val::con(0, 64), 64); afterCall(s, Val(), false); if (q) excRelease(s, q); }
B(epaddref) { uint64_t d = ptrOf(s, a[0]); uint64_t q = concretize(s, loadMem(s, d, 64), "exception_ptr"); if (q) excAt(s, q).refs++; afterCall(s, Val(), false); }
B(epcopy) { uint64_t q = concretize(s, loadMem(s, ptrOf(s, a[1]), 64), "exception_ptr"); storeMem(s, ptrOf(s, a[0]), Val::con(q, 64), 64); if (q) excAt(s, q).refs++; afterCall(s, Val(), false); }
B(epdtor) { uint64_t q = concretize(s, loadMem(s, ptrOf(s, a[0]), 64), "exception_ptr"); afterCall(s, Val(), false); if (q) excRelease(s, q); }
B(epassign) { uint64_t d = ptrOf(s, a[0]); uint64_t q = concretize(s, loadMem(s, ptrOf(s, a[1]), 64), "exception_ptr"), o = concretize(s, loadMem(s, d, 64), "ep"); if (q) excAt(s, q).refs++; storeMem(s, d, Val::con(q, 64), 64); ret(s, p, a[0]); if (o) excRelease(s, o); }
B(epswap) { uint64_t x = ptrOf(s, a[0]), y = ptrOf(s, a[1]); Val u = loadMem(s, x, 64), v = loadMem(s, y, 64); storeMem(s, x, v, 64); storeMem(s, y, u, 64); afterCall(s, Val(), false); }
B(eprethrow) { uint64_t q = concretize(s, loadMem(s, ptrOf(s, a[0]), 64), "exception_ptr"); if (!q) { report(s, "terminate", "rethrow_exception(null)", nullptr); return; } excAt(s, q).refs++; throwExc(s, q); }
B(uncaught) { ret(s, p, Val::con(s.T().uncaught, 32)); }
B(tlen) { throwStd(s, "_ZTISt12length_error"); }
B(toor) { throwStd(s, "_ZTISt12out_of_range"); }
B(tbadalloc) { throwStd(s, "_ZTISt9bad_alloc"); }
B(tbadarr) { throwStd(s, "_ZTISt20bad_array_new_length"); }
B(tlogic) { throwStd(s, "_ZTISt11logic_error"); }
B(tsys) { throwStd(s, "_ZTISt12system_error"); }
B(tbadfn) { throwStd(s, "_ZTISt17bad_function_call"); }

B(guardacq) { uint64_t g = ptrOf(s, a[0]); Val v = loadMem(s, g, 8); if (v.k == Val::Con && v.c) { ret(s, p, Val::con(0, 32)); return; } ret(s, p, Val::con(1, 32)); }
B(guardrel) { uint64_t g = ptrOf(s, a[0]); storeMem(s, g, Val::con(1, 8), 8); afterCall(s, Val(), false); }

// threads
B(syscall_) { // futex only
  uint64_t nr = concretize(s, a[0], "syscall");
  if (nr != 202) engineError("syscall " + std::to_string(nr));
  uint64_t addr = ptrOf(s, a[1]); uint64_t op = concretize(s, a[2], "op") & 0x7f;
  if (op == 0) { // wait
    Val cur = loadMem(s, addr, 32); Val eq = icmp(CmpInst::ICMP_EQ, cur, castI(Instruction::Trunc, a[3], 32));
    bool same = eq.k == Val::Con ? eq.c : decide(s, eq, "futex");
    if (!same) { // EAGAIN
      MemEnt *e = nullptr; (void)e; extern uint64_t errnoAddr(State &); storeMem(s, errnoAddr(s), Val::con(11, 32), 32); ret(s, p, Val::con(~0ull, 64)); return; }
    ret(s, p, Val::con(0, 64));
    s.T().status = 2; s.T().waitAddr = addr; progress(s);
    if (!s.autoSched) { report(s, "deadlock", "thread blocks on a wait in sequential execution", nullptr); return; }
    blockSwitch(s); return;
  }
  if (op == 1) { wake(s, addr, concretize(s, a[3], "n")); ret(s, p, Val::con(0, 64)); return; }
  engineError("futex op");
}
uint64_t errnoAddr(State &s) {
  static GlobalVariable *GV = nullptr;
  if (!GV) { GV = new GlobalVariable(*M, Type::getInt32Ty(M->getContext()), false, GlobalValue::ExternalLinkage, ConstantInt::get(Type::getInt32Ty(M->getContext()), 0), "vp.errno", nullptr, GlobalValue::GeneralDynamicTLSModel); }
  return tlsAddr(s, GV);
}
B(errno_) { ret(s, p, Val::con(errnoAddr(s), 64)); }
B(yield_) { ret(s, p, p.dest >= 0 ? Val::con(0, p.w) : Val()); if (s.autoSched) forceYield(s); }
B(pthread_create_) { // (pthread_t*, attr, fn, arg)
  const Function *F = fnAt(ptrOf(s, a[2])); int id = s.thr.size(); s.thr.emplace_back();
  int c = s.cur; s.cur = id; pushCall(s, F, {a[3]}, false); s.cur = c;
  storeMem(s, ptrOf(s, a[0]), Val::con(id, 64), 64); ret(s, p, Val::con(0, 32));
}
B(thread_start) { // std::thread::_M_start_thread(this, unique_ptr<_State> (by reference), void(*)())
  uint64_t thisp = ptrOf(s, a[0]), up = ptrOf(s, a[1]); uint64_t st = loadMem(s, up, 64).c;
  if (allocFails(s, p)) { throwStd(s, "_ZTISt12system_error"); return; }
  storeMem(s, up, Val::con(0, 64), 64);
  const Function *run = M->getFunction("vp_thread_trampoline"); if (!run) engineError("harness lacks vp_thread_trampoline");
  int id = s.thr.size(); s.thr.emplace_back();
  int c = s.cur; s.cur = id; pushCall(s, run, {Val::con(st, 64)}, false); s.cur = c;
  storeMem(s, thisp, Val::con(id, 64), 64); ret(s, p, Val());
}
B(thread_join) { uint64_t thisp = ptrOf(s, a[0]); uint64_t id = loadMem(s, thisp, 64).c;
  if (s.thr[id].status != 1) { s.T().status = 3; s.T().waitThr = id; if (!s.autoSched) engineError("join without auto scheduling"); blockSwitch(s); return; } // re-executed
  s.T().status = 0; storeMem(s, thisp, Val::con(0, 64), 64); ret(s, p, Val()); }
B(pthread_join_) { uint64_t id = concretize(s, a[0], "thread");
  if (s.thr[id].status != 1) { s.T().status = 3; s.T().waitThr = id; if (!s.autoSched) engineError("join without auto scheduling"); blockSwitch(s); return; }
  s.T().status = 0; ret(s, p, Val::con(0, 32)); }
B(thread_detach) { uint64_t thisp = ptrOf(s, a[0]); if (loadMem(s, thisp, 64).c == 0) report(s, "abort", "detach of a thread that is not joinable", nullptr); storeMem(s, thisp, Val::con(0, 64), 64); ret(s, p, Val()); }
B(thread_self) { ret(s, p, Val::con(s.cur, 64)); }
B(mutex_lock) { uint64_t m = ptrOf(s, a[0]); Val v = loadMem(s, m, 32);
  if (v.k == Val::Con && v.c) { s.T().status = 4; s.T().waitAddr = m; if (!s.autoSched) { report(s, "deadlock", "mutex locked twice", nullptr); } blockSwitch(s); return; }
  storeMem(s, m, Val::con(1, 32), 32); ret(s, p, Val::con(0, 32)); }
B(mutex_unlock) { uint64_t m = ptrOf(s, a[0]); storeMem(s, m, Val::con(0, 32), 32); ret(s, p, Val::con(0, 32)); }
B(hwconc) { ret(s, p, Val::con(2, 32)); }
B(canon) { uint64_t b = (s.T().canon++ & 1) ? 0x3fe8000000000000ull : 0x3fd0000000000000ull; ret(s, p, Val::con(b, 64)); } // 0.25, 0.75, ...
B(shuffle) { ret(s, p, p.dest >= 0 ? Val::undef(p.w) : Val()); } // the identity permutation
B(rand32) { if (s.autoSched) { ret(s, p, Val::con(0x9e3779b9, 32)); return; } Ex e = freshBV("random_device", 32); s.inputs.push_back({"random_device", 32, e}); ret(s, p, fromBV(e, 32)); }
template <double (*f)(double)> static void b_math1(State &s, const PInst &p, std::vector<Val> &a) {
  uint64_t u = concretize(s, a[0], "double"); double d; memcpy(&d, &u, 8); d = f(d); memcpy(&u, &d, 8); ret(s, p, Val::con(u, 64)); }
template <double (*f)(double, double)> static void b_math2(State &s, const PInst &p, std::vector<Val> &a) {
  uint64_t u = concretize(s, a[0], "double"), v = concretize(s, a[1], "double"); double d, e; memcpy(&d, &u, 8); memcpy(&e, &v, 8); d = f(d, e); memcpy(&u, &d, 8); ret(s, p, Val::con(u, 64)); }
B(rbinc) { // std::_Rb_tree_increment(node)
  uint64_t x = ptrOf(s, a[0]); auto L = [&](uint64_t q, int o) { return concretize(s, loadMem(s, q + o, 64), "rb"); }; // color0 parent8 left16 right24
  if (L(x, 24)) { x = L(x, 24); while (L(x, 16)) x = L(x, 16); }
  else { uint64_t y = L(x, 8); while (x == L(y, 24)) { x = y; y = L(y, 8); } if (L(x, 24) != y) x = y; }
  ret(s, p, Val::con(x, 64)); }
B(false_) { ret(s, p, Val::con(0, p.w)); }
B(axblock) { axBlockUntilChange(s, p, a[0], a[1], 0); }

static int findBuiltin(const Function *F) {
  static bool init = false;
  auto add = [&](const char *n, Builtin b) { builtinIdx[n] = builtins.size(); builtins.push_back({n, b}); };
  if (!init) {
    init = true;
    add("vp_sym", b_sym); add("vp_choice", b_choice); add("vp_assume", b_assume); add("vp_assert", b_assert_); add("vp_reach", b_reach); add("vp_reach_if", b_reach_if);
    add("vp_spawn", b_spawn); add("vp_switch", b_switch_); add("vp_self", b_self); add("vp_live", b_live); add("vp_oom", b_oom); add("vp_heap_bytes", b_hbytes); add("vp_valid", b_valid); add("vp_note", b_note);
    add("vp_end", b_end); add("vp_fail", b_fail); add("vp_auto", b_auto_); add("vp_par", b_par); add("vp_is_concrete", b_isconc);
    add("malloc", b_malloc_); add("calloc", b_calloc_); add("free", b_free_); add("aligned_alloc", b_aligned_alloc_);
    add("_Znwm", b_new_); add("_Znam", b_newa); add("_ZnwmSt11align_val_t", b_newal); add("_ZnamSt11align_val_t", b_newaal); add("_ZnwmRKSt9nothrow_t", b_newnt);
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) add(n, b_del);
    for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) add(n, b_dela);
    add("strlen", b_strlen_); add("strcmp", b_strcmp_); add("memcmp", b_memcmp_); add("bcmp", b_memcmp_); add("memmove", b_memmove_); add("memcpy", b_memmove_);
    for (auto n : {"fprintf", "printf", "puts", "fputs", "fwrite", "putchar", "__cxa_atexit", "fputc", "fflush"}) add(n, b_nop);
    for (auto n : {"_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt13runtime_errorC1ERKS_", "_ZNSt13runtime_errorC2ERKS_", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt11logic_errorD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt9bad_allocD2Ev", "_ZNSt6thread6_StateD2Ev", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12out_of_rangeD1Ev"}) add(n, b_nopThis);
    for (auto n : {"abort", "_ZSt9terminatev", "exit", "_exit", "__cxa_pure_virtual", "llvm.trap", "llvm.ubsantrap", "llvm.debugtrap", "__cxa_call_terminate"}) add(n, b_abort_);
    add("__assert_fail", b_assertfail); add("_ZSt21__glibcxx_assert_failPKciS0_S0_", b_glibassert);
    add("__cxa_allocate_exception", b_exalloc); add("__cxa_free_exception", b_exfree); add("__cxa_throw", b_throw_); add("__cxa_begin_catch", b_begincatch); add("__cxa_end_catch", b_endcatch);
    add("__cxa_rethrow", b_rethrow); add("_ZSt17current_exceptionv", b_curexc); add("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", b_eprelease); add("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", b_epaddref);
    add("_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", b_epcopy); add("_ZNSt15__exception_ptr13exception_ptrC2ERKS0_", b_epcopy); add("_ZNSt15__exception_ptr13exception_ptrD1Ev", b_epdtor); add("_ZNSt15__exception_ptr13exception_ptrD2Ev", b_epdtor);
    add("_ZNSt15__exception_ptr13exception_ptraSERKS0_", b_epassign); add("_ZNSt15__exception_ptr13exception_ptr4swapERS0_", b_epswap); add("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", b_eprethrow); add("_ZSt19uncaught_exceptionsv", b_uncaught);
    add("_ZSt20__throw_length_errorPKc", b_tlen); add("_ZSt20__throw_out_of_rangePKc", b_toor); add("_ZSt24__throw_out_of_range_fmtPKcz", b_toor); add("_ZSt17__throw_bad_allocv", b_tbadalloc); add("_ZSt28__throw_bad_array_new_lengthv", b_tbadarr); add("_ZSt19__throw_logic_errorPKc", b_tlogic); add("_ZSt20__throw_system_errori", b_tsys); add("_ZSt25__throw_bad_function_callv", b_tbadfn);
    add("vp.canon", b_canon); add("vp.shuffle", b_shuffle); add("__cxa_guard_acquire", b_guardacq); add("__cxa_guard_release", b_guardrel); add("__cxa_guard_abort", b_nop);
    add("syscall", b_syscall_); add("__errno_location", b_errno_); add("sched_yield", b_yield_); add("llvm.x86.sse2.pause", b_yield_);
    add("pthread_create", b_pthread_create_); add("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", b_thread_start); add("_ZNSt6thread4joinEv", b_thread_join); add("_ZNSt6thread6detachEv", b_thread_detach); add("pthread_join", b_pthread_join_); add("pthread_self", b_thread_self);
    add("pthread_mutex_lock", b_mutex_lock); add("pthread_mutex_unlock", b_mutex_unlock); add("_ZNSt6thread20hardware_concurrencyEv", b_hwconc);
    add("_ZNSt13random_device9_M_getvalEv", b_rand32); add("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", b_nop); add("_ZNSt13random_device7_M_finiEv", b_nop);
    add("log", b_math1<std::log>); add("sqrt", b_math1<std::sqrt>); add("exp", b_math1<std::exp>); add("pow", b_math2<std::pow>);
    add("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", b_rbinc); add("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", b_rbinc);
  }
  if (O.canon && F->getName().contains("12__shuffle_fn")) return builtinIdx["vp.shuffle"];
  if (O.canon && F->getName().contains("generate_canonical")) return builtinIdx["vp.canon"];
  auto it = builtinIdx.find(F->getName().str());
  if (it == builtinIdx.end()) return -1;
  return it->second;
}

// ------------------------------------------------------------------ intrinsics
static Val selectV(State &s, const Val &c, const Val &x, const Val &y) {
  if (c.k == Val::Con) return c.c ? x : y;
  if (c.k == Val::Undef) return x.k == Val::Undef ? y : x;
  return iteVal(c.e, x, y);
}
static bool doIntrinsic(State &s, const PInst &p, const IntrinsicInst *II) {
  auto A = [&](unsigned i) { return evalOp(s, p.ops[i]); };
  auto R = [&](const Val &v) { ret(s, p, v); return true; };
  switch (II->getIntrinsicID()) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
  case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::sideeffect:
    return R(p.dest >= 0 ? Val::con(0, p.w) : Val());
  case Intrinsic::stacksave: return R(Val::con(1, 64));
  case Intrinsic::threadlocal_address: { auto *GV = dyn_cast<GlobalVariable>(II->getArgOperand(0)->stripPointerCasts()); return R(Val::con(tlsAddr(s, GV), 64)); }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: return R(A(0));
  case Intrinsic::is_constant: return R(Val::con(0, 1));
  case Intrinsic::objectsize: return R(Val::con(A(1).c ? 0 : ~0ull, p.w));
  case Intrinsic::eh_typeid_for: return R(Val::con(typeId(II->getArgOperand(0)->stripPointerCasts()), 32));
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(s, A(2), "memcpy size"), d = ptrOf(s, A(0)), sr = ptrOf(s, A(1));
    if (axActive(s)) { extern bool axMemcpy(State &, const PInst &, uint64_t, uint64_t, uint64_t); if (axMemcpy(s, p, d, sr, n)) return R(Val()); }
    copyMem(s, d, sr, n); return R(Val()); }
  case Intrinsic::memset: case Intrinsic::memset_inline: {
    uint64_t n = concretize(s, A(2), "memset size"), d = ptrOf(s, A(0)); Val v = A(1); if (!n) return R(Val());
    if (axActive(s)) { extern bool axMemset(State &, const PInst &, uint64_t, const Val &, uint64_t); if (axMemset(s, p, d, v, n)) return R(Val()); }
    MemEnt *e; if (!checkAccess(s, d, n, true, e)) return true; Obj &o = wobj(*e); for (uint64_t i = 0; i < n; i++) storeBytes(o, d - e->base + i, v, 1); return R(Val()); }
  case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
    Val x = A(0), y = A(1); if (x.isUndef() || y.isUndef()) return R(Val::undef(p.w));
    auto id = II->getIntrinsicID(); auto pr = id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
    return R(selectV(s, icmp(pr, x, y), x, y)); }
  case Intrinsic::abs: { Val x = A(0); Val neg = binop(s, p, Instruction::Sub, Val::con(0, x.w), x, x.w); return R(selectV(s, icmp(CmpInst::ICMP_SLT, x, Val::con(0, x.w)), neg, x)); }
  case Intrinsic::ctpop: { Val x = A(0); if (x.isCon()) return R(Val::con(__builtin_popcountll(x.c), p.w)); Ex e = bvOf(x), sum = bvNum(0, p.w); for (unsigned i = 0; i < x.w; i++) sum = Ex(Z3_mk_bvadd(Z, sum, Ex(Z3_mk_zero_ext(Z, p.w - 1, exExtract(e, i, i))))); return R(fromBV(sum, p.w)); }
  case Intrinsic::ctlz: case Intrinsic::cttz: { Val x = A(0); bool lz = II->getIntrinsicID() == Intrinsic::ctlz;
    if (x.isCon()) { if (!x.c) return R(Val::con(x.w, p.w)); return R(Val::con(lz ? __builtin_clzll(x.c) - (64 - x.w) : __builtin_ctzll(x.c), p.w)); }
    Ex e = bvOf(x), r = bvNum(x.w, p.w); for (unsigned k = 0; k < x.w; k++) { unsigned i = lz ? k : x.w - 1 - k; r = exIte(exEq(exExtract(e, i, i), bvNum(1, 1)), bvNum(lz ? x.w - 1 - i : i, p.w), r); } return R(fromBV(r, p.w)); }
  case Intrinsic::bswap: { Val x = A(0); if (x.isCon()) return R(Val::con(__builtin_bswap64(x.c) >> (64 - x.w), x.w)); Ex e = bvOf(x), r; for (unsigned i = 0; i < x.w; i += 8) { Ex b = exExtract(e, i + 7, i); r = r ? exConcat(r, b) : b; } return R(fromBV(r, x.w)); }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    Val h = A(0), l = A(1), n = A(2); unsigned w = p.w; bool left = II->getIntrinsicID() == Intrinsic::fshl;
    if (n.isCon()) {
      unsigned k = n.c % w; if (k == 0) return R(left ? h : l);
      if (h.isCon() && l.isCon()) return R(left ? Val::con((h.c << k) | (l.c >> (w - k)), w) : Val::con((h.c << (w - k)) | (l.c >> k), w));
      Ex H = bvOf(h), L = bvOf(l); if (!left) k = w - k;
      return R(fromBV(exConcat(exExtract(H, w - 1 - k, 0), exExtract(L, w - 1, w - k)), w));
    }
    Ex H = bvOf(h), L = bvOf(l), c = Ex(Z3_mk_bvurem(Z, bvOf(n), bvNum(w, w))), cat = exConcat(H, L), c2 = Ex(Z3_mk_zero_ext(Z, w, c));
    Ex r = left ? exExtract(Ex(Z3_mk_bvshl(Z, cat, c2)), 2 * w - 1, w) : exExtract(Ex(Z3_mk_bvlshr(Z, cat, c2)), w - 1, 0);
    return R(fromBV(exSimp(r), w)); }
  case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
    Val x = A(0), y = A(1); unsigned w = x.w, W = 2 * w; auto id = II->getIntrinsicID();
    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
    Val r = binop(s, p, op, x, y, w);
    auto ext = [&](const Val &v) { return exSimp(Ex(sg ? Z3_mk_sign_ext(Z, w, bvOf(v)) : Z3_mk_zero_ext(Z, w, bvOf(v)))); };
    Ex X = ext(x), Y = ext(y), full(op == Instruction::Add ? Z3_mk_bvadd(Z, X, Y) : op == Instruction::Sub ? Z3_mk_bvsub(Z, X, Y) : Z3_mk_bvmul(Z, X, Y));
    Val ov = Val::sym(exSimp(exNot(Ex(Z3_mk_eq(Z, full, ext(r))))), 1); (void)W;
    return R(Val::agg({r, ov})); }
  case Intrinsic::uadd_sat: { Val x = A(0), y = A(1); Val r = binop(s, p, Instruction::Add, x, y, p.w); return R(selectV(s, icmp(CmpInst::ICMP_ULT, r, x), Val::con(~0ull, p.w), r)); }
  case Intrinsic::usub_sat: { Val x = A(0), y = A(1); Val r = binop(s, p, Instruction::Sub, x, y, p.w); return R(selectV(s, icmp(CmpInst::ICMP_ULT, x, y), Val::con(0, p.w), r)); }
  case Intrinsic::fmuladd: { uint64_t u = concretize(s, A(0), "double"), v = concretize(s, A(1), "double"), x = concretize(s, A(2), "double"); double a, b, c; memcpy(&a, &u, 8); memcpy(&b, &v, 8); memcpy(&c, &x, 8); a = a * b + c; memcpy(&u, &a, 8); return R(Val::con(u, 64)); }
  case Intrinsic::fabs: { uint64_t u = concretize(s, A(0), "double"); double d; memcpy(&d, &u, 8); d = std::fabs(d); memcpy(&u, &d, 8); return R(Val::con(u, 64)); }
  case Intrinsic::ceil: { uint64_t u = concretize(s, A(0), "double"); double d; memcpy(&d, &u, 8); d = std::ceil(d); memcpy(&u, &d, 8); return R(Val::con(u, 64)); }
  case Intrinsic::log: { uint64_t u = concretize(s, A(0), "double"); double d; memcpy(&d, &u, 8); d = std::log(d); memcpy(&u, &d, 8); return R(Val::con(u, 64)); }
  default: return false;
  }
}

// ------------------------------------------------------------------ floating point (concrete only)
static double asD(const Val &v, uint64_t c, Type *T) { if (T->isFloatTy()) { float f; uint32_t u = c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static Val fromD(double d, Type *T) { if (T->isFloatTy()) { float f = d; uint32_t u; memcpy(&u, &f, 4); return Val::con(u, 32); } uint64_t u; memcpy(&u, &d, 8); return Val::con(u, 64); }

static Ex condExpr(const Val &v) { return boolOf(v); }

// ------------------------------------------------------------------ the interpreter
static void doCall(State &s, const PInst &p) {
  auto *CB = cast<CallBase>(p.I);
  const Function *F = p.callee; size_t nargs = CB->arg_size();
  if (auto *II = dyn_cast<IntrinsicInst>(p.I)) { if (p.builtin < 0) { if (doIntrinsic(s, p, II)) return; engineError("intrinsic " + F->getName().str()); } }
  if (CB->isInlineAsm()) {
    auto *IA = cast<InlineAsm>(CB->getCalledOperand()); std::string str = IA->getAsmString();
    if ((str.find("lock") != std::string::npos || str.find("mfence") != std::string::npos) && IA->getConstraintString().find("memory") != std::string::npos) axFence(s, AtomicOrdering::SequentiallyConsistent);
    else if (!str.empty() && str.find("pause") == std::string::npos && str.find("lock") == std::string::npos && str.find("mfence") == std::string::npos) engineError("inline asm: " + str);
    afterCall(s, p.dest >= 0 ? Val::undef(p.w) : Val(), false); return;
  }
  int bi = p.builtin;
  if (!F) {
    uint64_t t = ptrOf(s, evalOp(s, p.ops[nargs])); F = fnAt(t);
    if (!F) { report(s, "memory", "indirect call through an invalid function pointer", nullptr); return; }
    if (F->isDeclaration()) bi = findBuiltin(F);
  }
  std::vector<Val> args; args.reserve(nargs);
  for (size_t i = 0; i < nargs; i++) args.push_back(evalOp(s, p.ops[i]));
  if (bi >= 0) { builtins[bi].second(s, p, args); return; }
  if (axActive(s) || s.axThr >= 0) {
    extern bool axIntercept(State &, const PInst &, const Function *, std::vector<Val> &);
    if (axIntercept(s, p, F, args)) return;
  }
  if (F->isDeclaration()) { engineError("call of external function " + F->getName().str()); }
  bool musttail = false;
  if (auto *CI = dyn_cast<CallInst>(CB)) musttail = CI->isMustTailCall();
  if (musttail) {
    // replace the frame: the caller's continuation becomes the callee's
    auto fr = s.T().st.back(); bool disc = fr->discardRet; killAllocas(s, *fr); s.T().st.pop_back();
    pushCall(s, F, std::move(args), disc); return;
  }
  pushCall(s, F, std::move(args), false);
}

static Val gepAddr(State &s, const PInst &p) {
  auto *G = cast<GetElementPtrInst>(p.I); Val base = evalOp(s, p.ops[0]);
  if (base.k == Val::Undef) return base;
  Val acc = base; int64_t off = 0; unsigned i = 1;
  for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti, ++i) {
    if (auto *ST = gti.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(gti.getOperand())->getZExtValue()); continue; }
    uint64_t sz = DL->getTypeAllocSize(gti.getIndexedType()); Val idx = evalOp(s, p.ops[i]);
    if (idx.k == Val::Undef) return Val::undef(64);
    if (idx.isCon()) { off += sx(idx.c, idx.w) * (int64_t)sz; continue; }
    Val ix = castI(Instruction::SExt, idx, 64);
    acc = binop(s, p, Instruction::Add, acc, binop(s, p, Instruction::Mul, ix, Val::con(sz, 64), 64), 64);
  }
  return binop(s, p, Instruction::Add, acc, Val::con((uint64_t)off, 64), 64);
}
static Val rmwOp(State &s, const PInst &p, AtomicRMWInst::BinOp op, const Val &o, const Val &v) {
  switch (op) {
  case AtomicRMWInst::Xchg: return v;
  case AtomicRMWInst::Add: return binop(s, p, Instruction::Add, o, v, o.w);
  case AtomicRMWInst::Sub: return binop(s, p, Instruction::Sub, o, v, o.w);
  case AtomicRMWInst::And: return binop(s, p, Instruction::And, o, v, o.w);
  case AtomicRMWInst::Or: return binop(s, p, Instruction::Or, o, v, o.w);
  case AtomicRMWInst::Xor: return binop(s, p, Instruction::Xor, o, v, o.w);
  case AtomicRMWInst::UMax: return selectV(s, icmp(CmpInst::ICMP_UGT, o, v), o, v);
  case AtomicRMWInst::UMin: return selectV(s, icmp(CmpInst::ICMP_ULT, o, v), o, v);
  default: engineError("rmw op");
  }
}
Val rmwApply(State &s, const PInst &p, const Val &o, const Val &v) { return rmwOp(s, p, cast<AtomicRMWInst>(p.I)->getOperation(), o, v); }
Val icmpV(int pr, const Val &a, const Val &b) { return icmp((CmpInst::Predicate)pr, a, b); }

static uint64_t alignOf(const PInst &p) {
  if (auto *L = dyn_cast<LoadInst>(p.I)) return L->getAlign().value();
  if (auto *S2 = dyn_cast<StoreInst>(p.I)) return S2->getAlign().value();
  return 1;
}
void step(State &s) {
  if (O.preemptAfter && s.autoSched && s.T().after) preemptAfter(s);
  const PInst &p = s.thr[s.cur].st.back()->f->code[s.thr[s.cur].st.back()->pc];
  s.steps++; S.instrs++;
  auto next = [&]() { s.top().pc++; };
  auto A = [&](unsigned i) { return evalOp(s, p.ops[i]); };
  switch (p.op) {
  case Instruction::Ret: { if (p.ops.empty()) doReturn(s, Val(), false); else { Val v = A(0); doReturn(s, v, true); } return; }
  case Instruction::Br: {
    auto *BI = cast<BranchInst>(p.I);
    if (BI->isUnconditional()) { gotoBB(s, BI->getSuccessor(0)); return; }
    bool t = decide(s, A(0), "br"); gotoBB(s, BI->getSuccessor(t ? 0 : 1)); return;
  }
  case Instruction::Switch: {
    auto *SI = cast<SwitchInst>(p.I); Val v = A(0);
    if (v.isCon()) { const BasicBlock *d = SI->getDefaultDest(); for (auto &c : SI->cases()) if (c.getCaseValue()->getZExtValue() == v.c) d = c.getCaseSuccessor(); gotoBB(s, d); return; }
    for (auto &c : SI->cases()) {
      Val eq = icmp(CmpInst::ICMP_EQ, v, Val::con(c.getCaseValue()->getZExtValue(), v.w));
      if (decide(s, eq, "switch")) { gotoBB(s, c.getCaseSuccessor()); return; }
    }
    gotoBB(s, SI->getDefaultDest()); return;
  }
  case Instruction::Unreachable: report(s, "unreachable", "unreachable code executed (undefined behaviour or missing return)", nullptr); return;
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
  case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    Val r = binop(s, p, p.op, A(0), A(1), p.w); setReg(s, p, r); next(); return; }
  case Instruction::ICmp: { setReg(s, p, icmp(cast<ICmpInst>(p.I)->getPredicate(), A(0), A(1))); next(); return; }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: setReg(s, p, castI(p.op, A(0), p.w)); next(); return;
  case Instruction::BitCast: case Instruction::AddrSpaceCast: {
    Val v = A(0); Type *D = p.I->getType(), *Sr = p.I->getOperand(0)->getType();
    if (D->isVectorTy() != Sr->isVectorTy() || (D->isVectorTy() && Sr->isVectorTy())) {
      std::vector<Val> flat; if (v.k == Val::Ag) flat = *v.ag; else flat = {v};
      Ex e; for (auto &x : flat) e = e ? exConcat(bvOf(x), e) : bvOf(x); e = exSimp(e);
      if (auto *VT = dyn_cast<FixedVectorType>(D)) { unsigned ew = typeW(VT->getElementType()); std::vector<Val> r; for (unsigned i = 0; i < VT->getNumElements(); i++) r.push_back(fromBV(exExtract(e, ew * (i + 1) - 1, ew * i), ew)); setReg(s, p, Val::agg(r)); }
      else setReg(s, p, fromBV(e, p.w));
      next(); return;
    }
    setReg(s, p, v); next(); return; }
  case Instruction::Freeze: { Val v = A(0); if (v.k == Val::Undef) v = v.w == 1 ? Val::sym(freshBool("freeze"), 1) : fromBV(freshBV("freeze", v.w), v.w); setReg(s, p, v); next(); return; }
  case Instruction::Select: {
    Val c = A(0), x = A(1), y = A(2);
    if (c.k == Val::Ag) { std::vector<Val> r; for (size_t i = 0; i < c.ag->size(); i++) r.push_back(selectV(s, (*c.ag)[i], (*x.ag)[i], (*y.ag)[i])); setReg(s, p, Val::agg(r)); next(); return; }
    // keep pointers concrete: fork on selects between pointers
    if (c.isSym() && p.I->getType()->isPointerTy() && s.axThr < 0) { bool t = decide(s, c, "select"); setReg(s, p, t ? x : y); next(); return; }
    setReg(s, p, selectV(s, c, x, y)); next(); return; }
  case Instruction::GetElementPtr: setReg(s, p, gepAddr(s, p)); next(); return;
  case Instruction::Alloca: {
    auto *AI = cast<AllocaInst>(p.I); uint64_t n = concretize(s, A(0), "alloca"); uint64_t sz = DL->getTypeAllocSize(AI->getAllocatedType()) * n;
    uint64_t a = allocObj(s, sz, AI->getAlign().value(), OK::Stack, p.I); s.top().allocas.push_back(a); setReg(s, p, Val::con(a, 64)); next(); return; }
  case Instruction::Load: {
    auto *L = cast<LoadInst>(p.I);
    if (L->isAtomic() && s.autoSched && preemptPoint(s, p.I)) return;
    Val av = A(0);
    if (axActive(s)) { Val out; if (axLoad(s, p, 0, av, typeW(L->getType()), L->getOrdering(), L->isAtomic(), out)) { setReg(s, p, out); next(); return; } }
    uint64_t a = ptrOf(s, av);
    if (a % alignOf(p)) { report(s, "memory", "misaligned load", nullptr); return; }
    Val v = loadTyped(s, a, L->getType()); setReg(s, p, v); next(); return; }
  case Instruction::Store: {
    auto *SI = cast<StoreInst>(p.I);
    if (SI->isAtomic() && s.autoSched && preemptPoint(s, p.I)) return;
    Val v = A(0), av = A(1);
    if (axActive(s) && axStore(s, p, av, v, typeW(SI->getValueOperand()->getType()), SI->getOrdering(), SI->isAtomic())) { next(); return; }
    uint64_t a = ptrOf(s, av);
    if (a % alignOf(p)) { report(s, "memory", "misaligned store", nullptr); return; }
    storeTyped(s, a, v, SI->getValueOperand()->getType()); if (SI->isAtomic()) { clearYields(s); s.T().after = true; } next(); return; }
  case Instruction::AtomicRMW: {
    auto *R = cast<AtomicRMWInst>(p.I);
    if (s.autoSched && preemptPoint(s, p.I)) return;
    if (axActive(s)) { extern bool axRmw(State &, const PInst &, const Val &, const Val &, const Val &, unsigned, AtomicOrdering, AtomicOrdering, bool, Val &); Val out; if (axRmw(s, p, A(0), A(1), Val(), p.w, R->getOrdering(), R->getOrdering(), false, out)) { setReg(s, p, out); next(); return; } }
    uint64_t a = ptrOf(s, A(0)); Val o = loadMem(s, a, p.w); storeMem(s, a, rmwOp(s, p, R->getOperation(), o, A(1)), p.w);
    clearYields(s); s.T().after = true;
    setReg(s, p, o); next(); return; }
  case Instruction::AtomicCmpXchg: {
    auto *C = cast<AtomicCmpXchgInst>(p.I);
    if (s.autoSched && preemptPoint(s, p.I)) return;
    unsigned w = typeW(C->getNewValOperand()->getType());
    if (axActive(s)) { extern bool axRmw(State &, const PInst &, const Val &, const Val &, const Val &, unsigned, AtomicOrdering, AtomicOrdering, bool, Val &); Val out; if (axRmw(s, p, A(0), A(2), A(1), w, C->getSuccessOrdering(), C->getFailureOrdering(), C->isWeak(), out)) { setReg(s, p, out); next(); return; } }
    uint64_t a = ptrOf(s, A(0)); Val o = loadMem(s, a, w); Val eq = icmp(CmpInst::ICMP_EQ, o, A(1));
    bool e = eq.isCon() ? eq.c : decide(s, eq, "cmpxchg");
    if (e) { storeMem(s, a, A(2), w); clearYields(s); s.T().after = true; }
    setReg(s, p, Val::agg({o, Val::con(e, 1)})); next(); return; }
  case Instruction::Fence: axFence(s, cast<FenceInst>(p.I)->getOrdering()); next(); return;
  case Instruction::ExtractValue: { Val v = A(0); for (unsigned i : cast<ExtractValueInst>(p.I)->indices()) { Val t = (*v.ag)[i]; v = t; } setReg(s, p, v); next(); return; }
  case Instruction::InsertValue: {
    Val v = A(0), x = A(1); std::vector<unsigned> idx(cast<InsertValueInst>(p.I)->idx_begin(), cast<InsertValueInst>(p.I)->idx_end());
    std::function<Val(const Val &, unsigned)> ins = [&](const Val &b, unsigned d) { if (d == idx.size()) return x; std::vector<Val> r = *b.ag; r[idx[d]] = ins(r[idx[d]], d + 1); return Val::agg(r); };
    setReg(s, p, ins(v, 0)); next(); return; }
  case Instruction::ExtractElement: { Val v = A(0); uint64_t i = concretize(s, A(1), "index"); setReg(s, p, (*v.ag)[i]); next(); return; }
  case Instruction::InsertElement: { Val v = A(0), x = A(1); uint64_t i = concretize(s, A(2), "index"); auto r = *v.ag; r[i] = x; setReg(s, p, Val::agg(r)); next(); return; }
  case Instruction::ShuffleVector: { auto *SV = cast<ShuffleVectorInst>(p.I); Val a = A(0), b = A(1); std::vector<Val> r; for (int m : SV->getShuffleMask()) { if (m < 0) r.push_back(Val::undef((*a.ag)[0].w)); else if ((size_t)m < a.ag->size()) r.push_back((*a.ag)[m]); else r.push_back((*b.ag)[m - a.ag->size()]); } setReg(s, p, Val::agg(r)); next(); return; }
  case Instruction::Call: case Instruction::Invoke: doCall(s, p); return;
  case Instruction::LandingPad: {
    auto *LP = cast<LandingPadInst>(p.I); uint64_t q = s.T().excPtr; const Value *ti = excAt(s, q).ti; int sel = 0;
    for (unsigned i = 0; i < LP->getNumClauses(); i++) {
      if (LP->isCatch(i)) { const Value *c = LP->getClause(i)->stripPointerCasts(); bool nul = isa<ConstantPointerNull>(c); if (nul || tiMatch(c, ti)) { sel = nul ? 99999 : typeId(c); break; } }
      else { sel = -1; break; }
    }
    setReg(s, p, Val::agg({Val::con(q, 64), Val::con((uint64_t)(int64_t)sel, 32)})); next(); return; }
  case Instruction::Resume: { Val v = A(0); s.T().excPtr = (*v.ag)[0].c;
    // leave this frame by unwinding from it
    auto fr = s.T().st.back();
    if (s.T().st.size() == 1) { report(s, "terminate", "uncaught exception", nullptr); return; }
    if (fr->f->F->doesNotThrow()) { report(s, "terminate", "exception escapes a noexcept function", nullptr); return; }
    killAllocas(s, *fr); s.T().st.pop_back(); unwind(s); return; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    Type *T = p.I->getType(); Val x = A(0), y = A(1); double u = asD(x, concretize(s, x, "float"), T), v = asD(y, concretize(s, y, "float"), T), r = 0;
    switch (p.op) { case Instruction::FAdd: r = u + v; break; case Instruction::FSub: r = u - v; break; case Instruction::FMul: r = u * v; break; case Instruction::FDiv: r = u / v; break; default: r = std::fmod(u, v); }
    if (T->isX86_FP80Ty()) engineError("x86_fp80");
    setReg(s, p, fromD(r, T)); next(); return; }
  case Instruction::FNeg: { Type *T = p.I->getType(); Val x = A(0); setReg(s, p, fromD(-asD(x, concretize(s, x, "float"), T), T)); next(); return; }
  case Instruction::FCmp: {
    Type *T = p.I->getOperand(0)->getType(); Val x = A(0), y = A(1); double u = asD(x, concretize(s, x, "float"), T), v = asD(y, concretize(s, y, "float"), T); bool un = std::isnan(u) || std::isnan(v), r = false;
    switch (cast<FCmpInst>(p.I)->getPredicate()) {
    case CmpInst::FCMP_OEQ: r = !un && u == v; break; case CmpInst::FCMP_OGT: r = !un && u > v; break; case CmpInst::FCMP_OGE: r = !un && u >= v; break; case CmpInst::FCMP_OLT: r = !un && u < v; break; case CmpInst::FCMP_OLE: r = !un && u <= v; break; case CmpInst::FCMP_ONE: r = !un && u != v; break;
    case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || u == v; break; case CmpInst::FCMP_UGT: r = un || u > v; break; case CmpInst::FCMP_UGE: r = un || u >= v; break; case CmpInst::FCMP_ULT: r = un || u < v; break; case CmpInst::FCMP_ULE: r = un || u <= v; break; case CmpInst::FCMP_UNE: r = un || u != v; break; case CmpInst::FCMP_TRUE: r = true; break; default: break; }
    setReg(s, p, Val::con(r, 1)); next(); return; }
  case Instruction::SIToFP: { Val x = A(0); setReg(s, p, fromD((double)sx(concretize(s, x, "int"), x.w), p.I->getType())); next(); return; }
  case Instruction::UIToFP: { Val x = A(0); setReg(s, p, fromD((double)concretize(s, x, "int"), p.I->getType())); next(); return; }
  case Instruction::FPToSI: { Val x = A(0); setReg(s, p, Val::con((uint64_t)(int64_t)asD(x, concretize(s, x, "float"), p.I->getOperand(0)->getType()), p.w)); next(); return; }
  case Instruction::FPToUI: { Val x = A(0); setReg(s, p, Val::con((uint64_t)asD(x, concretize(s, x, "float"), p.I->getOperand(0)->getType()), p.w)); next(); return; }
  case Instruction::FPExt: case Instruction::FPTrunc: { Val x = A(0); setReg(s, p, fromD(asD(x, concretize(s, x, "float"), p.I->getOperand(0)->getType()), p.I->getType())); next(); return; }
  default: engineError(std::string("instruction ") + p.I->getOpcodeName());
  }
}
// expose a few helpers for the axiomatic part
Val binopV(State &s, const PInst &p, unsigned op, const Val &a, const Val &b) { return binop(s, p, op, a, b, a.w); }
bool decideV(State &s, const Val &c, const char *w) { return decide(s, c, w); }
void retV(State &s, const PInst &p, const Val &v) { ret(s, p, v); }
void afterCallV(State &s) { afterCall(s, Val(), false); }
Obj &wobjV(MemEnt &e) { return wobj(e); }
std::string modelValV(const std::shared_ptr<Model> &m, const Ex &e, unsigned w) { return modelVal(m, e, w); }
const Function *fnAtV(uint64_t a) { return fnAt(a); }
void threadKill(State &s) { auto &st = s.T().st; while (!st.empty()) st.pop_back(); }

std::vector<FnInfo *> allFns() { std::vector<FnInfo *> r; for (auto &x : fnCache) if (x.second) r.push_back(x.second.get()); return r; }
