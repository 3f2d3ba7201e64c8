// Axiomatic execution of parallel threads (vp_par): every thread is executed symbolically on its own, shared accesses
// become events of a tree, and one query over all executions allowed by the C++ memory model decides the assertions.
#include "interp.h"
#include <cstring>
#include <algorithm>
#include <sstream>
extern std::string jsonEsc(const std::string &x);
Val binopV(State &s, const PInst &p, unsigned op, const Val &a, const Val &b);
Val rmwApply(State &s, const PInst &p, const Val &o, const Val &v);
Val icmpV(int pr, const Val &a, const Val &b);
void retV(State &s, const PInst &p, const Val &v);
void afterCallV(State &s);
Obj &wobjV(MemEnt &e);
std::string modelValV(const std::shared_ptr<Model> &m, const Ex &e, unsigned w);
const Function *fnAtV(uint64_t a);

extern double T0;
namespace {
const uint64_t REG = 0x100000000ull; // address region of thread i: (i+1)*REG
enum EK { ER, EW, EU, EF, EFREE, ENOTIFY, EBLOCK };
struct Ev {
  int thr, par, depth; EK k; bool na = false; AtomicOrdering ord = AtomicOrdering::NotAtomic, ordF = AtomicOrdering::NotAtomic;
  int loc = -1; Ex g, rv, wv, wc; uint64_t a = 0; uint64_t nb = 0; std::string where; bool all = false, wait = false;
  std::vector<uint64_t> dom; bool any = false; // values it may write
};
struct Dom { std::set<uint64_t> v; bool any = false; bool operator==(const Dom &o) const { return any == o.any && v == o.v; } };
struct Loc { uint64_t lo, hi; uint32_t rm = 0, wm = 0; bool rmw = false; Val init; Dom initD; Dom wd[3][8];
  // values a thread can find here: its own writes are added from its path. A plain access can only meet another thread's access
  // that it is ordered with (anything else is a data race, which is found without following the value), so writes after which
  // their thread releases nothing are left out when the write or the read is plain.
  Dom dom(int thr, int kind) const { Dom d = initD; for (int t = 0; t < 8; t++) if (t != thr) { d.any |= wd[kind][t].any; d.v.insert(wd[kind][t].v.begin(), wd[kind][t].v.end()); } if (d.v.size() > 64) d.any = true; if (d.any) d.v.clear(); return d; }
};
struct Acc { uint32_t r = 0, w = 0; bool rmw = false; };
struct FObj { uint64_t size; OK kind; int thr; };
struct Leaf { Ex g; int po; bool blocked; int64_t live; std::vector<MemEnt> mem; std::map<uint64_t, ExcInfo> excs; };
struct Chk { Ex bad; std::string msg; int thr, po; std::string where; };

int N = 0; // number of parallel threads
std::map<std::pair<uint64_t, unsigned>, Acc> acc;
struct Rng { uint64_t lo, hi; int thr; bool w; bool operator<(const Rng &o) const { return std::tie(lo, hi, thr, w) < std::tie(o.lo, o.hi, o.thr, o.w); } };
std::set<Rng> freed, bulk;
std::map<uint64_t, FObj> objs;
std::map<std::tuple<int, unsigned, uint64_t>, uint64_t> allocTab;
uint64_t regNext[8];
std::vector<Loc> locs; std::map<uint64_t, int> locAt; // by lo
std::vector<Ev> ev;
std::vector<Leaf> leaves[8];
std::vector<Chk> chks; std::vector<std::pair<std::string, Ex>> reaches; std::vector<Ex> assumes;
bool deferred = false; bool allowBlock = false; uint64_t cuts = 0;
std::vector<Ex> blockedLeaves;
State *baseState = nullptr;

int findLoc(uint64_t a, uint64_t nb) {
  auto it = locAt.upper_bound(a); if (it == locAt.begin()) return -1; --it;
  Loc &l = locs[it->second]; if (a < l.hi) { if (a + nb > l.hi) engineError("ax: access crosses location at " + std::to_string(a)); return it->second; }
  return -1;
}
bool overlapsLoc(uint64_t lo, uint64_t hi) { auto it = locAt.lower_bound(lo); if (it != locAt.end() && it->first < hi) return true; if (it != locAt.begin()) { --it; if (locs[it->second].hi > lo) return true; } return false; }
bool isAcq(AtomicOrdering o) { return o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
bool isRel(AtomicOrdering o) { return o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
bool isSC(AtomicOrdering o) { return o == AtomicOrdering::SequentiallyConsistent; }
std::string axWhere(State &s) { // innermost location outside the standard library
  if (s.thr[s.cur].st.empty()) return "?";
  for (auto it = s.thr[s.cur].st.rbegin(); it != s.thr[s.cur].st.rend(); ++it) {
    auto &fr = **it; if (fr.pc >= fr.f->code.size()) continue; auto &dl = fr.f->code[fr.pc].I->getDebugLoc(); if (!dl) continue;
    for (DILocation *d = dl.get(); d; d = d->getInlinedAt()) { auto f = d->getFilename(); if (f.starts_with("/usr/") || f.contains("include/c++")) continue; return d->getScope()->getSubprogram()->getName().str() + " (" + f.rsplit('/').second.str() + ":" + std::to_string(d->getLine()) + ")"; }
  }
  return whereStr(s);
}
std::string incomplete; double exploreUntil;
int addEv(State &s, Ev e) {
  e.thr = s.axThr; e.par = s.axPo; e.depth = s.axPo < 0 ? 1 : ev[s.axPo].depth + 1; e.g = s.axGuard; e.where = axWhere(s);
  ev.push_back(std::move(e)); s.axPo = (int)ev.size() - 1;
  if (ev.size() > 20000) { incomplete = "ax: too many events"; throw PathEnd{"limit"}; }
  return s.axPo;
}
void consOnly(State &s, const Ex &e) { // constrains the exploration, not the guard
  if (isT(e)) return; auto c = std::make_shared<Cons>(); c->e = e; c->prev = s.cons; c->depth = s.cons ? s.cons->depth + 1 : 1; s.cons = c;
  s.model.reset();
}
// values an expression can take on this path
void valuesOf(State &s, const Val &v, std::vector<uint64_t> &out, bool &any, unsigned w) {
  any = false; out.clear();
  if (v.isCon()) { out.push_back(v.c); return; }
  if (v.isUndef() || w > 64) { any = true; return; }
  Ex e = bvOf(v), blk = exTrue();
  for (int i = 0; i < 17; i++) {
    std::shared_ptr<Model> m; if (!feasible(s, blk, &m)) return;
    Z3_ast o = nullptr; Z3_model_eval(Z, m->m, e, true, &o); Ex oe(o); uint64_t c; if (!isNum(oe, c)) { any = true; return; }
    out.push_back(c); blk = exAnd(blk, exNot(exEq(e, bvNum(c, bvW(e)))));
  }
  any = true; out.clear();
}
// makes an object allocated by another thread known to this state; returns the entry
MemEnt *known(State &s, uint64_t a, bool &foreign) {
  foreign = false;
  MemEnt *e = findObj(s, a);
  if (!e && a >= REG) {
    auto it = objs.upper_bound(a); if (it == objs.begin()) return nullptr; --it;
    if (a >= it->first + it->second.size) return nullptr;
    if (it->second.thr == s.axThr) return nullptr;
    MemEnt n; n.base = it->first; n.size = it->second.size; n.kind = it->second.kind; n.alive = true; n.ro = false; n.owner = it->second.thr; n.site = nullptr;
    n.o = std::make_shared<Obj>(); n.o->b.assign(n.size, 0); n.o->st.assign(n.size, 0);
    auto pos = s.mem.begin(); while (pos != s.mem.end() && pos->base < n.base) ++pos;
    s.mem.insert(pos, n); e = findObj(s, a);
  }
  if (e && e->base >= REG && e->owner != s.axThr && s.axThr < N) foreign = true;
  return e;
}
void record(State &s, uint64_t a, unsigned nb, bool r, bool w, bool rmw) { auto &x = acc[{a, nb}]; if (r) x.r |= 1u << s.axThr; if (w) x.w |= 1u << s.axThr; x.rmw |= rmw; }
} // namespace

uint64_t axAlloc(State &s, uint64_t size, uint64_t align, OK kind) {
  auto key = std::make_tuple(s.axThr, s.axSeq++, size); auto it = allocTab.find(key);
  if (it == allocTab.end()) {
    uint64_t &n = regNext[s.axThr]; uint64_t b = (n + align - 1) / align * align; n = b + size + 64; it = allocTab.emplace(key, b).first;
    objs[b] = FObj{size, kind, s.axThr};
  }
  return it->second;
}
void axFree(State &s, uint64_t base, uint64_t size) {
  if (s.axThr >= N) return;
  freed.insert({base, base + size, s.axThr, true});
  if (overlapsLoc(base, base + size)) { Ev e; e.k = EFREE; e.a = base; e.nb = size; addEv(s, e); }
}
static std::map<uint64_t, ExcInfo> axExcs;
void axExc(State &, const ExcInfo &x) { axExcs[x.ptr] = x; }
ExcInfo *axExcFind(uint64_t q) { auto it = axExcs.find(q); return it == axExcs.end() ? nullptr : &it->second; }
MemEnt *axKnown(State &s, uint64_t a) { bool f; return known(s, a, f); }
bool axActive(State &s) { return s.axThr >= 0; }

// after the parallel phase a shared location has one value: read it once, then treat it as ordinary memory
static void settle(State &s, int l) {
  Loc &L = locs[l]; if (!s.axOwn.insert(L.lo).second) return;
  Dom d = L.dom(-1, 0); unsigned lw = (L.hi - L.lo) * 8; Ex rv = !d.any && d.v.size() == 1 ? bvNum(*d.v.begin(), lw) : freshBV("f", lw);
  Ev e; e.k = ER; e.na = true; e.loc = l; e.rv = rv; e.wc = exFalse(); e.a = L.lo; e.nb = L.hi - L.lo; addEv(s, e);
  if (!d.any && d.v.size() > 1) { std::vector<Ex> o; for (auto x : d.v) o.push_back(exEq(rv, bvNum(x, lw))); consOnly(s, exOrN(o)); }
  MemEnt *m = findObj(s, L.lo); if (m && m->alive && L.hi <= m->base + m->size) storeMem(s, L.lo, fromBV(rv, lw), lw);
}
static void settleRange(State &s, uint64_t a, uint64_t b) { for (size_t i = 0; i < locs.size(); i++) if (locs[i].lo < b && a < locs[i].hi) settle(s, i); }
static int access(State &s, const Val &av, unsigned nb, bool rd, bool wr, bool rmw, uint64_t &a) { // -1: direct
  a = concretize(s, av, "address"); bool foreign; MemEnt *e = known(s, a, foreign);
  if (!e || !e->alive || a + nb > e->base + e->size) return -1; // reported by the ordinary access
  record(s, a, nb, rd, wr, rmw);
  int l = findLoc(a, nb);
  if (l < 0) { if (foreign) { deferred = true; throw PathEnd{"defer"}; } return -1; }
  if (s.axThr >= N) { settle(s, l); return -1; }
  return l;
}
static int bump(State &s, const PInst &p) { int &c = s.axCnt[p.I]; if (c >= O.axSpin) { cuts++; throw PathEnd{"bound"}; } return ++c; }
static bool singleWriter(const Loc &l, int t) { return !l.rmw && l.wm == (1u << t); }
bool axLoad(State &s, const PInst &p, uint64_t, const Val &av, unsigned w, AtomicOrdering ord, bool atomic, Val &out) {
  if (s.axThr < 0) return false;
  Type *T = p.I->getType();
  if (T->isAggregateType() || T->isVectorTy() || w > 64) { uint64_t a = concretize(s, av, "address"); unsigned nb = (w + 7) / 8; if (s.axThr >= N) { settleRange(s, a, a + nb); return false; } bulk.insert({a, a + nb, s.axThr, false}); if (overlapsLoc(a, a + nb)) engineError("ax: aggregate load of a shared location"); return false; }
  unsigned nb = (w + 7) / 8; uint64_t a; int l = access(s, av, nb, true, false, false, a);
  if (l < 0 || (s.axThr < N && singleWriter(locs[l], s.axThr))) return false;
  Loc &L = locs[l]; unsigned lw = (L.hi - L.lo) * 8;
  if (atomic && s.axThr < N) bump(s, p);
  Ex rv;
  // A plain read that follows a plain access of the same thread to the same location, with nothing in between through which
  // the thread could learn of another thread's write, sees the same value, or there is a data race before it. The read is
  // bound to that value; executions in which it cannot have it end here and are still searched for races.
  if (!atomic && s.axThr < N) for (int i = s.axPo; i >= 0; i = ev[i].par) {
    Ev &x = ev[i];
    if (x.loc == l) {
      if (x.na && x.nb == nb && x.a == a && (x.k == ER || (x.k == EW && isT(x.wc)))) rv = x.k == ER ? x.rv : x.wv;
      break;
    }
    if (x.k == EBLOCK || x.wait || ((x.k == ER || x.k == EU || x.k == EF) && !x.na && (isAcquireOrStronger(x.ord) || (x.k == EU && isAcquireOrStronger(x.ordF))))) break;
  }
  if (rv) {
    int &c = s.axSame[{p.I, L.lo}]; if (c >= 64) { cuts++; throw PathEnd{"bound"}; } ++c; // going round in a circle
    s.axGuard = exAnd(s.axGuard, freshBool("same"));
    Ev e; e.k = ER; e.na = true; e.ord = ord; e.loc = l; e.rv = rv; e.wc = exFalse(); e.a = a; e.nb = nb; addEv(s, e);
    Ex r = rv; if (nb * 8 != lw) r = exExtract(rv, (a - L.lo) * 8 + nb * 8 - 1, (a - L.lo) * 8);
    Val v = fromBV(r, nb * 8); if (w != nb * 8) v = v.isCon() ? Val::con(v.c, w) : fromBV(exExtract(r, w - 1, 0), w);
    out = v; return true;
  }
  Dom d = L.dom(s.axThr, atomic ? 1 : 2);
  if (s.axThr < N) for (int i = s.axPo; i >= 0; i = ev[i].par) if (ev[i].loc == l && (ev[i].k == EW || ev[i].k == EU)) { if (ev[i].any) d.any = true; for (auto x : ev[i].dom) d.v.insert(x); if (isT(ev[i].wc)) break; }
  if (!d.any && d.v.empty() && s.axThr < N) { // only unordered writes: the read is searched for races, there is no value to go on with
    Dom a0 = L.dom(s.axThr, 0);
    if (a0.any || a0.v.size()) { Ev e; e.k = ER; e.na = !atomic; e.ord = ord; e.loc = l; e.rv = freshBV("r", lw); e.wc = exFalse(); e.a = a; e.nb = nb; addEv(s, e); throw PathEnd{"unordered"}; }
  }
  if (!d.any && d.v.empty()) { deferred = true; throw PathEnd{"defer"}; } // nothing is known to be written here yet
  if (!d.any && d.v.size() == 1) rv = bvNum(*d.v.begin(), lw); else rv = freshBV("r", lw);
  Ev e; e.k = ER; e.na = !atomic; e.ord = ord; e.loc = l; e.rv = rv; e.wc = exFalse(); e.a = a; e.nb = nb; addEv(s, e);
  if (!d.any && d.v.size() > 1) { std::vector<Ex> o; for (auto x : d.v) o.push_back(exEq(rv, bvNum(x, lw))); consOnly(s, exOrN(o)); }
  Ex r = rv; if (nb * 8 != lw) r = exExtract(rv, (a - L.lo) * 8 + nb * 8 - 1, (a - L.lo) * 8);
  Val v = fromBV(r, nb * 8);
  if (w != nb * 8) v = v.isCon() ? Val::con(v.c, w) : fromBV(exExtract(r, w - 1, 0), w);
  out = v; return true;
}
bool axStore(State &s, const PInst &p, const Val &av, const Val &v0, unsigned w, AtomicOrdering ord, bool atomic) {
  if (s.axThr < 0) return false;
  unsigned nb = (w + 7) / 8; uint64_t a;
  if (v0.k == Val::Ag || w > 64) { a = concretize(s, av, "address"); if (s.axThr >= N) { settleRange(s, a, a + nb); return false; } bulk.insert({a, a + nb, s.axThr, true}); if (overlapsLoc(a, a + nb)) engineError("ax: aggregate store to a shared location"); return false; }
  int l = access(s, av, nb, false, true, false, a);
  if (l < 0) return false;
  Loc &L = locs[l];
  if (nb != L.hi - L.lo) engineError("ax: partial store to a shared location in " + whereStr(s));
  Val v = v0; if (v.w != nb * 8) v = v.isCon() ? Val::con(v.c, nb * 8) : v.isUndef() ? Val::undef(nb * 8) : fromBV(Ex(Z3_mk_zero_ext(Z, nb * 8 - v.w, bvOf(v))), nb * 8);
  Ev e; e.k = EW; e.na = !atomic; e.ord = ord; e.loc = l; e.wc = exTrue(); e.a = a; e.nb = nb; e.wv = bvOf(v);
  valuesOf(s, v, e.dom, e.any, nb * 8);
  addEv(s, e); return false;
}
bool axRmw(State &s, const PInst &p, const Val &av, const Val &v, const Val &exp, unsigned w, AtomicOrdering ord, AtomicOrdering ordF, bool weak, Val &out) {
  if (s.axThr < 0) return false;
  bool cas = p.op == Instruction::AtomicCmpXchg; unsigned nb = w / 8; uint64_t a; int l = access(s, av, nb, true, true, true, a);
  if (l < 0) return false;
  Loc &L = locs[l]; if (nb != L.hi - L.lo) engineError("ax: partial read-modify-write");
  int cnt = bump(s, p);
  Dom d = L.dom(s.axThr, 1); for (int i = s.axPo; i >= 0; i = ev[i].par) if (ev[i].loc == l && (ev[i].k == EW || ev[i].k == EU)) { if (ev[i].any) d.any = true; for (auto x : ev[i].dom) d.v.insert(x); if (isT(ev[i].wc)) break; }
  Ex rv = !d.any && d.v.size() == 1 ? bvNum(*d.v.begin(), w) : freshBV("u", w);
  if (!d.any && d.v.size() > 1) { std::vector<Ex> o; for (auto x : d.v) o.push_back(exEq(rv, bvNum(x, w))); consOnly(s, exOrN(o)); }
  Val old = fromBV(rv, w);
  Ev e; e.k = EU; e.ord = ord; e.ordF = ordF; e.loc = l; e.rv = rv; e.a = a; e.nb = nb;
  if (cas) {
    Ex ok = boolOf(icmpV(CmpInst::ICMP_EQ, old, exp));
    if (weak && cnt <= 1) ok = exAnd(ok, exNot(freshBool("spurious")));
    e.wc = ok; e.wv = bvOf(v);
    State &t = s; // values written
    valuesOf(t, v, e.dom, e.any, w);
    out = Val::agg({old, Val::sym(ok, 1)});
  } else {
    Val nv = rmwApply(s, p, old, v); e.wc = exTrue(); e.wv = bvOf(nv); valuesOf(s, nv, e.dom, e.any, w); out = old;
  }
  addEv(s, e); return true;
}
bool axMemcpy(State &s, const PInst &p, uint64_t d, uint64_t sr, uint64_t n) {
  if (s.axThr < 0 || !n) return false;
  if (s.axThr >= N) { settleRange(s, sr, sr + n); settleRange(s, d, d + n); return false; }
  bool f1, f2; known(s, d, f1); known(s, sr, f2);
  bulk.insert({sr, sr + n, s.axThr, false}); bulk.insert({d, d + n, s.axThr, true});
  if (overlapsLoc(d, d + n) || overlapsLoc(sr, sr + n)) engineError("ax: memcpy of shared memory in " + whereStr(s));
  if (f1 || f2) { deferred = true; throw PathEnd{"defer"}; }
  return false;
}
bool axMemset(State &s, const PInst &p, uint64_t d, const Val &c, uint64_t n) {
  if (s.axThr < 0 || !n) return false;
  if (s.axThr >= N) { settleRange(s, d, d + n); return false; }
  bool f; known(s, d, f); bulk.insert({d, d + n, s.axThr, true});
  if (f && !overlapsLoc(d, d + n)) { deferred = true; throw PathEnd{"defer"}; }
  for (size_t i = 0; i < locs.size(); i++) { // the shared parts become stores
    Loc &L = locs[i]; if (!(L.lo < d + n && d < L.hi)) continue;
    if (L.lo < d || L.hi > d + n) engineError("ax: memset of part of a shared location");
    unsigned nb = L.hi - L.lo; if (!c.isCon()) engineError("ax: memset value");
    uint64_t v = 0; for (unsigned k = 0; k < nb; k++) v |= (c.c & 0xff) << (8 * k);
    Ev e; e.k = EW; e.na = true; e.loc = i; e.wc = exTrue(); e.a = L.lo; e.nb = nb; e.wv = bvNum(v, nb * 8); e.dom = {v}; addEv(s, e);
  }
  return false;
}
void axFence(State &s, AtomicOrdering ord) {
  if (s.axThr >= 0 && s.axThr < N) { Ev e; e.k = EF; e.ord = ord; addEv(s, e); }
}
void axAssert(State &s, const Ex &cond, const std::string &msg) { chks.push_back({exAnd(s.axGuard, exNot(cond)), msg, s.axThr, s.axPo, axWhere(s)}); }
void axReachIf(State &s, const std::string &l, const Ex &c) { reaches.push_back({l, exAnd(s.axGuard, c)}); }
void axReach(State &s, const std::string &l) { reaches.push_back({l, s.axGuard}); }
void axAssume(State &s, const Ex &c) { assumes.push_back(exImp(s.axGuard, c)); }
Ex axLive(State &s) { // live heap blocks after the parallel phase
  Ex r = bvNum((uint64_t)s.liveHeap, 64);
  for (int t = 0; t < N; t++) { Ex v = bvNum(0, 64); for (auto &l : leaves[t]) v = exIte(l.g, bvNum((uint64_t)l.live, 64), v); r = Ex(Z3_mk_bvadd(Z, r, v)); }
  return exSimp(r);
}
void axBlockUntilChange(State &, const PInst &, const Val &, const Val &, unsigned) { engineError("ax: block"); }
bool axIntercept(State &s, const PInst &p, const Function *F, std::vector<Val> &args) {
  if (s.axThr < 0 || s.axThr >= N) return false;
  StringRef n = F->getName();
  if (n.contains("__atomic_notify_address")) {
    uint64_t a = concretize(s, args[0], "address"); record(s, a, 4, false, false, false);
    Ev e; e.k = ENOTIFY; e.a = a; e.nb = 4; e.all = !(args[1].isCon() && args[1].c == 0); addEv(s, e); afterCallV(s); return true;
  }
  if (n.contains("__atomic_wait_address_v")) { // waits until *addr != old; never returns if nobody notifies
    uint64_t a; unsigned w = args[1].w, nb = w / 8; int l = access(s, args[0], nb, true, false, false, a);
    AtomicOrdering ord = AtomicOrdering::Monotonic; uint64_t mo = args[2].c & 0xffff; if (mo == 1 || mo == 2) ord = AtomicOrdering::Acquire; if (mo == 5) ord = AtomicOrdering::SequentiallyConsistent;
    if (l < 0) { // nobody else changes it
      Val v = loadMem(s, a, w); Val eq = icmpV(CmpInst::ICMP_EQ, v, args[1]);
      extern bool decideV(State &, const Val &, const char *);
      if (decideV(s, eq, "wait")) { leaves[s.axThr].push_back({s.axGuard, s.axPo, true, 0, {}, {}}); throw PathEnd{"blocked"}; }
      afterCallV(s); return true;
    }
    Loc &L = locs[l]; unsigned lw = (L.hi - L.lo) * 8; unsigned off = (a - L.lo) * 8;
    { // the alternative: blocked for ever
      State t = s; Ex rv = freshBV("b", lw); Ex r = exExtract(rv, off + w - 1, off);
      Ev e; e.k = EBLOCK; e.ord = ord; e.loc = l; e.rv = rv; e.wc = exFalse(); e.a = a; e.nb = nb;
      Ex take = freshBool("blocks"); t.axGuard = exAndN({t.axGuard, take, exEq(r, bvOf(args[1]))}); addEv(t, e);
      leaves[s.axThr].push_back({t.axGuard, t.axPo, true, 0, {}, {}});
      s.axGuard = exAnd(s.axGuard, exNot(take));
    }
    Ex rv = freshBV("w", lw); Ex r = exExtract(rv, off + w - 1, off);
    Ev e; e.k = ER; e.ord = ord; e.loc = l; e.rv = rv; e.wc = exFalse(); e.a = a; e.nb = nb; e.wait = true; addEv(s, e);
    addCons(s, exNot(exEq(r, bvOf(args[1])))); s.model.reset();
    if (!feasible(s, exTrue())) throw PathEnd{"infeasible"};
    afterCallV(s); return true;
  }
  return false;
}

// ---------------------------------------------------------------- exploration of one thread
// A limit that is hit while a thread is explored does not end the run: what has been explored is a subset of the executions, a
// violation found in it is one, and only if none is found the run ends without an answer.
static void exploreThread(State t) {
  std::vector<State> wl; wl.push_back(std::move(t)); auto *old = WL; WL = &wl;
  struct Re { std::vector<State> *o; ~Re() { WL = o; } } re{old};
  uint64_t paths = 0;
  while (!wl.empty()) {
    State s = std::move(wl.back()); wl.pop_back(); int tid = s.cur, at = s.axThr; paths++;
    if (paths > 20000) incomplete = "ax: too many paths in a thread";
    if (nowSec() > exploreUntil) incomplete = "ax: exploration of a thread takes too long";
    if (incomplete.size()) return;
    std::string why;
    try {
      while (true) { step(s); if (s.thr[tid].status == 1) { why = "done"; break; } if (s.steps > O.maxSteps) { incomplete = "path too long (step bound)"; return; } if ((s.steps & 0xff) == 0 && nowSec() > exploreUntil) { incomplete = "ax: exploration of a thread takes too long"; return; } }
    } catch (PathEnd &e) { why = e.why; }
    catch (std::runtime_error &e) { engineError(std::string(e.what()) + " in " + whereStr(s)); }
    if (O.verbose) fprintf(stderr, "[ax] thread %d path: %s, last event %d\n", at, why.c_str(), s.axPo);
    if (why == "done" || why == "vp_end") { if (at < N) leaves[at].push_back({s.axGuard, s.axPo, false, s.liveHeap - baseState->liveHeap, s.mem, s.excs}); else S.ended["done"]++; }
  
  }
}

// ---------------------------------------------------------------- encoding
static Z3_solver AS;
static void A(const Ex &e) { if (!isT(e)) Z3_solver_assert(Z, AS, e); }
static Ex uge(const Ex &a, const Ex &b) { uint64_t x, y; if (a == b) return exTrue(); if (isNum(b, y) && y == 0) return exTrue(); if (isNum(a, x) && isNum(b, y)) return x >= y ? exTrue() : exFalse(); if (isNum(a, x) && x == Val::mask(bvW(a))) return exTrue(); return Ex(Z3_mk_bvuge(Z, a, b)); }
static Ex ugt(const Ex &a, const Ex &b) { return exNot(uge(b, a)); }
static Ex eqv(const Ex &a, const Ex &b) { return exEq(a, b); }

struct Enc {
  unsigned CB = 8, PB = 8, SB = 6; size_t n;
  std::vector<Ex> g, p, wc; std::vector<std::vector<Ex>> vc, rc, pend; std::vector<char> hasRc;
  std::vector<Ex> LF, LA, MM, rLF, rLA, rMM, pLF, pLA, pMM, sc; std::vector<Ex> pos; // pos: position of the last read at or before
  std::vector<std::vector<std::pair<int, Ex>>> rf; // candidates of each read: (write or -1 for init, bool)
  Ex z8, zs;
  bool anc(int a, int b) const { for (int i = ev[b].par; i >= 0 && i >= a; i = ev[i].par) if (i == a) return true; return false; } // a strictly before b in the same thread
  bool excl(int a, int b) const { return ev[a].thr == ev[b].thr && a != b && !anc(a, b) && !anc(b, a); }
  Ex hb(int a, int b) const { // exact up to monotonicity
    if (ev[a].thr == ev[b].thr) return anc(a, b) ? exTrue() : exFalse();
    if (ev[b].thr >= N) return exTrue(); if (ev[a].thr >= N) return exFalse();
    return uge(vc[b][ev[a].thr], bvNum(ev[a].depth, CB));
  }
  void run() {
    n = ev.size(); unsigned maxd = 0; for (auto &e : ev) maxd = std::max<unsigned>(maxd, e.depth);
    CB = 1; while ((1u << CB) <= maxd + 1) CB++;
    z8 = bvNum(0, CB);
    // writes per path
    std::map<int, std::map<int, unsigned>> wl; // loc -> thread -> max writes on a path
    { std::vector<std::map<int, unsigned>> cnt(n); for (size_t i = 0; i < n; i++) { if (ev[i].par >= 0) cnt[i] = cnt[ev[i].par]; if (ev[i].loc >= 0 && (ev[i].k == EW || ev[i].k == EU)) { auto c = ++cnt[i][ev[i].loc]; auto &m = wl[ev[i].loc][ev[i].thr]; m = std::max(m, c); } } }
    unsigned mx = 1; for (auto &x : wl) { unsigned t = 0; for (auto &y : x.second) t += y.second; mx = std::max(mx, t); }
    PB = 1; while ((1u << PB) < 2 * mx + 4) PB++;
    unsigned nsc = 0, nrd = 0; for (auto &e : ev) { if (isSC(e.ord) || isSC(e.ordF)) nsc++; if (e.k == ER || e.k == EU || e.k == EBLOCK) nrd++; }
    SB = 1; while ((1u << SB) < nsc + 2) SB++; zs = bvNum(0, SB);
    unsigned RB = 1; { std::vector<unsigned> d(n); unsigned m[9] = {}; for (size_t i = 0; i < n; i++) { d[i] = (ev[i].par >= 0 ? d[ev[i].par] : 0) + (ev[i].k == ER || ev[i].k == EU || ev[i].k == EBLOCK); m[ev[i].thr] = std::max(m[ev[i].thr], d[i]); } unsigned t = 2; for (auto x : m) t += x; while ((1u << RB) < t) RB++; }
    g.resize(n); p.resize(n); wc.resize(n); vc.resize(n); rc.resize(n); pend.resize(n); hasRc.assign(n, 0); LF.resize(n); LA.resize(n); MM.resize(n); rLF.resize(n); rLA.resize(n); rMM.resize(n); pLF.resize(n); pLA.resize(n); pMM.resize(n); sc.resize(n); pos.resize(n); rf.resize(n);
    std::vector<int> relF(n, -1); // latest release fence
    bool anyAcqF = false; for (auto &e : ev) if (e.k == EF && isAcq(e.ord)) anyAcqF = true;
    bool anySF = false; for (auto &e : ev) if (e.k == EF && isSC(e.ord)) anySF = true;
    Ex zr = bvNum(0, RB), full = bvNum(Val::mask(CB), CB);
    auto nm = [&](const char *x, size_t i) { return std::string(x) + std::to_string(i); };
    for (size_t i = 0; i < n; i++) {
      Ev &e = ev[i]; g[i] = freshBool(nm("x", i)); A(exEq(g[i], e.g));
      if (e.k == EW) wc[i] = exTrue(); else if (e.k == EU) { wc[i] = isT(e.wc) ? e.wc : freshBool(nm("wc", i)); if (!isT(e.wc)) A(exEq(wc[i], e.wc)); } else wc[i] = exFalse();
      bool rd = e.k == ER || e.k == EU || e.k == EBLOCK;
      relF[i] = e.par >= 0 ? relF[e.par] : -1; if (e.k == EF && isRel(e.ord)) relF[i] = i;
      // candidates
      if (rd) {
        for (size_t j = 0; j < n; j++) {
          if (j == i || ev[j].loc != e.loc || (ev[j].k != EW && ev[j].k != EU)) continue;
          if (ev[j].thr == e.thr && !anc(j, i)) continue;
          uint64_t x, y; Ex wv = ev[j].wv; if (isNum(wv, x) && isNum(e.rv, y) && x != y) continue;
          rf[i].push_back({(int)j, freshBool(nm("rf", i) + "_" + std::to_string(j))});
        }
        rf[i].push_back({-1, freshBool(nm("rf", i) + "_init")}); S.axRf += rf[i].size();
      }
      bool sync = rd && isAcq(e.ord); if (e.k == EU && isAcq(e.ordF)) sync = true; if (e.k == EBLOCK || e.wait) sync = true;
      bool cross = false; for (auto &c : rf[i]) if (c.first >= 0 && ev[c.first].thr != e.thr) cross = true;
      if (!cross && !(e.k == EBLOCK || e.wait)) sync = false;
      bool fsync = e.k == EF && isAcq(e.ord);
      vc[i].resize(N); pend[i].resize(N); rc[i].resize(N);
      for (int t = 0; t < N; t++) {
        Ex par = e.par >= 0 ? vc[e.par][t] : z8;
        if (e.thr >= N) { vc[i][t] = full; continue; }
        if (t == e.thr) { vc[i][t] = bvNum(e.depth, CB); pend[i][t] = z8; continue; }
        Ex pp = e.par >= 0 ? pend[e.par][t] : z8;
        if (sync) { vc[i][t] = freshBV(nm("vc", i), CB); A(uge(vc[i][t], par)); }
        else if (fsync && !(pp == z8)) { vc[i][t] = freshBV(nm("vc", i), CB); A(uge(vc[i][t], par)); A(uge(vc[i][t], pp)); }
        else vc[i][t] = par;
        pend[i][t] = pp;
        if (anyAcqF && rd && cross && !sync) { pend[i][t] = freshBV(nm("pd", i), CB); A(uge(pend[i][t], pp)); }
      }
      auto sclk = [&](std::vector<Ex> &v, std::vector<Ex> &pv, const char *nmx) {
        Ex par = e.par >= 0 ? v[e.par] : zs, pp = e.par >= 0 ? pv[e.par] : zs; v[i] = par; pv[i] = pp;
        if (nsc == 0 || e.thr >= N) return;
        if (sync || (fsync && !(pp == zs))) { v[i] = freshBV(nm(nmx, i), SB); A(uge(v[i], par)); if (fsync) A(uge(v[i], pp)); }
        if (anyAcqF && rd && cross && !sync) { pv[i] = freshBV(nm(nmx, i), SB); A(uge(pv[i], pp)); }
      };
      // L clocks before own SC position are raised below
      sclk(LF, pLF, "lf"); sclk(LA, pLA, "la"); sclk(MM, pMM, "mm");
      if (anySF && e.loc >= 0 && e.thr < N) { Ex m = freshBV(nm("mm", i), SB); A(uge(m, MM[i])); MM[i] = m; }
      pos[i] = e.par >= 0 ? pos[e.par] : zr; if (rd && cross) { Ex q = freshBV(nm("pos", i), RB); A(ugt(q, pos[i])); pos[i] = q; }
      // SC position
      bool scx = isSC(e.ord) || (e.k == EU && isSC(e.ordF));
      if (nsc && scx && e.thr < N && (e.k == EF || rd || e.k == EW)) {
        Ex s = freshBV(nm("s", i), SB); A(ugt(s, zs)); sc[i] = s;
        Ex cond = e.k == EU && !(isSC(e.ord) && isSC(e.ordF)) ? (isSC(e.ord) ? wc[i] : exNot(wc[i])) : exTrue();
        cond = exAnd(g[i], cond);
        // after everything SC that happens before; LA[i] currently holds the incoming clock
        A(exImp(cond, ugt(s, LA[i])));
        if (e.k == EF) A(exImp(cond, ugt(s, MM[i])));
        Ex la = freshBV(nm("la", i), SB); A(uge(la, LA[i])); A(exImp(cond, uge(la, s))); LA[i] = la;
        if (e.k == EF) { Ex lf = freshBV(nm("lf", i), SB); A(uge(lf, LF[i])); A(exImp(cond, uge(lf, s))); LF[i] = lf; }
      }
      // release clocks
      if ((e.k == EW || e.k == EU) && e.thr < N) {
        int src = -2; if (!e.na && isRel(e.ord)) src = (int)i; else if (!e.na && relF[i] >= 0) src = relF[i];
        if (src != -2 || e.k == EU) {
          hasRc[i] = 1;
          for (int t = 0; t < N; t++) {
            Ex own = src == -2 ? z8 : t == e.thr ? bvNum(ev[src].depth, CB) : vc[src][t];
            if (e.k == EU) { rc[i][t] = freshBV(nm("rc", i), CB); A(uge(rc[i][t], own)); } else rc[i][t] = own;
          }
          auto rel = [&](std::vector<Ex> &r, std::vector<Ex> &v) { Ex own = src == -2 ? zs : v[src]; if (e.k == EU && nsc) { r[i] = freshBV(nm("rs", i), SB); A(uge(r[i], own)); } else r[i] = own; };
          rel(rLF, LF); rel(rLA, LA); rel(rMM, MM);
        }
      }
      // modification order position
      if (e.loc >= 0) {
        if (e.k == EW) { // even
          Ex q = freshBV(nm("p", i), PB - 1); p[i] = exConcat(q, bvNum(0, 1)); A(exImp(g[i], ugt(p[i], bvNum(0, PB)))); }
        else p[i] = freshBV(nm("p", i), PB);
      }
    }
    // distinct SC positions
    std::vector<int> scs; for (size_t i = 0; i < n; i++) if (sc[i]) scs.push_back(i);
    for (size_t x = 0; x < scs.size(); x++) for (size_t y = 0; y < x; y++) if (!excl(scs[x], scs[y])) A(exImp(exAnd(g[scs[x]], g[scs[y]]), exNot(exEq(sc[scs[x]], sc[scs[y]]))));
    // reads-from
    for (size_t i = 0; i < n; i++) {
      Ev &e = ev[i]; if (rf[i].empty()) continue;
      std::vector<Ex> any; for (auto &c : rf[i]) any.push_back(c.second);
      A(exImp(g[i], exOrN(any)));
      if (any.size() > 1) { std::vector<Z3_ast> v; for (auto &x : any) v.push_back(x); A(Ex(Z3_mk_atmost(Z, v.size(), v.data(), 1))); }
      bool acqS = isAcq(e.ord), acqF = e.k == EU ? isAcq(e.ordF) : acqS; Ex acq = acqS && acqF ? exTrue() : !acqS && !acqF ? exFalse() : acqS ? wc[i] : exNot(wc[i]);
      Ex one = bvNum(1, PB), two = bvNum(2, PB);
      for (auto &c : rf[i]) {
        int w = c.first; Ex r = c.second;
        if (w < 0) {
          Val iv = locs[e.loc].init; Ex val = iv.isUndef() ? e.rv : bvOf(iv); A(exImp(r, exEq(e.rv, val)));
          A(exImp(exAnd(r, g[i]), exEq(p[i], e.k == EU ? exIte(wc[i], two, one) : one))); continue;
        }
        A(exImp(r, exAnd(g[w], wc[w]))); A(exImp(r, exEq(e.rv, ev[w].wv)));
        Ex p1(Z3_mk_bvadd(Z, p[w], one)), p2(Z3_mk_bvadd(Z, p[w], two));
        A(exImp(exAnd(r, g[i]), e.k == EU ? exIte(wc[i], exEq(p[i], p2), exEq(p[i], p1)) : exEq(p[i], p1)));
        if (ev[w].thr != e.thr && e.thr < N) {
          A(exImp(r, ugt(pos[i], pos[w])));
          if (hasRc[w]) {
            for (int t = 0; t < N; t++) if (t != e.thr) {
              if (!isF(acq) && !(rc[w][t] == z8)) A(exImp(exAnd(r, acq), uge(vc[i][t], rc[w][t])));
              if (anyAcqF && !isT(acq) && pend[i][t] && !(rc[w][t] == z8)) { Ex c2 = exAnd(r, exNot(acq)); if (!(pend[i][t] == (e.par >= 0 ? pend[e.par][t] : z8))) A(exImp(c2, uge(pend[i][t], rc[w][t]))); }
            }
            if (nsc) {
              auto in = [&](std::vector<Ex> &v, std::vector<Ex> &pv, std::vector<Ex> &rr) { if (rr[w] && !(rr[w] == zs)) { if (!isF(acq)) A(exImp(exAnd(r, acq), uge(v[i], rr[w]))); if (anyAcqF && !isT(acq) && !(pv[i] == (e.par >= 0 ? pv[e.par] : zs))) A(exImp(exAnd(r, exNot(acq)), uge(pv[i], rr[w]))); } };
              in(LF, pLF, rLF); in(LA, pLA, rLA); in(MM, pMM, rMM);
              if (sc[i] && rLA[w] && !(rLA[w] == zs) && !isF(acq)) A(exImp(exAndN({r, acq, g[i]}), ugt(sc[i], rLA[w])));
            }
          }
        }
        if (e.k == EU && hasRc[w]) { // release sequence
          for (int t = 0; t < N; t++) A(exImp(exAnd(r, wc[i]), uge(rc[i][t], rc[w][t])));
          if (nsc) { auto in = [&](std::vector<Ex> &rr) { if (rr[w] && rr[i] && !(rr[w] == zs)) A(exImp(exAnd(r, wc[i]), uge(rr[i], rr[w]))); }; in(rLF); in(rLA); in(rMM); }
        }
      }
    }
    // modification order, coherence, SC through eco
    std::map<int, std::vector<int>> byLoc; for (size_t i = 0; i < n; i++) if (ev[i].loc >= 0) byLoc[ev[i].loc].push_back(i);
    for (auto &bl : byLoc) {
      auto &v = bl.second;
      for (int x : v) for (int y : v) {
        if (x == y || excl(x, y)) continue;
        bool wx = ev[x].k == EW || ev[x].k == EU, wy = ev[y].k == EW || ev[y].k == EU;
        Ex both = exAnd(g[x], g[y]);
        if (x < y && wx && wy) A(exImp(exAndN({both, wc[x], wc[y]}), exNot(exEq(p[x], p[y]))));
        Ex h = hb(x, y);
        if (ev[x].thr == ev[y].thr) { // only the nearest predecessor
          if (isT(h)) { bool near = true; for (int k = ev[y].par; k > x; k = ev[k].par) if (ev[k].loc == ev[y].loc) { near = false; break; } if (near) A(exImp(both, uge(p[y], p[x]))); }
        } else if (!isF(h) && (wx || wy || true)) A(exImp(exAnd(both, h), uge(p[y], p[x])));
        // psc: LF(x) or x SC, eco(x,y), then y SC or a later fence
        if (nsc && ev[x].thr < N && ev[y].thr < N && (wx || wy || true)) {
          Ex eco = exAnd(both, ugt(p[y], p[x]));
          if (!(LF[x] == zs)) { // fence before x
            if (sc[y]) A(exImp(exAnd(eco, scCond(y)), ugt(sc[y], LF[x])));
            if (anySF) A(exImp(eco, uge(MM[y], LF[x])));
          }
          if (sc[x] && ev[x].k != EF) {
            if (sc[y]) A(exImp(exAndN({eco, scCond(x), scCond(y)}), ugt(sc[y], sc[x])));
            if (anySF) A(exImp(exAnd(eco, scCond(x)), uge(MM[y], sc[x])));
          }
        }
      }
    }
  }
  Ex scCond(int i) { Ev &e = ev[i]; Ex c = e.k == EU && !(isSC(e.ord) && isSC(e.ordF)) ? (isSC(e.ord) ? wc[i] : exNot(wc[i])) : exTrue(); return exAnd(g[i], c); }
};

// ---------------------------------------------------------------- the parallel phase
static bool overl(uint64_t a, uint64_t b, uint64_t c, uint64_t d) { return a < d && c < b; }
// recomputes the shared locations from everything accessed so far; true when something changed
static bool updateLocs() {
  struct It { uint64_t lo, hi; uint32_t r, w; bool rmw; };
  std::vector<It> v;
  uint32_t par = (1u << N) - 1;
  for (auto &x : acc) { uint32_t r = x.second.r & par, w = x.second.w & par; if (r | w) v.push_back({x.first.first, x.first.first + x.first.second, r, w, x.second.rmw}); }
  std::sort(v.begin(), v.end(), [](const It &a, const It &b) { return a.lo < b.lo; });
  std::vector<It> c;
  for (auto &x : v) { if (!c.empty() && x.lo < c.back().hi) { auto &b = c.back(); b.hi = std::max(b.hi, x.hi); b.r |= x.r; b.w |= x.w; b.rmw |= x.rmw; } else c.push_back(x); }
  for (auto &x : c) {
    for (auto &f : freed) if (overl(x.lo, x.hi, f.lo, f.hi)) { x.r |= 1u << f.thr; x.w |= 1u << f.thr; }
    for (auto &f : bulk) if (f.thr < N && overl(x.lo, x.hi, f.lo, f.hi)) { (f.w ? x.w : x.r) |= 1u << f.thr; }
  }
  for (auto &x : bulk) for (auto &y : bulk) if (x.thr < y.thr && y.thr < N && (x.w || y.w) && overl(x.lo, x.hi, y.lo, y.hi)) {
    bool cov = false; for (auto &q : c) if (overl(q.lo, q.hi, x.lo, x.hi) && overl(q.lo, q.hi, y.lo, y.hi)) cov = true;
    if (!cov) engineError("ax: block copies of shared memory");
  }
  std::vector<Loc> nl;
  for (auto &x : c) {
    uint32_t all = x.r | x.w; if (!x.w || !(all & (all - 1))) continue;
    if (x.hi - x.lo > 8) engineError("ax: shared location wider than 8 bytes");
    Loc l; l.lo = x.lo; l.hi = x.hi; l.rm = x.r; l.wm = x.w; l.rmw = x.rmw; nl.push_back(l);
  }
  bool same = nl.size() == locs.size();
  for (size_t i = 0; same && i < nl.size(); i++) if (nl[i].lo != locs[i].lo || nl[i].hi != locs[i].hi || nl[i].rm != locs[i].rm || nl[i].wm != locs[i].wm || nl[i].rmw != locs[i].rmw) same = false;
  // values written, by thread; whether the thread releases anything from there on
  std::vector<char> rel(ev.size(), 0);
  for (size_t i = ev.size(); i-- > 0;) {
    Ev &x = ev[i];
    if (x.k == ENOTIFY || (!x.na && (x.k == EW || x.k == EU || x.k == EF) && isReleaseOrStronger(x.ord))) rel[i] = 1;
    if (rel[i] && x.par >= 0 && ev[x.par].thr == x.thr) rel[x.par] = 1;
  }
  auto put = [](Dom &d, const Ev &e) { if (e.any) d.any = true; d.v.insert(e.dom.begin(), e.dom.end()); if (d.v.size() > 64) d.any = true; if (d.any) d.v.clear(); };
  auto old = locs; if (!same) locs = nl;
  locAt.clear(); for (size_t i = 0; i < locs.size(); i++) locAt[locs[i].lo] = i;
  if (!same) for (auto &l : locs) {
    unsigned nb = l.hi - l.lo; State b = *baseState;
    MemEnt *e = findObj(b, l.lo); l.init = e && e->alive ? loadMem(b, l.lo, nb * 8) : Val::undef(nb * 8);
    if (!l.init.isUndef()) { std::vector<uint64_t> o; bool any; valuesOf(b, l.init, o, any, nb * 8); if (any) l.initD.any = true; else l.initD.v.insert(o.begin(), o.end()); }
    for (auto &o : old) if (o.lo == l.lo) for (int k = 0; k < 3; k++) for (int t = 0; t < 8; t++) l.wd[k][t] = o.wd[k][t];
  }
  for (size_t i = 0; i < ev.size(); i++) {
    Ev &x = ev[i]; if (x.loc < 0 || (x.k != EW && x.k != EU) || x.thr >= N) continue;
    auto it = locAt.find(old[x.loc].lo); if (it == locAt.end()) continue; Loc &l = locs[it->second];
    put(l.wd[0][x.thr], x); if (!x.na || rel[i]) put(l.wd[1][x.thr], x); if (rel[i]) put(l.wd[2][x.thr], x);
  }
  if (same) {
    for (size_t i = 0; i < locs.size(); i++) for (int k = 0; k < 3; k++) for (int t = 0; t < 8; t++) if (!(locs[i].wd[k][t] == old[i].wd[k][t])) return true;
    return false;
  }
  return true;
}
static bool diffByte(const Obj &x, const Obj &y, uint64_t i) {
  if (x.st[i] != y.st[i]) return true; if (x.st[i] == 0) return false; if (x.st[i] == 1) return x.b[i] != y.b[i];
  auto a = x.sym.find(i), b = y.sym.find(i); return !(a->second.e == b->second.e && a->second.idx == b->second.idx);
}
// memory after the parallel phase as seen by the code that follows it
static void importMem(State &m) {
  struct V { int t; size_t leaf; const MemEnt *e; };
  std::map<uint64_t, std::vector<V>> objsAt;
  std::set<uint64_t> baseAddr; for (auto &e : m.mem) baseAddr.insert(e.base);
  for (int t = 0; t < N; t++) for (size_t k = 0; k < leaves[t].size(); k++) {
    if (leaves[t][k].blocked) continue;
    for (auto &e : leaves[t][k].mem) {
      if (!baseAddr.count(e.base) && (e.owner != t || e.kind == OK::Stack || e.kind == OK::Tls)) continue;
      if (e.ro) continue;
      objsAt[e.base].push_back({t, k, &e});
    }
  }
  for (auto &oa : objsAt) {
    MemEnt *me = nullptr; { for (auto &e : m.mem) if (e.base == oa.first) { me = &e; break; } }
    if (!me) {
      MemEnt n = *oa.second[0].e; n.alive = true; n.o = std::make_shared<Obj>(); n.o->b.assign(n.size, 0); n.o->st.assign(n.size, 0);
      auto pos = m.mem.begin(); while (pos != m.mem.end() && pos->base < n.base) ++pos; m.mem.insert(pos, n); me = findObj(m, oa.first);
    }
    if (!me->alive) continue;
    auto bo = me->o; std::map<int, std::vector<V>> by; for (auto &v : oa.second) by[v.t].push_back(v);
    for (auto &x : by) { size_t fin = 0; for (auto &l : leaves[x.first]) if (!l.blocked) fin++; bool allDead = x.second.size() == fin && fin; for (auto &v : x.second) if (v.e->alive) allDead = false; if (allDead) me->alive = false; }
    if (!me->alive) continue;
    auto chunk = [&](uint64_t off, unsigned nb, auto &self) -> void {
      std::vector<int> ch;
      for (auto &x : by) { bool c = false; for (auto &v : x.second) if (v.e->o != bo && v.e->o->st.size() == bo->st.size()) for (unsigned i = 0; i < nb && !c; i++) c = diffByte(*v.e->o, *bo, off + i); if (c) ch.push_back(x.first); }
      if (ch.empty()) return;
      if (ch.size() > 1) { if (nb > 1) { for (unsigned i = 0; i < nb; i++) self(off + i, 1, self); return; } }
      State tmp = m; Val v = Val::undef(nb * 8); bool first = true;
      { MemEnt q = *me; q.o = bo; q.alive = true; tmp.mem = {q}; v = loadMem(tmp, me->base + off, nb * 8); }
      for (int t : ch) for (auto &u : by[t]) { if (u.e->o->st.size() != bo->st.size()) continue; tmp.mem = {*u.e}; tmp.mem[0].alive = true; Val lv = loadMem(tmp, me->base + off, nb * 8); v = iteVal(leaves[t][u.leaf].g, lv, v); }
      storeMem(m, me->base + off, v, nb * 8);
    };
    for (uint64_t off = 0; off < me->size; off += 8) chunk(off, std::min<uint64_t>(8, me->size - off), chunk);
  }
  for (int t = 0; t < N; t++) for (auto &l : leaves[t]) for (auto &x : l.excs) m.excs.insert(x);
}

static Z3_lbool askAx(const Ex &q, std::shared_ptr<Model> *m) {
  double t0 = nowSec(); Z3_solver_push(Z, AS); Z3_solver_assert(Z, AS, q);
  Z3_lbool r = Z3_solver_check(Z, AS); S.queries++; S.axQueries++;
  if (r == Z3_L_TRUE) { S.sat++; *m = std::make_shared<Model>(Z3_solver_get_model(Z, AS)); } else if (r == Z3_L_FALSE) S.unsat++; else S.unknown++;
  Z3_solver_pop(Z, AS, 1); double dt = nowSec() - t0; S.solverSec += dt;
  if (O.verbose) fprintf(stderr, "[ax] query %s in %.1fs\n", r == Z3_L_TRUE ? "sat" : r == Z3_L_FALSE ? "unsat" : "unknown", dt);
  if (r == Z3_L_UNDEF) engineError("solver returned unknown (axiomatic query)");
  return r;
}
static bool evalB(const std::shared_ptr<Model> &m, const Ex &e) { Z3_ast o = nullptr; if (!Z3_model_eval(Z, m->m, e, true, &o)) return false; return isT(Ex(o)); }
static uint64_t evalN(const std::shared_ptr<Model> &m, const Ex &e) { Z3_ast o = nullptr; uint64_t v = 0; if (Z3_model_eval(Z, m->m, e, true, &o)) isNum(Ex(o), v); return v; }

static void decideAx(State &s) {
  AS = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_FD")); Z3_solver_inc_ref(Z, AS);
  struct Rel { ~Rel() { Z3_solver_dec_ref(Z, AS); AS = nullptr; } } rel;
  { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), (unsigned)(std::max(20.0, T0 + 0.95 * O.timeLimit - nowSec()) * 1000)); Z3_solver_set_params(Z, AS, p); Z3_params_dec_ref(Z, p); }
  for (auto c = s.cons; c; c = c->prev) A(c->e);
  Enc E; E.run();
  for (auto &a : assumes) A(a);
  size_t n = ev.size();
  // futex: a notification either precedes the final check of a blocked thread or wakes another waiter
  std::vector<int> nts, wts; for (size_t i = 0; i < n; i++) { if (ev[i].k == ENOTIFY) nts.push_back(i); if (ev[i].k == EBLOCK || ev[i].wait) wts.push_back(i); }
  std::map<std::pair<int, int>, Ex> wake;
  auto after = [&](int nt, int w) { // nt ordered before w through the kernel
    std::vector<Ex> c; c.push_back(uge(E.vc[w][ev[nt].thr], bvNum(ev[nt].depth, E.CB)));
    for (int t = 0; t < N; t++) if (t != ev[w].thr && t != ev[nt].thr) c.push_back(uge(E.vc[w][t], E.vc[nt][t]));
    c.push_back(ugt(E.pos[w], E.pos[nt])); return exAndN(c); };
  for (int b : wts) if (ev[b].k == EBLOCK) for (int nt : nts) {
    if (ev[nt].a != ev[b].a || ev[nt].thr == ev[b].thr) continue;
    std::vector<Ex> alt; alt.push_back(after(nt, b));
    if (!ev[nt].all) for (int w : wts) if (ev[w].a == ev[nt].a && ev[w].thr != ev[b].thr && ev[w].thr != ev[nt].thr) { auto &k = wake[{nt, w}]; if (!k) { k = freshBool("wake"); A(exImp(k, exAndN({E.g[w], E.g[nt], after(nt, w)}))); } alt.push_back(k); }
    A(exImp(exAnd(E.g[b], E.g[nt]), exOrN(alt)));
  }
  for (auto &x : wake) for (auto &y : wake) if (x.first != y.first && (x.first.first == y.first.first || x.first.second == y.first.second)) A(exNot(exAnd(x.second, y.second)));
  S.axEvents += n; for (auto &e : ev) { if (e.k == ER || e.k == EU || e.k == EBLOCK) S.axReads++; if (e.k == EW || e.k == EU) S.axWrites++; }
  struct Bad { Ex e; std::string kind, msg, where; };
  std::vector<Bad> bad;
  for (auto &c : chks) if (!isF(c.bad)) { size_t k = c.msg.find(": "); bad.push_back({c.bad, "assert", c.msg, c.where}); S.assertsSolver++; }
  uint64_t racePairs = 0;
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) {
    if (ev[i].thr == ev[j].thr || ev[i].thr >= N || ev[j].thr >= N) continue;
    auto free2 = [&](size_t f, size_t x) {
      if (ev[f].k != EFREE || ev[x].loc < 0) return; Loc &l = locs[ev[x].loc]; if (!overl(l.lo, l.hi, ev[f].a, ev[f].a + ev[f].nb)) return;
      bad.push_back({exAndN({E.g[f], E.g[x], exNot(E.hb(x, f))}), "memory", "access to memory that another thread frees: " + ev[x].where + " against release at " + ev[f].where, ev[x].where}); };
    free2(i, j); free2(j, i);
    if (ev[i].k == EFREE && ev[j].k == EFREE && overl(ev[i].a, ev[i].a + ev[i].nb, ev[j].a, ev[j].a + ev[j].nb)) bad.push_back({exAnd(E.g[i], E.g[j]), "memory", "memory freed by two threads: " + ev[i].where + " and " + ev[j].where, ev[i].where});
    if (!O.axRace || ev[i].loc < 0 || ev[i].loc != ev[j].loc || !(ev[i].na || ev[j].na)) continue;
    bool wi = ev[i].k == EW || ev[i].k == EU, wj = ev[j].k == EW || ev[j].k == EU; if (!wi && !wj) continue;
    Ex w = wi && wj ? exTrue() : wi ? E.wc[i] : E.wc[j]; racePairs++;
    bad.push_back({exAndN({E.g[i], E.g[j], w, exNot(E.hb(i, j)), exNot(E.hb(j, i))}), "race", "data race: " + ev[i].where + " and " + ev[j].where, ev[i].where});
  }
  bool anyBlock = false;
  { std::vector<Ex> al, bl; for (int t = 0; t < N; t++) { std::vector<Ex> o; for (auto &l : leaves[t]) { o.push_back(l.g); if (l.blocked) bl.push_back(l.g); } al.push_back(exOrN(o)); }
    if (!bl.empty()) { anyBlock = true; bad.push_back({exAnd(exAndN(al), exOrN(bl)), "deadlock", "a waiting thread is never woken", ""}); } }
  std::vector<Ex> any; for (auto &b : bad) any.push_back(b.e);
  std::shared_ptr<Model> m;
  if (O.verbose) fprintf(stderr, "[ax] events %zu reads-from %llu checks %zu races %llu locations %zu clocks %u/%u/%u bits\n", n, (unsigned long long)S.axRf, chks.size(), (unsigned long long)racePairs, locs.size(), E.CB, E.PB, E.SB);
  Ex q = exOrN(any);
  if (!isF(q) && askAx(q, &m) == Z3_L_TRUE) {
    for (auto &b : bad) if (evalB(m, b.e)) {
      Violation v; v.kind = b.kind; v.msg = b.msg; v.where = b.where;
      for (auto &in : s.inputs) v.inputs.push_back({in.name + ":" + std::to_string(in.w), modelValV(m, in.e, in.w)});
      // the execution, in an order compatible with program order and reads-from
      std::vector<int> ex; for (size_t i = 0; i < n; i++) if (evalB(m, E.g[i])) ex.push_back(i);
      std::map<int, int> src; for (int i : ex) for (auto &c : E.rf[i]) if (evalB(m, c.second)) src[i] = c.first;
      std::set<int> done; std::vector<int> order; bool prog = true;
      while (prog) { prog = false; for (int i : ex) { if (done.count(i)) continue; if (ev[i].par >= 0 && !done.count(ev[i].par) && ev[ev[i].par].thr == ev[i].thr) continue; auto it = src.find(i); if (it != src.end() && it->second >= 0 && !done.count(it->second)) continue; done.insert(i); order.push_back(i); prog = true; } }
      std::ostringstream o; o << ",\"witness\":["; bool f = true; const char *kn[] = {"read", "write", "update", "fence", "free", "notify", "blocks"};
      for (int i : order) {
        auto &e = ev[i]; std::ostringstream l; l << "T" << e.thr << " " << kn[e.k] << (e.na ? " na" : e.k == EFREE || e.k == ENOTIFY ? "" : std::string(" ") + toIRString(e.ord));
        if (e.loc >= 0) { char b[40]; snprintf(b, 40, " [%llx]", (unsigned long long)locs[e.loc].lo); l << b; }
        if (e.rv) l << " reads " << evalN(m, e.rv); if (src.count(i)) { int w = src[i]; if (w < 0) l << " (initial)"; else l << " (from T" << ev[w].thr << " " << ev[w].where << ")"; }
        if ((e.k == EW || e.k == EU) && evalB(m, E.wc[i])) l << " writes " << evalN(m, e.wv);
        l << " @ " << e.where; o << (f ? "" : ",") << "\"" << jsonEsc(l.str()) << "\""; f = false;
      }
      o << "]"; v.extra = o.str(); S.viol.push_back(v);
      if (!O.keepGoing) break;
    }
    throw PathEnd{"violation"};
  }
  if (incomplete.size()) engineError(incomplete);
  std::map<std::string, std::vector<Ex>> by; for (auto &r : reaches) by[r.first].push_back(r.second);
  for (auto &r : by) if (askAx(exOrN(r.second), &m) == Z3_L_TRUE) S.reach[r.first]++;
}

void axPar(State &s, std::vector<std::pair<uint64_t, uint64_t>> thr) {
  if (s.axThr >= 0) engineError("ax: nested parallel phase");
  N = thr.size(); State base = s; baseState = &base;
  acc.clear(); freed.clear(); bulk.clear(); objs.clear(); allocTab.clear(); locs.clear(); locAt.clear();
  for (int i = 0; i < 8; i++) regNext[i] = (i + 1) * REG;
  for (int iter = 0;; iter++) {
    if (iter >= O.axIterMax) engineError("ax: shared locations and value sets did not stabilise");
    S.axIters++; ev.clear(); chks.clear(); reaches.clear(); assumes.clear(); deferred = false; cuts = 0;
    for (int i = 0; i <= N; i++) leaves[i].clear();
    incomplete.clear();
    for (int i = 0; i < N; i++) {
      std::string inc = incomplete; incomplete.clear(); exploreUntil = std::min(nowSec() + 0.25 * O.timeLimit, T0 + 0.6 * O.timeLimit);
      struct Keep { std::string &i; std::string o; ~Keep() { if (i.empty()) i = o; } } keep{incomplete, inc};
      State t = base; int id = t.thr.size(); t.thr.emplace_back(); t.cur = id; t.axThr = i; t.axGuard = exTrue(); t.axPo = -1; t.axSeq = 0; t.model.reset();
      const Function *F = fnAtV(thr[i].first); if (!F) engineError("ax: thread entry");
      pushCall(t, F, {Val::con(thr[i].second, 64)}, false);
      exploreThread(std::move(t));
    }
    size_t nl = locs.size(); auto ol = locs; bool ch = updateLocs();
    if (incomplete.size()) {
      bool same = nl == locs.size(); for (size_t i = 0; same && i < nl; i++) same = ol[i].lo == locs[i].lo && ol[i].hi == locs[i].hi && ol[i].rm == locs[i].rm && ol[i].wm == locs[i].wm && ol[i].rmw == locs[i].rmw;
      if (same || nowSec() > T0 + 0.5 * O.timeLimit) { if (!same) engineError(incomplete); if (O.verbose) fprintf(stderr, "[ax] incomplete: %s\n", incomplete.c_str()); break; }
    }
    if (O.verbose) { fprintf(stderr, "[ax] iteration %d: %zu events, %zu locations%s%s\n", iter, ev.size(), locs.size(), deferred ? ", deferred paths" : "", ch ? ", changed" : ""); for (auto &l : locs) { fprintf(stderr, "   %llx+%llu r%x w%x rmw%d dom %s", (unsigned long long)l.lo, (unsigned long long)(l.hi - l.lo), l.rm, l.wm, l.rmw, l.dom(-1, 0).any ? "any" : ""); for (auto x : l.dom(-1, 0).v) fprintf(stderr, " %llx", (unsigned long long)x); fprintf(stderr, "\n"); } }
    if (!ch && !deferred) break;
    if (!ch && deferred) { incomplete = "ax: deferred access does not resolve"; break; }
  }
  if (cuts) S.ended["cut (retry bound)"] += cuts;
  // what follows the parallel phase
  State m = base; m.axThr = N; m.axPo = -1; m.axSeq = 0; m.model.reset();
  std::vector<Ex> all; for (int t = 0; t < N; t++) { std::vector<Ex> o; for (auto &l : leaves[t]) if (!l.blocked) o.push_back(l.g); all.push_back(exOrN(o)); }
  m.axGuard = exAndN(all);
  if (!isF(m.axGuard)) { std::string inc = incomplete; incomplete.clear(); exploreUntil = std::min(nowSec() + 0.35 * O.timeLimit, T0 + 0.75 * O.timeLimit); importMem(m); exploreThread(m); if (incomplete.empty()) incomplete = inc; }
  decideAx(s);
  throw PathEnd{"done"};
}
