// C08: trees of tasks in which any subset of the tasks throws, with every kind of dispatch.
#include "fj.h"
#ifndef DEPTH
#define DEPTH 1
#endif
#ifndef MAXC
#define MAXC 2
#endif
#ifndef SCOPES
#define SCOPES 1
#endif
#ifndef NW
#define NW 2
#endif
#ifndef STEALS
#define STEALS 2
#endif
#ifndef PRE
#define PRE 3
#endif
#ifndef KINDS
#define KINDS 2
#endif
#ifndef FIRSTKIND
#define FIRSTKIND 0
#endif
#ifndef STASH
#define STASH 0
#endif
// kinds: 0 fork, 1 call, 2 call eager_throw, 3 fork sync, 4 fork into a holder, 5 call into a holder,
//        6 call eager_throw_outside (first of a scope), 7 fork sync_outside (first of a scope)
constexpr int MAXID = 64;
static int ran[MAXID], done[MAXID], received[MAXID], taken[MAXID], live_ex = 0;
static uint32_t tval[MAXID]; static bool threw[MAXID];
struct Ex {
  int id; uint32_t v;
  Ex(int i, uint32_t x) : id(i), v(x) { ++live_ex; }
  Ex(Ex const &o) : id(o.id), v(o.v) { ++live_ex; }
  ~Ex() { --live_ex; }
};
static int child_id(int id, int scope, int k) { return id * (MAXC * SCOPES) + 1 + scope * MAXC + k; }
static bool belongs(int id, int first, int n) { return (id >= first) & (id < first + n); }
struct Leave { int id; ~Leave() { ++done[id]; } };
// An exception carries the identity of the task that threw it first and its value.
inline constexpr auto node = [](auto self, int id, int d) -> lf::task<uint32_t> {
  Leave leave{id};
  ++ran[id];
  fj::point();
  bool mustthrow = false; int tid = -1; uint32_t tv = 0;
  if (d > 0) {
    for (int s = 0; s < SCOPES; ++s) {
      uint32_t out[MAXC] = {};
      lf::eventually<uint32_t> ev[MAXC]; lf::try_eventually<uint32_t> tev[MAXC];
      int kinds[MAXC], started = 0, got = 0, before = 0, gid = -1; uint32_t gv = 0; bool stashed = false;
      int n = vp_choice(MAXC + 1), first = child_id(id, s, 0);
      try {
        for (int k = 0; k < n; ++k) {
          int c = child_id(id, s, k), kind = FIRSTKIND + vp_choice(KINDS);
          if (kind >= 6 && k > 0) kind -= 6; // the "outside" modifiers are for the first one only
          kinds[k] = kind; ++started;
          if (kind == 0) co_await lf::fork VP_BIND(&out[k], self)(c, d - 1);
          else if (kind == 1) co_await lf::call VP_BIND(&out[k], self)(c, d - 1);
          else if (kind == 2 || kind == 6) {
            if (kind == 2) co_await lf::dispatch<lf::tag::call, lf::modifier::eager_throw> VP_BIND(&out[k], self)(c, d - 1);
            else co_await lf::dispatch<lf::tag::call, lf::modifier::eager_throw_outside> VP_BIND(&out[k], self)(c, d - 1);
            vp_assert(done[c] == 1 && !threw[c], "an eagerly throwing call does not continue normally after its child threw");
          } else if (kind == 3 || kind == 7) {
            bool sync;
            if (kind == 3) sync = co_await lf::dispatch<lf::tag::fork, lf::modifier::sync> VP_BIND(&out[k], self)(c, d - 1);
            else sync = co_await lf::dispatch<lf::tag::fork, lf::modifier::sync_outside> VP_BIND(&out[k], self)(c, d - 1);
            if (sync) vp_assert(done[c] == 1 && !threw[c], "a fork that reports synchronous completion completed without exception");
            else vp_reach("asynchronous");
          }
          else if (kind == 4) co_await lf::fork VP_BIND(&tev[k], self)(c, d - 1);
          else co_await lf::call VP_BIND(&tev[k], self)(c, d - 1);
          if (kind == 1 || kind == 2 || kind == 5 || kind == 6) vp_assert(done[c] == 1, "a called child is finished when the caller continues");
#if STASH
          if (!stashed && VP_BOOL("stash")) { try { throw Ex(child_id(id, s, 0) + 32, 7); } catch (...) { self.stash_exception(); stashed = true; } }
#endif
          fj::point();
        }
      } catch (Ex const &e) { ++got; gid = e.id; gv = e.v; vp_reach("eager"); }
      catch (lf::exception_before_join const &) { ++before; vp_reach("before join"); }
      try {
        co_await lf::join;
      } catch (Ex const &e) { ++got; gid = e.id; gv = e.v; vp_reach("exception at join"); }
      int thrown = stashed;
      for (int k = 0; k < started; ++k) {
        int c = child_id(id, s, k);
        vp_assert(done[c] == 1, "every child has finished when the join is over");
        if (kinds[k] == 4 || kinds[k] == 5) {
          vp_assert(tev[k].has_exception() == threw[c] && tev[k].has_value() == !threw[c], "a holder with exception support receives the outcome of its child");
          if (threw[c]) {
            bool ok = false;
            try { std::rethrow_exception(std::move(tev[k]).exception()); } catch (Ex const &e) { ok = (e.v == tval[c]) & (e.id == taken[c]); }
            vp_assert(ok, "the exception in the holder is the one its child threw");
            vp_reach("held exception");
          } else vp_assert(*tev[k] == (uint32_t)c + 100, "value in the holder");
        } else if (threw[c]) ++thrown;
        else vp_assert(out[k] == (uint32_t)c + 100, "result of a child that did not throw");
      }
      vp_assert(got == (thrown ? 1 : 0), "exactly one exception is received when any child of the scope threw, none otherwise");
      if (thrown >= 2) vp_reach("one of several");
      if (before) vp_assert(got == 1, "an early notice is followed by the exception at the join");
      if (got) {
        bool ok = stashed & (gid == child_id(id, s, 0) + 32) & (gv == 7);
        for (int k = 0; k < started; ++k) { int c = child_id(id, s, k); if (threw[c] && kinds[k] != 4 && kinds[k] != 5) ok = ok | ((gid == taken[c]) & (gv == tval[c])); }
        vp_assert(ok, "the exception received was thrown by a child of the scope");
        // pass it on or swallow it
        if (!mustthrow && VP_BOOL("propagate")) { mustthrow = true; tid = gid; tv = gv; }
      }
      fj::point();
    }
  }
  if (!mustthrow && VP_BOOL("throw")) { mustthrow = true; tid = id; tv = (uint32_t)vp_sym(32, "exception value"); }
  if (mustthrow) { threw[id] = true; taken[id] = tid; tval[id] = tv; throw Ex(tid, tv); }
  co_return (uint32_t)id + 100;
};
extern "C" void vp_main() {
  auto live = vp_live();
  fj::start(NW, STEALS, PRE);
  {
    auto f = fj::exec(0, node, 0, DEPTH);
    bool got = false, ok = true;
    try { ok = f.get() == 100; } catch (Ex const &e) { got = true; ok = (e.id == taken[0]) & (e.v == tval[0]); }
    vp_assert(got == threw[0], "an exception leaving the root is delivered to the waiter");
    vp_assert(ok, "the waiter receives the right result or exception");
    if (got) vp_reach("root exception");
  }
  for (int i = 0; i < MAXID; ++i) vp_assert(ran[i] <= 1 && ran[i] == done[i], "every task runs exactly once and its frame is destroyed");
  vp_assert(live_ex == 0, "discarded exceptions are destroyed");
  fj::reach_steals();
  fj::stop();
  vp_assert(vp_live() == live, "all memory is returned");
  vp_reach("end");
}
