// C09: tasks that move themselves to another worker at any point of fork-join scopes.
#include "fj.h"
#ifndef NW
#define NW 2
#endif
#ifndef STEALS
#define STEALS 2
#endif
#ifndef PRE
#define PRE 4
#endif
#ifndef MAXC
#define MAXC 2
#endif
#ifndef DEPTH
#define DEPTH 1
#endif
#ifndef SWITCHES
#define SWITCHES 2
#endif
#ifndef PAD
#define PAD 8
#endif
#ifndef OWN
#define OWN 0
#endif
constexpr int MAXID = 32;
static int ran[MAXID], done[MAXID], switches = SWITCHES, moved = 0; static uint32_t ret[MAXID];
struct Leave { int id; ~Leave() { ++done[id]; } };
static int here() { for (int k = 0; k < fj::nw; ++k) if (fj::w[k].ctx == lf::impl::tls::context()) return k; vp_fail("task runs on a thread that is not a worker"); }
#if OWN
// A switcher of the user's own: parks the handle, which is passed to a worker later, possibly after others ran.
struct to_worker {
  int k, *resumed; bool ready;
  bool await_ready() { return ready; }
  void await_suspend(lf::submit_handle h) { int d = k; fj::point(); fj::w[d].ctx->schedule(h); fj::point(); }
  int await_resume() { return ++*resumed; }
};
#endif
#define SWITCH() if (switches > 0) { \
    int dst = vp_choice(NW + 1); \
    if (dst < NW) { --switches; ++moved; bool same = dst == here(); \
      SWITCH1; \
      vp_assert(here() == dst, "the task continues on the requested worker"); vp_assert(fj::self == dst, "the requested worker runs the task"); \
      if (same) vp_reach("already there"); else vp_reach("moved"); fj::point(); } }
#if OWN
#define SWITCH1 int cnt = 0; int r = co_await to_worker{dst, &cnt, VP_BOOL("ready") && same}; vp_assert(r == 1 && cnt == 1, "resumed once, result of the awaitable delivered")
#else
#define SWITCH1 co_await lf::resume_on(fj::w[dst].ctx)
#endif
inline constexpr auto node = [](auto self, int id, int d) -> lf::task<uint32_t> {
  Leave leave{id};
  Pad<PAD> pad(id);
  ++ran[id];
  uint32_t v = (uint32_t)vp_sym(32, "v"), r = v;
  fj::point();
  SWITCH();
  if (d > 0) {
    uint32_t out[MAXC] = {};
    int n = vp_choice(MAXC) + 1;
    for (int k = 0; k < n; ++k) {
      int c = id * MAXC + 1 + k;
      if (vp_choice(2)) co_await lf::fork(&out[k], self)(c, d - 1);
      else { co_await lf::call(&out[k], self)(c, d - 1); vp_assert(done[c] == 1, "a called task is finished when the caller continues"); }
      fj::point();
      SWITCH();
    }
    co_await lf::join;
    for (int k = 0; k < n; ++k) {
      int c = id * MAXC + 1 + k;
      vp_assert(done[c] == 1 && out[k] == ret[c], "every child is finished and its result stored after the join");
      r = 31 * r + out[k];
    }
    fj::point();
    SWITCH();
  }
  pad.check(id);
  vp_assert(ran[id] == 1, "the task body continues exactly once");
  ret[id] = r;
  co_return r;
};
extern "C" void vp_main() {
  auto live = vp_live();
  fj::start(NW, STEALS, PRE);
  {
    auto f = fj::exec(0, node, 0, DEPTH);
    vp_assert(done[0] == 1, "the root finished");
    vp_assert(f.get() == ret[0], "result of the root");
  }
  for (int i = 0; i < MAXID; ++i) vp_assert(ran[i] <= 1 && ran[i] == done[i], "every task runs exactly once, completely");
  fj::reach_steals();
  if (moved == 0) vp_reach("no switch");
  if (moved == 1) vp_reach("one switch");
  if (moved >= 2) vp_reach("two switches");
  fj::stop();
  vp_assert(vp_live() == live, "all memory is returned");
  vp_reach("end");
}
