// C05/C07: trees of tasks whose shape (number of children, fork or call, one or more join scopes) is symbolic.
#include "fj.h"
#ifndef DEPTH
#define DEPTH 2
#endif
#ifndef MAXC
#define MAXC 2
#endif
#ifndef SCOPES
#define SCOPES 1
#endif
#ifndef NW
#define NW 2
#endif
#ifndef STEALS
#define STEALS 2
#endif
#ifndef PRE
#define PRE 3
#endif
#ifndef PAD
#define PAD 8
#endif
constexpr int MAXID = 64; static bool missing[MAXID]; static int oom = 1;
static uint64_t heap0; static bool more = false; // another segment was needed
 static int ran[MAXID], after[MAXID], nchild[MAXID][SCOPES]; static uint32_t val[MAXID], ret[MAXID];
static int child_id(int id, int scope, int k) { return id * (MAXC * SCOPES) + 1 + scope * MAXC + k; }
static uint32_t serial(int id, int d) {
  uint32_t r = val[id];
  if (d > 0) for (int s = 0; s < SCOPES; ++s) for (int k = 0; k < nchild[id][s]; ++k) r = 31 * r + (missing[child_id(id, s, k)] ? 0 : serial(child_id(id, s, k), d - 1));
  return r;
}
inline constexpr auto node = [](auto self, int id, int d) -> lf::task<uint32_t> {
  Pad<PAD> pad(id);
#ifdef OOM
  vp_oom(0);
#endif
  ++ran[id]; if (PAD > 1000 && fj::steals_done == 0 && vp_heap_bytes() > heap0 + 4000) more = true;
  uint32_t r = val[id] = (uint32_t)vp_sym(32, "v");
  fj::point();
  if (d > 0) {
    for (int s = 0; s < SCOPES; ++s) {
      uint32_t out[MAXC] = {};
      int n = vp_choice(MAXC + 1);
      nchild[id][s] = n;
      for (int k = 0; k < n; ++k) {
#if defined(KIND) && KIND == 1
        int kind = k + 1 < n; // fork all but the last
#else
        int kind = vp_choice(2);
#endif
#ifdef OOM // creating the child may fail: then there is no child
        bool made = true;
        try { vp_oom(oom); if (kind) { co_await lf::fork(&out[k], self)(child_id(id, s, k), d - 1); } else { co_await lf::call(&out[k], self)(child_id(id, s, k), d - 1); } } catch (std::bad_alloc const &) { made = false; --oom; vp_oom(0); vp_reach("child not created"); }
        if (!made) { vp_assert(ran[child_id(id, s, k)] == 0, "a child that could not be created does not run"); missing[child_id(id, s, k)] = true; }
        else if (!kind) vp_assert(after[child_id(id, s, k)] == 1 && out[k] == ret[child_id(id, s, k)], "a called task is finished and its result stored when the caller continues");
#else
        if (kind) { co_await lf::fork(&out[k], self)(child_id(id, s, k), d - 1); }
        else { co_await lf::call(&out[k], self)(child_id(id, s, k), d - 1); vp_assert(after[child_id(id, s, k)] == 1 && out[k] == ret[child_id(id, s, k)], "a called task is finished and its result stored when the caller continues"); }
#endif
        fj::point();
      }
      co_await lf::join;
      for (int k = 0; k < n; ++k) {
        if (missing[child_id(id, s, k)]) { r = 31 * r; continue; }
        vp_assert(after[child_id(id, s, k)] == 1, "every child has finished when the task continues after its join");
        vp_assert(out[k] == ret[child_id(id, s, k)], "result of a child is stored where its parent asked for it");
        r = 31 * r + out[k];
      }
      fj::point();
    }
  }
  pad.check(id);
  ++after[id]; ret[id] = r;
  co_return r;
};
extern "C" void vp_main() {
  auto live = vp_live();
  fj::start(NW, STEALS, PRE); heap0 = vp_heap_bytes();
  {
    auto f = fj::exec(0, node, 0, DEPTH);
    vp_assert(f.get() == serial(0, DEPTH), "parallel result equals serial result");
  }
  for (int i = 0; i < MAXID; ++i) vp_assert(ran[i] <= 1 && ran[i] == after[i], "every task body runs exactly once, completely");
  if (more) vp_reach("several segments");
  fj::reach_steals();
  fj::stop();
  vp_assert(vp_live() == live, "all memory is returned");
  vp_reach("end");
}
