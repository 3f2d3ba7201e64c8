// C04: the join protocol under the C++ memory model: children that finish on other workers against the task reaching its join.
#include <limits>
#include <cstring>
#include "vp.h"
#include "libfork/core.hpp"
#ifndef KIDS
#define KIDS 2 // children outstanding when the threads start, each on its own worker
#endif
#ifndef FIRST
#define FIRST 1 // child 0 runs on the worker that still has the task's stack
#endif
#ifndef THROW
#define THROW 0 // bit i: child i ends by an exception
#endif
#ifndef READY
#define READY 2 // the task calls await_ready first: 0 no, 1 yes, 2 either
#endif
using lf::impl::frame; using lf::impl::stack;
static frame *P; static stack::stacklet *S; static char coro[64]; static lf::nullary_function_t note;
static int result[4], continuedBy[5], sum[5], threw[5], resetOk[5], topOk[5]; static int continued = 0;
struct Err { int who; };
static void go_on(int me) { // the task continues past the join on this worker
  continuedBy[me] = 1; continued = continued + 1;
  resetOk[me] = (P->load_steals() == 0) & (P->load_joins(std::memory_order_relaxed) == std::numeric_limits<decltype(P->load_steals())>::max());
  topOk[me] = lf::impl::tls::stack()->top() == S;
  try { lf::impl::join_awaitable{P}.await_resume(); } catch (Err const &e) { threw[me] = e.who + 1; }
  int s = 0; for (int i = 0; i < KIDS; ++i) s += result[i];
  sum[me] = s;
  auto *m = (uint64_t *)lf::impl::tls::stack()->allocate(64); m[0] = 1; lf::impl::tls::stack()->deallocate(m);
  // the task returns
  P->~frame(); lf::impl::tls::stack()->deallocate(P);
}
static void child(void *p) {
  int me = (int)(long)p; lf::worker_context *w = lf::worker_init([] {});
  if (FIRST && me == 0) *lf::impl::tls::stack() = stack{S};
  result[me] = 10 + me;
  if (THROW >> me & 1) { try { throw Err{me}; } catch (...) { P->capture_exception(); } }
  auto h = lf::impl::detail::final_await_suspend(P);
  if (h.address() == coro) go_on(me);
  lf::finalize(w);
}
static void task(void *) {
  lf::worker_context *w = lf::worker_init([] {});
  lf::impl::join_awaitable j{P}; bool mine = false;
  if (READY == 1 || (READY == 2 && vp_choice(2))) mine = j.await_ready();
  if (!mine) mine = j.await_suspend(std::coroutine_handle<>::from_address(coro)).address() == coro;
  if (mine) go_on(4);
  lf::finalize(w);
}
extern "C" void vp_main() {
  auto live = vp_live();
  {
    using C = decltype(P->load_steals());
    S = [] { stack s; auto *m = s.allocate(sizeof(frame)); memset(m, 0, sizeof(frame)); P = ::new (m) frame(std::coroutine_handle<>::from_address(coro), s.top()); return s.release(); }();
    // children of the scope that have finished before; as many steals as fit into 32 bits
#ifdef MANY
    for (int i = 0; i < MANY + KIDS; ++i) P->fetch_add_steal();
    for (int i = 0; i < MANY; ++i) P->fetch_sub_joins(1, std::memory_order_relaxed);
#else
    uint64_t done = vp_sym(32, "done");
    vp_assume(done < 0xffffffffull - KIDS);
    P->fetch_sub_joins((C)done, std::memory_order_relaxed);
    unsigned char was[sizeof(frame)]; memcpy(was, P, sizeof(frame)); P->fetch_add_steal(); // where the number of steals is kept
    unsigned at = 0; while (at < sizeof(frame) && was[at] == ((unsigned char *)P)[at]) ++at;
    vp_assert(at + sizeof(C) <= sizeof(frame), "steals are counted in the frame");
    C steals = (C)(done + KIDS); memcpy((char *)P + at, &steals, sizeof(C));
    vp_assert(P->load_steals() == steals, "number of steals");
#endif
    void (*f[1 + KIDS])(void *); void *a[1 + KIDS];
    for (long t = 0; t < KIDS; ++t) f[t] = child, a[t] = (void *)t;
    f[KIDS] = task; a[KIDS] = nullptr;
    vp_par(1 + KIDS, f, a);
    int n = 0, want = 0; bool ok = true, top = true, vis = true, exc = true;
    for (int i = 0; i < KIDS; ++i) want += 10 + i;
    for (int i = 0; i < 5; ++i) { bool c = continuedBy[i]; n += c; ok &= !c | resetOk[i]; top &= !c | topOk[i]; vis &= !c | (sum[i] == want);
      exc &= !c | (THROW ? (threw[i] > 0) & (((THROW << 1) >> (threw[i] & 7) & 1) == 1) : threw[i] == 0); }
    vp_assert(n != 0, "some worker continues the task"); vp_assert(n <= 1, "at most one worker continues the task");
    vp_assert(vis, "everything the children wrote is visible to the continuation"); vp_assert(ok, "the control block is reset");
    vp_assert(top, "the worker that continues owns the memory the task runs on"); vp_assert(exc, "the exception of one of the children that threw arrives");
    vp_reach_if(continuedBy[4], "task continues"); vp_reach_if(continuedBy[0], "first child continues"); vp_reach_if(continuedBy[1], "other child continues");
    vp_reach("end");
  }
  vp_assert(vp_live() == live, "nothing leaks");
}
