// Fork-join programs on several workers with every steal / resume / preemption at task boundaries a symbolic choice.
//
// Each worker is a thread of control (own thread_locals). Exactly one runs at a time; point() marks the places at which
// another worker may run: one may continue where it was, an idle one may take its submitted tasks or steal from any
// other worker that has something to steal. Bounds: number of workers, number of successful steals, number of times a
// runnable worker is preempted.
#pragma once
#include "vp.h"
#ifndef FJ_MAXW
#define FJ_MAXW 3
#endif
#ifdef SUB // lf::fork[&a, f](x) or lf::fork(&a, f)(x)
#define VP_BIND(...) [__VA_ARGS__]
#else
#define VP_BIND(...) (__VA_ARGS__)
#endif
#ifndef FJ_CHOICE
#define FJ_CHOICE vp_choice
#endif
#include "libfork/core.hpp"
#include <optional>
#include <exception>

namespace fj {
struct Worker {
  lf::worker_context *ctx = nullptr;
  int tid = -1;
  bool idle = false, dead = false, attached = false;
  int pending = 0; // submitted, not yet taken
  int action = -1; // -2: take submissions, >=0: steal from
};
inline Worker w[FJ_MAXW];
inline int nw = 0, steals_left = 0, preempts_left = 0, alive = 0, steals_done = 0, taken = 0;
inline bool stopping = false;
inline int self = -1; // index of the running worker, -1: main

inline bool has_work(int k) { return !static_cast<lf::impl::full_context *>(w[k].ctx)->empty(); }

VP_NOINLINE inline void go(int k, int action) {
  w[k].action = action;
  self = k;
  vp_switch(w[k].tid);
}
// Let some worker run; `cur` is the calling worker (running_cur: it is at a point inside a task and may just continue).
VP_NOINLINE inline void sched(int cur, bool running_cur) {
  int who[FJ_MAXW * (FJ_MAXW + 2) + 1], act[FJ_MAXW * (FJ_MAXW + 2) + 1], n = 0;
  if (running_cur) { who[n] = cur; act[n++] = -1; }
  if (!running_cur || preempts_left > 0) {
    for (int i = 0; i < nw; ++i) { // in an order relative to the calling worker
      int k = ((cur < 0 ? 0 : cur) + i) % nw;
      if (w[k].dead || (running_cur && k == cur)) continue;
      if (!w[k].idle && k != cur) { who[n] = k; act[n++] = -1; continue; } // suspended at a point
      if (!w[k].idle) continue;
      if (w[k].pending > 0) { who[n] = k; act[n++] = -2; }
      if (steals_left > 0)
        for (int j = 1, v; j < nw; ++j)
          if (v = (k + j) % nw; !w[v].dead && has_work(v)) { who[n] = k; act[n++] = v; }
    }
  }
  if (n == 0) { self = -1; vp_switch(0); return; } // quiescent: back to main
  int c = FJ_CHOICE((unsigned)n);
  if (running_cur && c == 0) return;
  if (running_cur) --preempts_left;
  if (who[c] == cur) { w[cur].action = act[c]; return; }
  go(who[c], act[c]);
}
// A place inside a task where other workers may run.
VP_NOINLINE inline void point() { if (self >= 0) sched(self, true); }

inline void do_steal(int me, int v) {
  auto [err, task] = w[v].ctx->try_steal();
  if (err != lf::err::none) { vp_fail("a steal from a worker with stealable work failed without contention"); }
  --steals_left; ++steals_done;
  lf::resume(task);
}
inline void worker_main(void *p) {
  int me = (int)(intptr_t)p;
  w[me].ctx = lf::worker_init(lf::nullary_function_t{[me] { // called after a submission to this worker
    ++w[me].pending;
    point(); // other workers may run the submitted task before the submitter continues
  }});
  w[me].idle = true; w[me].attached = true;
  vp_switch(0);
  while (true) {
    if (stopping) break;
    int a = w[me].action; w[me].action = -1;
    if (a == -2) {
      w[me].idle = false;
      auto *l = w[me].ctx->try_pop_all();
      if (l == nullptr) vp_fail("submitted task was not delivered to the worker");
      taken += w[me].pending; w[me].pending = 0;
      lf::resume(l);
    } else if (a >= 0) {
      w[me].idle = false;
      do_steal(me, a);
    }
    w[me].idle = true;
    sched(me, false);
  }
  lf::finalize(w[me].ctx);
  w[me].dead = true;
  vp_switch(0);
}
inline void start(int workers, int steals, int preempts) {
  nw = workers; steals_left = steals; preempts_left = preempts;
  for (int k = 0; k < nw; ++k) { w[k].tid = vp_spawn(worker_main, (void *)(intptr_t)k); }
  for (int k = 0; k < nw; ++k) vp_switch(w[k].tid);
}
// A scheduler submitting to a given worker.
struct sched_to {
  int k;
  void schedule(lf::submit_handle h) { w[k].ctx->schedule(h); }
};
// Run everything until no worker can make progress.
inline void run() { sched(-1, false); }
inline bool quiescent() {
  for (int k = 0; k < nw; ++k) if (!w[k].idle || w[k].pending || has_work(k)) return false;
  return true;
}
// Submit f(args...) to worker k and run until nothing can make progress any more.
template <class F, class... A> auto exec(int k, F f, A... a) {
  auto fu = lf::schedule(sched_to{k}, f, a...);
  run();
  vp_assert(quiescent(), "all workers are idle when no work is left");
  return fu;
}
inline void reach_steals() {
  if (steals_done == 0) vp_reach("no steal");
  if (steals_done == 1) vp_reach("one steal");
  if (steals_done == 2) vp_reach("two steals");
  if (steals_done >= 3) vp_reach("three steals");
}
inline void stop() {
  stopping = true;
  for (int k = 0; k < nw; ++k) { self = k; vp_switch(w[k].tid); }
  self = -1;
  for (int k = 0; k < nw; ++k) vp_assert(w[k].dead, "worker did not terminate");
}
} // namespace fj
