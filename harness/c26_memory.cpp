// C26: task memory held by long computations under every schedule that repeats a pattern of at most PERIOD decisions,
// against the memory their serial execution needs.
static int period_choice(unsigned n);
#define FJ_CHOICE period_choice
#include "fj.h"
#include <algorithm>
#ifndef PAD
#define PAD 8 // of the inner tasks
#endif
#ifndef LEAF
#define LEAF 8 // of leaves
#endif
#ifndef PROG
#define PROG 0
#endif
#ifndef PERIOD
#define PERIOD 5
#endif
static int seen[PERIOD], ndec = 0;
static int period_choice(unsigned n) {
  if (n == 1) return 0;
  int i = ndec++;
  if (i < PERIOD) return seen[i] = vp_choice(n);
  return seen[i % PERIOD] < (int)n ? seen[i % PERIOD] : (int)n - 1;
}
static uint64_t base = 0, first = 0, serial = 0, peak = 0; static bool parallel = false; static int deepest = 0, ran = 0;
static uint64_t held() { return vp_heap_bytes() - base + (parallel ? NW : 1) * first; }
static void sample() {
  uint64_t h = held();
  if (!parallel) { serial = std::max(serial, h); return; }
  peak = std::max(peak, h);
  vp_assert(h <= (uint64_t)FACTOR * NW * serial, "task memory held is within the bound");
}
static void here() { sample(); fj::point(); sample(); }
inline constexpr auto leaf = [](auto) -> lf::task<void> {
  Pad<LEAF> pad(1);
  ++ran; here();
  co_await lf::join; // the padding lives across a suspension, so in the frame
  pad.check(1);
  co_return;
};
#if PROG == 0 || PROG == 3 || PROG == 4 // a long sequence of scopes
#if PROG == 4
static int caught = 0;
inline constexpr auto thrower = [](auto) -> lf::task<void> {
  co_await lf::fork(leaf)(); here();
  co_await lf::join;
  throw 1;
};
#endif
inline constexpr auto mid = [](auto) -> lf::task<void> {
  Pad<PAD> pad(1);
  ++ran; sample();
  co_await lf::fork(leaf)(); here();
#if PROG == 4 // ... with tasks that throw
  try { co_await lf::call(thrower)(); co_await lf::join; } catch (int) { ++caught; }
#else
  co_await lf::call(leaf)(); sample();
  co_await lf::join;
#endif
  sample();
  pad.check(1);
};
inline constexpr auto root = [](auto, int n) -> lf::task<void> {
  for (int i = 0; i < n; ++i) {
    co_await lf::fork(mid)(); here();
    co_await lf::fork(leaf)(); sample();
    co_await lf::join; sample();
#if PROG == 3 // ... on changing workers
    co_await lf::resume_on(fj::w[(i + 1) % NW].ctx); here();
#endif
  }
};
#else // deep: each level lets go of its worker's stack if it is stolen from
inline constexpr auto root = [](auto self, int n) -> lf::task<void> {
  Pad<PAD> pad(1);
  ++ran; sample();
  if (n > 0) {
#if PROG == 2
    co_await lf::call(leaf)(); sample();
#endif
    co_await lf::fork(leaf)(); here();
    co_await lf::call(self)(n - 1); sample();
    co_await lf::join; sample();
  }
  pad.check(1);
};
#endif
extern "C" void vp_main() {
  auto live = vp_live(); auto b0 = vp_heap_bytes();
  { lf::impl::stack s; first = vp_heap_bytes() - b0; }
  fj::start(NW, 0, 0);
  base = vp_heap_bytes();
  { auto f = fj::exec(0, root, REPEATS); f.get(); }
  int tasks = ran; ran = 0; sample();
  parallel = true; fj::steals_left = fj::preempts_left = 1000;
  { auto f = fj::exec(0, root, REPEATS); f.get(); }
  sample(); vp_assert(ran == tasks, "the same tasks run");
  vp_note("serial", serial); vp_note("peak", peak); vp_note("steals", fj::steals_done);
  if (fj::steals_done == 0) vp_reach("no steal");
  if (fj::steals_done >= REPEATS) vp_reach("a steal per scope");
  if (serial > first) vp_reach("several segments");
  fj::stop();
  vp_assert(vp_live() == live, "all memory is returned");
  vp_reach("end");
}
