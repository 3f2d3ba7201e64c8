// C24: deferred actions run exactly once, in reverse order, whichever way the scope is left.
#include "fj.h"
#ifndef NW
#define NW 2
#endif
#ifndef STEALS
#define STEALS 2
#endif
#ifndef PRE
#define PRE 4
#endif
static int order[16], nord = 0; static int runs[8];
static void act(int k) { ++runs[k]; order[nord++] = k; }
struct Boom {};
static int expect_from(int *e, int n) { for (int i = 0; i < n; ++i) vp_assert(order[i] == e[i], "deferred actions run in reverse order of declaration"); vp_assert(nord == n, "each deferred action runs exactly once"); return 0; }
// plain function: leaves by fall-through, return, break, continue, goto-like loop, exception
static int plain(int how) {
  LF_DEFER { act(0); };
  for (int i = 0; i < 2; ++i) {
    LF_DEFER { act(1); };
    LF_DEFER { act(2); };
    vp_assert(runs[2] == i && runs[1] == i, "nothing runs before the scope is left");
    if (how == 1) return 7;
    if (how == 2) break;
    if (how == 3) continue;
    if (how == 4) throw Boom{};
    if (how == 5 && i == 1) return 8;
  }
  vp_assert(runs[0] == 0, "an outer action runs only when its own scope is left");
  return 9;
}
inline constexpr auto leaf = [](auto, int *p) -> lf::task<void> { fj::point(); ++*p; co_return; };
static uint32_t mv = 0;
inline constexpr auto child = [](auto self, int how, int d) -> lf::task<int> {
  LF_DEFER { act(0); };
  int n = 0;
  fj::point();
  {
    LF_DEFER { act(1); };
    auto cap = std::make_unique<int>(5);
    lf::defer named = [c = std::move(cap)]() noexcept { vp_assert(*c == 5, "captured state lives until the action ran"); act(2); };
    co_await lf::fork(leaf)(&n); fj::point();
    vp_assert(nord == 0, "nothing runs while the task is suspended or moved");
    if (how == 3) co_await lf::resume_on(fj::w[vp_choice(NW)].ctx);
    vp_assert(nord == 0, "nothing runs while the task is suspended or moved");
    co_await lf::join;
    vp_assert(nord == 0, "nothing runs before the scope is left");
    if (how == 1) co_return 7;
    if (how == 2) throw Boom{};
  }
  vp_assert(nord == 2 && runs[0] == 0, "inner actions have run, outer ones have not");
  fj::point();
  co_return 9;
};
extern "C" void vp_main() {
  auto live = vp_live();
  if (VP_BOOL("plain")) {
    int how = vp_choice(6), r = -1;
    try { r = plain(how); } catch (Boom const &) { vp_assert(how == 4, "no exception"); vp_reach("by exception"); }
    if (how == 0 || how == 3) { int e[] = {2, 1, 2, 1, 0}; expect_from(e, 5); vp_assert(r == 9, "value"); }
    else if (how == 5) { int e[] = {2, 1, 2, 1, 0}; expect_from(e, 5); vp_assert(r == 8, "value"); }
    else { int e[] = {2, 1, 0}; expect_from(e, 3); }
    vp_reach("plain");
    nord = 0;
    { int k = 0; { lf::defer d{[&]() noexcept { ++k; }}; vp_assert(k == 0, "not yet"); } vp_assert(k == 1, "exactly once"); auto fn = [&]() noexcept { k += 10; }; { lf::defer<decltype(fn) &> d(fn); } vp_assert(k == 11, "referenced function"); }
    vp_reach("end");
    return;
  }
  fj::start(NW, STEALS, PRE);
  {
    int how = vp_choice(4); bool threw = false; int r = 0;
    auto f = fj::exec(0, child, how, 1);
    try { r = f.get(); } catch (Boom const &) { threw = true; vp_reach("task by exception"); }
    vp_assert(threw == (how == 2) && (threw || r == (how == 1 ? 7 : 9)), "outcome of the task");
    int e[] = {2, 1, 0}; expect_from(e, 3);
  }
  fj::reach_steals();
  fj::stop();
  vp_assert(vp_live() == live, "all memory is returned");
  vp_reach("end");
}
