#include "algs.h"
static int arr[NMAX + 2]; static int count[NMAX + 2]; static int seen[NMAX + 2];
static void apply(int *p) { int i = (int)(p - arr) - 1; vp_assert(i >= 0 && i < len, "applied to an element of the range"); ++count[i]; seen[i] = *p; enter(i); }
#if PROJ
static int *ptrs[NMAX + 2]; // the projection maps the element to its address
#if PROJ == 1
inline constexpr auto proj = [](int &x) -> int * { return &x; };
#else
inline constexpr auto proj = [](auto, int &x) -> lf::task<int *> { co_return &x; };
#endif
#if ASYNC
inline constexpr auto fun = [](auto, int *p) -> lf::task<> { apply(p); co_return; };
#else
inline constexpr auto fun = [](int *p) { apply(p); };
#endif
#define P , FN(proj)
#else
#define P
#if ASYNC
inline constexpr auto fun = [](auto, int &x) -> lf::task<> { apply(&x); co_return; };
#else
inline constexpr auto fun = [](int &x) { apply(&x); };
#endif
#endif
extern "C" void vp_main() {
  auto live = vp_live();
  fj::start(NW, STEALS, PRE);
  setup();
  for (int i = 0; i < NMAX + 2; ++i) arr[i] = (int)vp_sym(32, "x");
  int copy[NMAX + 2]; for (int i = 0; i < NMAX + 2; ++i) copy[i] = arr[i];
  VP_TRY {
    int *b = arr + 1;
    bool fin = false;
#if FORM == 0
    auto f = fj::exec(0, lf::for_each, b, Sent<int>{b + len}, chunk, FN(fun) P);
#elif FORM == 1
    auto f = fj::exec(0, lf::for_each, b, b + len, FN(fun) P);
#elif FORM == 2
    auto f = fj::exec(0, lf::for_each, std::span<int>(b, len), chunk, FN(fun) P);
#else
    auto f = fj::exec(0, lf::for_each, std::span<int>(b, len), FN(fun) P);
#endif
    vp_assert(started == finished, "all started applications are finished");
    check_outcome(f);
  } VP_OUTER
  for (int i = 0; i < NMAX + 2; ++i) vp_assert(arr[i] == copy[i], "elements not modified");
  for (int i = 0; i < len; ++i) {
    if (thrown) vp_assert(count[i] <= 1, "no element visited twice"); else vp_assert(count[i] == 1, "every element visited exactly once");
    if (count[i]) vp_assert(seen[i] == copy[i + 1], "element passed to the function");
  }
  if (len == NMAX) vp_reach("full length");
  if (len == 0) vp_reach("empty");
  fj::reach_steals();
  fj::stop();
  vp_assert(vp_live() == live, "all memory is returned");
  vp_reach("end");
}
