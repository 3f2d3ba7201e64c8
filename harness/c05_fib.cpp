// C05/C07: a recursive fork/call/join program equals its serial value under every steal pattern.
#include "fj.h"
static int bodies = 0;
static int serial(int n) { return n < 2 ? n : serial(n - 1) + serial(n - 2); }
inline constexpr auto fib = [](auto fib, int n) -> lf::task<int> {
  ++bodies;
  fj::point();
  if (n < 2) co_return n;
  int a, b;
  co_await lf::fork VP_BIND(&a, fib)(n - 1);
  fj::point();
  co_await lf::call VP_BIND(&b, fib)(n - 2);
  co_await lf::join;
  vp_assert(a == serial(n - 1) && b == serial(n - 2), "children results available after the join");
  fj::point();
  co_return a + b;
};
#ifndef NMAX
#define NMAX 3
#endif
#ifndef NW
#define NW 2
#endif
#ifndef STEALS
#define STEALS 3
#endif
#ifndef PRE
#define PRE 4
#endif
extern "C" void vp_main() {
  auto live = vp_live();
  fj::start(NW, STEALS, PRE);
  int n = (int)vp_sym(4, "n"); vp_assume(n <= NMAX);
  {
    auto f = lf::schedule(fj::sched_to{0}, fib, n);
    fj::run();
    vp_assert(fj::quiescent(), "all workers idle when no work is left");
    int r = f.get();
    vp_assert(r == serial(n), "parallel result equals serial result");
  }
  int expect[] = {1, 1, 3, 5, 9};
  vp_assert(bodies == expect[n], "every task body runs exactly once");
  if (fj::steals_done == 1) vp_reach("one steal");
  if (fj::steals_done >= 2) vp_reach("two steals");
  fj::stop();
  vp_assert(vp_live() == live, "all memory returned");
  vp_reach("end");
}
