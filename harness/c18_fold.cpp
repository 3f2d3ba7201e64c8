#include "algs.h"
static uint8_t in[NMAX + 2]; static Str instr[NMAX + 2]; static int used[NMAX + 2]; static int nops = 0;
static int idx_of(void const *p) { int i = PROJ ? (int)((uint8_t const *)p - in) - 1 : (int)((Str const *)p - instr) - 1; vp_assert(i >= 0 && i < len, "element of the range"); return i; }
#if PROJ == 1
inline constexpr auto proj = [](uint8_t &x) -> Str { int i = idx_of(&x); ++used[i]; fj::point(); return Str{x, 1}; };
#define P , FN(proj)
using El = uint8_t;
#elif PROJ == 2
inline constexpr auto proj = [](auto, uint8_t &x) -> lf::task<Str> { int i = idx_of(&x); ++used[i]; fj::point(); co_return Str{x, 1}; };
#define P , FN(proj)
using El = uint8_t;
#else
#define P
using El = Str;
#endif
static Str op(Str a, Str b) { vp_assert(a.n > 0 && b.n > 0, "operands are results"); Str r = cat(a, b); enter(nops++); return r; }
#if ASYNC
inline constexpr auto bop = [](auto, Str a, Str b) -> lf::task<Str> { co_return op(a, b); };
#else
inline constexpr auto bop = [](Str a, Str b) -> Str { return op(a, b); };
#endif
extern "C" void vp_main() {
  auto live = vp_live();
  fj::start(NW, STEALS, PRE);
  setup();
  for (int i = 0; i < NMAX + 2; ++i) { in[i] = (uint8_t)vp_sym(8, "x"); instr[i] = Str{in[i], 1}; }
  El *b = (PROJ ? (El *)(void *)in : (El *)(void *)instr) + 1;
  Str expect; for (int i = 0; i < len; ++i) expect = cat(expect, Str{in[i + 1], 1});
  VP_TRY {
#if FORM == 0
    auto f = fj::exec(0, lf::fold, b, b + len, chunk, FN(bop) P);
#elif FORM == 1
    auto f = fj::exec(0, lf::fold, b, b + len, FN(bop) P);
#elif FORM == 2
    auto f = fj::exec(0, lf::fold, std::span<El>(b, len), chunk, FN(bop) P);
#else
    auto f = fj::exec(0, lf::fold, std::span<El>(b, len), FN(bop) P);
#endif
    vp_assert(started == finished, "all started operations are finished");
    bool got = false;
    try {
      auto r = f.get();
      if (len == 0) vp_assert(!r.has_value(), "no value for an empty range");
      else vp_assert(r.has_value() && *r == expect, "result is the left-to-right fold");
    } catch (Err const &e) { got = true; vp_assert(thrown >> e.idx & 1, "the exception delivered is one that was thrown"); vp_reach("exception"); }
    vp_assert(got == (thrown != 0), "an exception is delivered exactly if one was thrown");
  } VP_OUTER
  if (!thrown) { vp_assert(nops == (len ? len - 1 : 0), "number of operations"); if (PROJ) for (int i = 0; i < len; ++i) vp_assert(used[i] == 1, "each element used once"); }
  for (int i = 0; i < NMAX + 2; ++i) vp_assert(PROJ || instr[i] == Str{in[i], 1}, "input unchanged");
  if (len == NMAX) vp_reach("full length");
  if (len == 0) vp_reach("empty");
  fj::reach_steals();
  fj::stop();
  vp_assert(vp_live() == live, "all memory is returned");
  vp_reach("end");
}
