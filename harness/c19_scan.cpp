#include "algs.h"
#ifndef INPLACE
#define INPLACE 0
#endif
static Str in[NMAX + 2], out_[NMAX + 2], orig[NMAX + 2], orig_out[NMAX + 2]; static int nops = 0;
static int idx_of(void const *p) { int i = (int)((Str const *)p - in) - 1; vp_assert(i >= 0 && i < len, "element of the range"); return i; }
static Str op(Str a, Str b) { vp_assert(a.n > 0 && b.n > 0, "operands are defined"); Str r = cat(a, b); enter(nops++); return r; }
#if ASYNC
inline constexpr auto bop = [](auto, Str a, Str b) -> lf::task<Str> { co_return op(a, b); };
#else
inline constexpr auto bop = [](Str a, Str b) -> Str { return op(a, b); };
#endif
static Str g_of(Str x) { return Str{x.bits ^ 0x5a, x.n}; }
#if PROJ == 1
inline constexpr auto proj = [](Str &x) -> Str { idx_of(&x); fj::point(); return g_of(x); };
#define P , FN(proj)
#elif PROJ == 2
inline constexpr auto proj = [](auto, Str &x) -> lf::task<Str> { idx_of(&x); fj::point(); co_return g_of(x); };
#define P , FN(proj)
#else
#define P
#endif
static Str el(int i) { return PROJ ? g_of(orig[i + 1]) : orig[i + 1]; }
extern "C" void vp_main() {
  auto live = vp_live();
  fj::start(NW, STEALS, PRE);
  setup();
  for (int i = 0; i < NMAX + 2; ++i) { orig[i] = in[i] = Str{vp_sym(8, "x"), 1}; orig_out[i] = out_[i] = Str{vp_sym(8, "o"), 7}; }
  if (INPLACE) for (int i = 0; i < NMAX + 2; ++i) orig_out[i] = orig[i];
  Str *b = in + 1, *o = INPLACE ? b : out_ + 1;
#if INPLACE == 1
#define OUT
#else
#define OUT o,
#endif
  VP_TRY {
#if FORM == 0
    auto f = fj::exec(0, lf::scan, b, b + len, OUT chunk, FN(bop) P);
#elif FORM == 1
    auto f = fj::exec(0, lf::scan, b, b + len, OUT FN(bop) P);
#elif FORM == 2
    auto f = fj::exec(0, lf::scan, std::span<Str>(b, len), OUT chunk, FN(bop) P);
#else
    auto f = fj::exec(0, lf::scan, std::span<Str>(b, len), OUT FN(bop) P);
#endif
    vp_assert(started == finished, "all started operations are finished");
    check_outcome(f);
  } VP_OUTER
  Str acc;
  for (int i = 0; i < len; ++i) { acc = cat(acc, el(i)); if (!thrown) vp_assert(o[i] == acc, "output position holds the fold up to and including it"); }
  for (int i = -1; i <= NMAX; ++i) {
    if (i < 0 || i >= len) vp_assert(o[i] == orig_out[i + 1], "positions outside the output are untouched");
    if (!INPLACE) vp_assert(b[i] == orig[i + 1], "input is untouched");
  }
  if (len == NMAX) vp_reach("full length");
  if (len == 0) vp_reach("empty");
  fj::reach_steals();
  fj::stop();
  vp_assert(vp_live() == live, "all memory is returned");
  vp_reach("end");
}
