#include "algs.h"
#ifndef INPLACE
#define INPLACE 0
#endif
// The value is computed from the element before other workers get to run, and stored by map afterwards.
static uint32_t in[NMAX + 2], out_[NMAX + 2], orig[NMAX + 2], orig_out[NMAX + 2]; static int count[NMAX + 2];
static int idx_of(uint32_t const *p) { int i = (int)(p - in) - 1; vp_assert(i >= 0 && i < len, "applied to an element of the range"); return i; }
static uint32_t f_of(uint32_t v) { return v * 3u + 7u; }
static uint32_t g_of(uint32_t v) { return v ^ 0x5a5au; }
struct Pr { int i; uint32_t v; };
#if PROJ == 1
inline constexpr auto proj = [](uint32_t &x) -> Pr { int i = idx_of(&x); fj::point(); return Pr{i, g_of(x)}; };
#elif PROJ == 2
inline constexpr auto proj = [](auto, uint32_t &x) -> lf::task<Pr> { int i = idx_of(&x); fj::point(); co_return Pr{i, g_of(x)}; };
#endif
static uint32_t apply(int i, uint32_t v) { ++count[i]; uint32_t r = f_of(v); enter(i); return r; }
#if PROJ
#define P , FN(proj)
#if ASYNC
inline constexpr auto fun = [](auto, Pr p) -> lf::task<uint32_t> { co_return apply(p.i, p.v); };
#else
inline constexpr auto fun = [](Pr p) -> uint32_t { return apply(p.i, p.v); };
#endif
static uint32_t spec(uint32_t v) { return f_of(g_of(v)); }
#else
#define P
#if ASYNC
inline constexpr auto fun = [](auto, uint32_t &x) -> lf::task<uint32_t> { int i = idx_of(&x); co_return apply(i, x); };
#else
inline constexpr auto fun = [](uint32_t &x) -> uint32_t { int i = idx_of(&x); return apply(i, x); };
#endif
static uint32_t spec(uint32_t v) { return f_of(v); }
#endif
extern "C" void vp_main() {
  auto live = vp_live();
  fj::start(NW, STEALS, PRE);
  setup();
  for (int i = 0; i < NMAX + 2; ++i) { orig[i] = in[i] = (uint32_t)vp_sym(32, "x"); orig_out[i] = out_[i] = (uint32_t)vp_sym(32, "o"); }
  uint32_t *b = in + 1, *o = INPLACE ? b : out_ + 1;
  if (INPLACE) for (int i = 0; i < NMAX + 2; ++i) orig_out[i] = orig[i];
  VP_TRY {
#if FORM == 0
    auto f = fj::exec(0, lf::map, b, Sent<uint32_t>{b + len}, o, chunk, FN(fun) P);
#elif FORM == 1
    auto f = fj::exec(0, lf::map, b, b + len, o, FN(fun) P);
#elif FORM == 2
    auto f = fj::exec(0, lf::map, std::span<uint32_t>(b, len), o, chunk, FN(fun) P);
#else
    auto f = fj::exec(0, lf::map, std::span<uint32_t>(b, len), o, FN(fun) P);
#endif
    vp_assert(started == finished, "all started applications are finished");
    check_outcome(f);
  } VP_OUTER
  for (int i = -1; i <= NMAX; ++i) {
    bool inside = i >= 0 && i < len;
    if (inside) { if (thrown) vp_assert(count[i] <= 1, "function applied at most once"); else vp_assert(count[i] == 1, "function applied exactly once to every element"); }
    if (inside && !thrown) vp_assert(o[i] == spec(orig[i + 1]), "output position holds f(element)");
    if (inside && thrown) vp_assert((o[i] == spec(orig[i + 1])) | (o[i] == orig_out[i + 1]), "output position holds f(element) or is untouched");
    if (!inside) vp_assert(o[i] == orig_out[i + 1], "positions outside the output are untouched");
    if (!INPLACE) vp_assert(b[i] == orig[i + 1], "input is untouched");
  }
  if (len == NMAX) vp_reach("full length");
  if (len == 0) vp_reach("empty");
  fj::reach_steals();
  fj::stop();
  vp_assert(vp_live() == live, "all memory is returned");
  vp_reach("end");
}
