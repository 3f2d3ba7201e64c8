// Common parts of the algorithm harnesses.
#pragma once
#include "fj.h"
#include "libfork/algorithm/fold.hpp"
#include "libfork/algorithm/for_each.hpp"
#include "libfork/algorithm/lift.hpp"
#include "libfork/algorithm/map.hpp"
#include "libfork/algorithm/scan.hpp"
#include <span>
#ifndef NW
#define NW 2
#endif
#ifndef STEALS
#define STEALS 2
#endif
#ifndef PRE
#define PRE 3
#endif
#ifndef NMAX
#define NMAX 4
#endif
#ifndef ASYNC
#define ASYNC 0 // operation is a plain function (0) or a task function (1)
#endif
#ifndef PROJ
#define PROJ 0 // 0: none, 1: plain, 2: task
#endif
#ifndef FORM
#define FORM 0 // 0: iterators+chunk, 1: iterators, 2: range+chunk, 3: range
#endif
#ifndef THROW
#define THROW 0
#endif
struct Err { int idx; };
inline int started = 0, finished = 0; inline uint32_t throwers = 0, thrown = 0;
inline void enter(int idx) {
  ++started;
  fj::point();
  ++finished;
  if (THROW && (throwers >> idx & 1)) { thrown |= 1u << idx; throw Err{idx}; }
}
// COPYTHROW: the function objects count as resources: the fail_at-th copy of one of them throws, and a moved-from one must not be called.
#ifndef COPYTHROW
#define COPYTHROW 0
#endif
inline uint32_t copies = 0, fail_at = ~0u;
#ifdef __clang__
#define VP_CORO_WRAPPER [[clang::coro_wrapper]]
#else
#define VP_CORO_WRAPPER
#endif
template <class F> struct Faulty {
  F f; bool live = true;
  constexpr explicit Faulty(F g) : f(g) {}
  Faulty(Faulty const &o) : f(o.f), live(o.live) { vp_assert(o.live, "a moved-from function object is copied"); if (copies++ == fail_at) { thrown |= 1u << 31; throw Err{31}; } }
  Faulty(Faulty &&o) noexcept : f(o.f), live(o.live) { o.live = false; }
  Faulty &operator=(Faulty const &) = default;
  template <class... X> VP_CORO_WRAPPER auto operator()(X &&...x) const -> std::invoke_result_t<F const &, X...> { vp_assert(live, "a moved-from function object is called"); return f(static_cast<X &&>(x)...); }
};
#if COPYTHROW
#define FN(x) Faulty{x}
#else
#define FN(x) x
#endif
// The length, the chunk size and the throwing positions.
inline int len = 0, chunk = 1;
inline void setup() {
  len = (int)vp_sym(4, "len"); vp_assume(len <= NMAX);
  if (FORM == 0 || FORM == 2) { chunk = 1 + vp_choice(NMAX + 1); }
  if (COPYTHROW) { fail_at = (uint32_t)vp_sym(COPYTHROW, "copy that fails"); }
  if (THROW) { throwers = (uint32_t)vp_sym(NMAX, "throwers"); }
}
// A sentinel of a type different from the iterator.
template <class T> struct Sent { T *e; friend bool operator==(T *i, Sent s) { return i == s.e; } friend std::ptrdiff_t operator-(T *i, Sent s) { return i - s.e; } friend std::ptrdiff_t operator-(Sent s, T *i) { return s.e - i; } };
// A free monoid: concatenation of 8-bit letters.
struct Str {
  uint64_t bits = 0; uint8_t n = 0;
  bool operator==(Str const &o) const { return (bits == o.bits) & (n == o.n); }
};
inline Str cat(Str a, Str b) { return {b.n >= 8 ? b.bits : (a.bits << (8 * b.n)) | b.bits, (uint8_t)(a.n + b.n)}; }
template <class F> inline void check_outcome(F &fu) {
  bool got = false;
  try { fu.get(); } catch (Err const &e) { got = true; vp_assert(thrown >> e.idx & 1, "the exception delivered is one that was thrown"); vp_reach("exception"); }
  vp_assert(got == (thrown != 0), "an exception is delivered exactly if one was thrown");
}
// The submission itself may fail when a function object is copied into it.
#if COPYTHROW
#define VP_TRY try
#define VP_OUTER catch (Err const &e) { vp_assert(e.idx == 31 && thrown == 1u << 31, "only a failing copy makes the submission fail"); fj::self = -1; vp_reach("submission failed"); }
#else
#define VP_TRY
#define VP_OUTER
#endif
