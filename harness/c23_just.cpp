// C23: just and lift: plain functions and task functions are interchangeable.
#include "fj.h"
#include <memory>
#include "libfork/algorithm/lift.hpp"
#ifndef KIND
#define KIND 0
#endif
#ifndef NW
#define NW 2
#endif
#ifndef STEALS
#define STEALS 2
#endif
#ifndef PRE
#define PRE 4
#endif
struct Boom { uint32_t v; };
static int objs = 0, copies = 0;
struct Obj {
  Obj *me; uint32_t v;
  explicit Obj(uint32_t x) : me(this), v(x) { ++objs; }
  Obj(Obj &&o) noexcept : me(this), v(o.v) { vp_assert(o.me == &o, "moved from a live object"); o.v = 0xdead; ++objs; }
  Obj(Obj const &o) : me(this), v(o.v) { ++copies; ++objs; }
  Obj &operator=(Obj &&o) noexcept { v = o.v; o.v = 0xdead; return *this; }
  ~Obj() { vp_assert(me == this, "destroyed object is alive"); me = nullptr; --objs; }
};
static int calls = 0; static uint32_t cell = 0;
#if KIND == 0
using R = uint32_t; static R make(uint32_t v) { return v; } template <class X> static uint32_t un(X &&r) { static_assert(std::is_same_v<std::remove_reference_t<X>, R>); return r; }
#elif KIND == 1
using R = void; static void make(uint32_t v) { cell = v; }
#elif KIND == 2
using R = Obj; static R make(uint32_t v) { return Obj(v); } template <class X> static uint32_t un(X &&r) { return r.v; }
#elif KIND == 3
using R = uint32_t &; static R make(uint32_t v) { cell = v; return cell; } static uint32_t un(uint32_t &r) { vp_assert(&r == &cell, "the very object referred to"); return r; }
#else
using R = std::unique_ptr<Obj>; static R make(uint32_t v) { return std::make_unique<Obj>(v); } template <class X> static uint32_t un(X &&r) { R q = std::move(r); return q->v; }
#endif
// f(a, b, c): by value, by reference, move-only
static bool boom = false; static uint32_t bv = 0;
static R plain(uint32_t a, Obj &b, std::unique_ptr<Obj> c) { ++calls; uint32_t r = a + 3 * b.v + 7 * c->v; b.v = a; if (boom) throw Boom{bv}; return make(r); }
inline constexpr auto tsk = [](auto, uint32_t a, Obj &b, std::unique_ptr<Obj> c) -> lf::task<R> {
  ++calls; fj::point();
  uint32_t r = a + 3 * b.v + 7 * c->v; b.v = a;
  if (boom) throw Boom{bv};
  co_return make(r);
};
// a task function which itself awaits a forked task, so that it may end on another worker
static uint32_t sink = 0;
inline constexpr auto leaf = [](auto, uint32_t *p) -> lf::task<void> { fj::point(); ++*p; co_return; };
inline constexpr auto deep = [](auto, uint32_t a, Obj &b, std::unique_ptr<Obj> c) -> lf::task<R> {
  ++calls; uint32_t n = 0;
  co_await lf::fork VP_BIND(leaf)(&n); fj::point(); co_await lf::fork VP_BIND(leaf)(&sink);
  co_await lf::join;
  vp_assert(n == 1, "forked work of the awaited task is finished");
  uint32_t r = a + 3 * b.v + 7 * c->v; b.v = a;
  if (boom) throw Boom{bv};
  co_return make(r);
};
struct Mem { uint32_t k; uint32_t get(uint32_t x) const { return k + x; } };
static uint32_t sq(uint32_t a) { return a * a; }
static auto const lofted = LF_LOFT(sq); // (g++ gives two generic lambdas in one coroutine the same name)
inline constexpr auto root = [](auto) -> lf::task<uint32_t> {
  uint32_t a = (uint32_t)vp_sym(32, "a"), bb = (uint32_t)vp_sym(32, "b"), cc = (uint32_t)vp_sym(32, "c");
  boom = VP_BOOL("throw"); bv = (uint32_t)vp_sym(32, "thrown");
  Obj b(bb); uint32_t want = a + 3 * bb + 7 * cc, got = 0, n = 0; bool threw = false; uint32_t tv = 0;
  bool sib = VP_BOOL("sibling");
  if (sib) { co_await lf::fork VP_BIND(leaf)(&n); fj::point(); }
  int how = vp_choice(7);
  try {
#if KIND == 1
#define TAKE(x) { x; got = cell; }
#else
#define TAKE(x) { got = un(x); }
#endif
    if (how == 0) TAKE(co_await lf::just VP_BIND(plain)(a, b, std::make_unique<Obj>(cc)))
    else if (how == 1) TAKE(co_await lf::just VP_BIND(tsk)(a, b, std::make_unique<Obj>(cc)))
    else if (how == 2) TAKE(co_await lf::just VP_BIND(deep)(a, b, std::make_unique<Obj>(cc)))
    else if (how == 3) { auto lam = [](uint32_t x, Obj &y, std::unique_ptr<Obj> z) -> R { return plain(x, y, std::move(z)); }; TAKE(co_await lf::just VP_BIND(std::move(lam))(a, b, std::make_unique<Obj>(cc))) }
    else if (how == 4) { // lifted and called
      auto c = std::make_unique<Obj>(cc);
#if KIND == 1
      co_await lf::call VP_BIND(lf::lift)(plain, a, b, std::move(c)); got = cell;
#else
      lf::try_eventually<R> ev; co_await lf::call VP_BIND(&ev, lf::lift)(plain, a, b, std::move(c));
      if (ev.has_exception()) std::rethrow_exception(std::move(ev).exception());
      got = un(*std::move(ev));
#endif
    } else if (how == 5) { // awaiting a lifted function
      auto c = std::make_unique<Obj>(cc);
      TAKE(co_await lf::just VP_BIND(lf::lift)(plain, a, b, std::move(c)))
    } else { // other callables
      calls = 1; boom = false; b.v = a;
      Mem m{bb};
      vp_assert(co_await lf::just VP_BIND(&Mem::get)(m, cc) == bb + cc, "member function");
      vp_assert(co_await lf::just VP_BIND(&Mem::k)(m) == bb, "data member");
      vp_assert(co_await lf::just VP_BIND(([&](uint32_t x) { return x + bb; }))(a) == a + bb, "capturing function");
      vp_assert(co_await lf::just VP_BIND(lofted)(a) == a * a, "lofted name");
      vp_assert(co_await lf::just VP_BIND((LF_CLOFT(m.get, m)))(a) == a + bb, "lofted expression with captures");
      uint32_t &rr = co_await lf::just VP_BIND(([](uint32_t &x) -> uint32_t & { return x; }))(cell); vp_assert(&rr == &cell, "reference result of a plain function");
      got = want;
    }
  } catch (Boom const &e) { threw = true; tv = e.v; vp_reach("exception"); }
#if KIND == 1
  if (how == 4 && boom) { bool j = false; try { co_await lf::join; } catch (Boom const &e) { j = true; tv = e.v; } threw = j; }
#endif
  co_await lf::join;
  vp_assert(calls == 1, "the callable is called exactly once");
  vp_assert(b.v == a, "reference arguments refer to the caller's object");
  vp_assert(threw == boom && (!boom || tv == bv), "an exception of the callable reaches the caller, no other does");
  if (!boom) { vp_assert(got == want, "the result is that of the callable"); vp_reach("value"); }
  vp_assert(!sib || n == 1, "sibling finished");
  vp_assert(copies == 0, "nothing is copied");
  co_return 1;
};
extern "C" void vp_main() {
  auto live = vp_live();
  fj::start(NW, STEALS, PRE);
  { auto f = fj::exec(0, root); vp_assert(f.get() == 1, "root finished"); }
  vp_assert(objs == 0, "all arguments and results are destroyed");
  fj::reach_steals();
  fj::stop();
  vp_assert(vp_live() == live, "all memory is returned");
  vp_reach("end");
}
