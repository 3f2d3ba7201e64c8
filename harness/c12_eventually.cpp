// C12: result holders. A symbolic sequence of operations on one holder, compared with an abstract state.
#include "vp.h"
#include "libfork/core.hpp"
#include <memory>
#ifndef KIND
#define KIND 0
#endif
#ifndef EXC
#define EXC 1
#endif
#ifndef OPS
#define OPS 4
#endif
struct Fail {};
struct Boom { int v; };
static int ctors = 0, dtors = 0;
// Tracks every object by address, so that double construction, double destruction and use of a dead object are seen.
struct Tracked {
  Tracked *me; uint32_t v;
  explicit Tracked(uint32_t x) : me(this), v(x) { ++ctors; }
  Tracked(uint32_t x, bool) = delete;
  struct May { uint32_t x; bool fail; };
  explicit Tracked(May m) : me(this), v(m.x) { if (m.fail) throw Fail{}; ++ctors; }
  Tracked(Tracked &&o) : me(this), v(o.v) { vp_assert(o.me == &o, "moved from a live object"); o.v = 0xdead; ++ctors; }
  Tracked(Tracked const &o) : me(this), v(o.v) { vp_assert(o.me == &o, "copied from a live object"); ++ctors; }
  Tracked &operator=(Tracked &&o) { vp_assert(o.me == &o && me == this, "assignment between live objects"); v = o.v; o.v = 0xdead; return *this; }
  ~Tracked() { vp_assert(me == this, "destroyed object is alive"); me = nullptr; ++dtors; }
};
struct Trivial { uint64_t a; uint32_t b; };
#if KIND == 0
using T = Tracked;
#elif KIND == 1
using T = uint32_t;
#elif KIND == 2
using T = Tracked &;
#elif KIND == 3
using T = void;
#elif KIND == 4
using T = std::unique_ptr<Tracked>;
#elif KIND == 5
using T = Tracked &&;
#elif KIND == 6
using T = Trivial;
#elif KIND == 7
using T = Tracked const &;
#endif
using H = lf::basic_eventually<T, EXC>;
static_assert(!std::is_copy_constructible_v<H> && !std::is_move_constructible_v<H>);
enum { EMPTY, VALUE, EXCEPTION };
static int st = EMPTY; static uint32_t val = 0;
static void check(H &h) {
  vp_assert(h.empty() == (st == EMPTY), "empty() is right");
#if KIND != 3
  vp_assert(h.has_value() == (st == VALUE), "has_value() is right");
#endif
#if EXC
  vp_assert(h.has_exception() == (st == EXCEPTION), "has_exception() is right");
#endif
}
extern "C" void vp_main() {
  auto live = vp_live();
  {
    Tracked obj{7};
    int outside = ctors - dtors; // objects not in the holder
    {
      H h;
      check(h);
      int n = vp_choice(OPS + 1);
      for (int i = 0; i < n; ++i) {
        int op = vp_choice(4);
        if (op == 0) { // store a value, only permitted on an empty holder
          if (st != EMPTY) vp_end();
          val = (uint32_t)vp_sym(32, "v");
#if KIND == 0
          bool fail = VP_BOOL("fail"); bool threw = false;
          try { h = Tracked::May{val, fail}; } catch (Fail) { threw = true; }
          vp_assert(threw == fail, "failure of the construction is reported");
          if (fail) vp_reach("failed construction"); else st = VALUE;
#elif KIND == 1
          h = val; st = VALUE;
#elif KIND == 2 || KIND == 7
          obj.v = val; h = obj; st = VALUE;
#elif KIND == 3
          vp_end();
#elif KIND == 4
          h = std::make_unique<Tracked>(val); st = VALUE;
#elif KIND == 5
          obj.v = val; h = std::move(obj); st = VALUE;
#elif KIND == 6
          h = Trivial{val, val ^ 1}; st = VALUE;
#endif
        } else if (op == 1) { // store the current exception
          if (st != EMPTY || !EXC) vp_end();
#if EXC
          val = (uint32_t)vp_sym(32, "e");
          try { throw Boom{(int)val}; } catch (...) { stash_exception(h); }
          st = EXCEPTION;
#endif
        } else if (op == 2) { // read
          if (st != VALUE) vp_end();
#if KIND == 0
          vp_assert((*h).v == val && h->v == val && std::as_const(h)->v == val && (*std::as_const(h)).v == val, "yields the value stored");
#elif KIND == 1
          vp_assert(*h == val && *std::as_const(h) == val, "yields the value stored");
          val = (uint32_t)vp_sym(32, "w"); *h = val;
#elif KIND == 2 || KIND == 7 || KIND == 5
          vp_assert(&*h == &obj && h.operator->() == &obj && h->v == val, "yields the object referred to");
#elif KIND == 4
          vp_assert(*h != nullptr && (*h)->v == val, "yields the value stored");
#elif KIND == 6
          vp_assert(h->a == val && h->b == (val ^ 1), "yields the value stored");
#endif
        } else { // take the content out: value or exception
          if (st == EMPTY) vp_end();
#if EXC
          if (st == EXCEPTION) {
            bool got = false;
            try { if (vp_choice(2)) std::rethrow_exception(h.exception()); else std::rethrow_exception(std::as_const(h).exception()); } catch (Boom const &b) { got = (uint32_t)b.v == val; }
            vp_assert(got, "rethrows exactly the stored exception"); vp_reach("exception");
          }
#endif
          if (st == VALUE) {
#if KIND == 0
            Tracked t = *std::move(h); vp_assert(t.v == val, "moves the value out"); vp_assert((*h).v == 0xdead, "moved from"); val = 0xdead;
#elif KIND == 4
            auto t = *std::move(h); vp_assert(t && t->v == val, "moves the value out"); vp_assert(!*h, "moved from"); *h = std::move(t);
#elif KIND == 2 || KIND == 7
            decltype(auto) r = *std::move(h); vp_assert(&r == &obj, "refers to the object");
            static_assert(std::is_same_v<decltype(*std::move(h)), T>);
#elif KIND == 5
            static_assert(std::is_same_v<decltype(*std::move(h)), Tracked &&>);
            Tracked &&r = *std::move(h); vp_assert(&r == &obj, "refers to the object");
#elif KIND != 3
            vp_assert(sizeof(*std::move(h)) > 0, "");
#endif
            vp_reach("value");
          }
        }
        check(h);
      }
      int inside = ctors - dtors - outside;
#if KIND == 0 || KIND == 4
      vp_assert(inside == (st == VALUE), "exactly the contained object exists");
#else
      vp_assert(inside == 0, "no objects created");
#endif
      if (st == EMPTY) vp_reach("left empty");
    }
    vp_assert(ctors - dtors == outside, "the contained object is destroyed exactly once");
  }
  vp_assert(ctors == dtors, "every object is destroyed");
  vp_assert(vp_live() == live, "all memory is returned");
  vp_reach("end");
}
