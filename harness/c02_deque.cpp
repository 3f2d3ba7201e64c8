// C02: sequential histories of the work-stealing deque against an abstract double-ended queue.
#include "vp.h"
#include "libfork/core.hpp"
#include <cstring>
#ifndef OPS
#define OPS 6
#endif
#ifndef CAP
#define CAP 1
#endif
#ifndef KIND
#define KIND 0
#endif
#ifndef OOM
#define OOM 0
#endif
#ifndef PREFIX
#define PREFIX 2
#endif
struct Pair { uint32_t a, b; };
#if KIND == 0
using T = uint64_t; static T mk(uint64_t v) { return v; } static uint64_t un(T t) { return t; }
#elif KIND == 1
using T = int *; static T mk(uint64_t v) { return (int *)v; } static uint64_t un(T t) { return (uint64_t)t; }
#elif KIND == 2
using T = uint8_t; static T mk(uint64_t v) { return (uint8_t)v; } static uint64_t un(T t) { return t; }
#else
using T = Pair; static T mk(uint64_t v) { return {(uint32_t)v, (uint32_t)(v >> 32)}; } static uint64_t un(T t) { return t.a | (uint64_t)t.b << 32; }
#endif
#ifndef MANY
static uint64_t q[64];
#else
static uint64_t q[MANY + 64];
#endif
static int lo = 0, hi = 0; static long grown = 0;
struct Missing { operator T() const { return mk(0); } };
static void check(lf::deque<T> &d, long cap0) {
  vp_assert(d.size() == (size_t)(hi - lo), "size() is the number of items");
  vp_assert(d.ssize() == hi - lo, "ssize() is the number of items");
  vp_assert(d.empty() == (hi == lo), "empty() is right");
  vp_assert(d.capacity() >= hi - lo && d.capacity() >= cap0, "capacity() is at least the number of items and what was asked for");
  vp_assert((d.capacity() & (d.capacity() - 1)) == 0, "capacity is a power of two");
  if (d.capacity() > cap0) grown = d.capacity();
}
extern "C" void vp_main() {
  auto live = vp_live();
  {
    long cap = CAP;
#if CAP == 0
    cap = 1l << vp_choice(3);
#endif
    if (OOM) vp_oom(OOM);
    using D = std::optional<lf::deque<T>>; alignas(D) static char raw[sizeof(D)]; // zeros, so that padding can be looked at
    D &dd = *new (raw) D;
    try { dd.emplace(cap); } catch (std::bad_alloc const &) {}
    if (!dd) { vp_reach("construction failed"); vp_oom(0); vp_assert(vp_live() == live, "a failed construction leaves nothing"); vp_end(); }
    lf::deque<T> &d = *dd;
    check(d, cap);
#ifdef FAR
    { // any number of earlier operations: the two counters of the deque are the words that one push and one steal advance by one
      uint64_t w0[sizeof(d) / 8], w1[sizeof(d) / 8]; int n = 0, at[sizeof(d) / 8];
      std::memcpy(w0, (void *)&d, sizeof(d) / 8 * 8);
      d.push(mk(1)); vp_assert((bool)d.steal(), "stolen");
      std::memcpy(w1, (void *)&d, sizeof(d) / 8 * 8);
      for (unsigned i = 0; i < sizeof(d) / 8; ++i) if (w1[i] == w0[i] + 1) at[n++] = (int)i;
      if (n == 2 && w1[at[0]] == w1[at[1]]) {
        uint64_t start = vp_sym(64, "start"); vp_assume(start < (1ull << 62));
        for (int i = 0; i < 2; ++i) std::memcpy((char *)(void *)&d + 8 * at[i], &start, 8);
        vp_reach("any position");
      }
    }
#endif
#ifdef MANY
    for (int i = 0, sh = vp_choice(4); i < MANY; ++i) { // many items, steals now and then
      uint64_t v = (uint64_t)i * 0x9e3779b97f4a7c15u + 1; d.push(mk(v)); q[hi++] = v; check(d, cap);
      if (i % 7 == sh) { auto r = d.steal(); vp_assert(r && un(*r) == un(mk(q[lo])), "steal returns the oldest item"); ++lo; check(d, cap); }
    }
    for (int i = 0; i < MANY / 3; ++i) { auto r = d.pop(); --hi; vp_assert(r && un(*r) == un(mk(q[hi])), "pop returns the most recently pushed item"); }
#endif
    int pre = vp_choice(PREFIX + 1); // move the window inside the buffer
    for (int i = 0; i < pre; ++i) { try { d.push(mk(0)); } catch (std::bad_alloc const &) { vp_end(); } if (vp_choice(2)) { vp_assert((bool)d.steal(), "stolen"); } else { vp_assert(d.pop().has_value(), "popped"); } }
    for (int i = 0; i < OPS; ++i) {
      int op = vp_choice(3);
      if (op == 0) {
        uint64_t v = (uint64_t)vp_sym(8 * sizeof(T), "v"); long c0 = d.capacity();
        bool ok = true;
        try { d.push(mk(v)); } catch (std::bad_alloc const &) { ok = false; vp_reach("out of memory"); }
        if (ok) q[hi++] = v; else vp_assert(d.capacity() == c0, "a failed push changes nothing");
      } else if (op == 1) {
        if (VP_BOOL("default")) {
          auto r = d.pop();
          vp_assert(r.has_value() == (hi > lo), "pop reports emptiness exactly when nothing is left");
          if (r) { --hi; vp_assert(un(*r) == q[hi], "pop returns the most recently pushed item"); vp_reach("popped"); } else vp_reach("pop on empty");
        } else {
          bool called = false;
          T r = d.pop([&]() noexcept -> T { called = true; return mk(0); });
          vp_assert(called == (hi == lo), "when_empty is called exactly when nothing is left");
          if (!called) { --hi; vp_assert(un(r) == q[hi], "pop returns the most recently pushed item"); }
        }
      } else {
        auto r = d.steal();
        if (hi == lo) { vp_assert(!r && r.code == lf::err::empty, "steal reports empty"); vp_reach("steal on empty"); }
        else { vp_assert(r && r.code == lf::err::none, "an uncontended steal succeeds"); vp_assert(un(*r) == q[lo], "steal returns the oldest item"); ++lo; vp_reach("stolen"); }
      }
      check(d, cap);
    }
    // whatever is left comes out in order
    if (vp_choice(2)) while (lo < hi) { auto r = d.steal(); vp_assert(r && un(*r) == q[lo], "remaining items, oldest first"); ++lo; }
    else while (lo < hi) { auto r = d.pop(); --hi; vp_assert(r && un(*r) == q[hi], "remaining items, newest first"); }
    vp_assert(d.empty(), "empty at the end");
    if (grown) vp_reach("grown");
    if (grown >= 4 * cap) vp_reach("grown twice");
    vp_reach("end");
    dd.reset();
  }
  vp_assert(vp_live() == live, "all memory is released");
}
