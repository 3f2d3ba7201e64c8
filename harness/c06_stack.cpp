// C06: a worker's task stack under a symbolic history of allocations, deallocations and hand-overs.
#include "vp.h"
#include "libfork/core.hpp"
#include <optional>
#ifndef OPS
#define OPS 5
#endif
#ifndef BITS
#define BITS 14
#endif
#ifndef HAND
#define HAND 0 // 1: with release / adopt / move / swap
#endif
#ifndef OOM
#define OOM 0
#endif
#ifndef CLASSES
#define CLASSES 0
#endif
#ifndef HUGE_
#define HUGE_ 0
#endif
#ifndef TOUCH
#define TOUCH 0
#endif
using lf::impl::stack;
struct Blk { char *p; size_t n; };
static Blk blk[OPS + 1]; static int nb = 0;
static void check_new(Blk b) {
  vp_assert((uintptr_t)b.p % __STDCPP_DEFAULT_NEW_ALIGNMENT__ == 0, "block is aligned");
  vp_assert(vp_valid(b.p, b.n), "block lies inside memory owned by the stack");
}
static void check_disjoint(int i) {
  for (int j = 0; j < nb; ++j) if (j != i) vp_assert((blk[j].p + blk[j].n <= blk[i].p) | (blk[i].p + blk[i].n <= blk[j].p), "live blocks are disjoint");
}
extern "C" void vp_main() {
  auto live = vp_live(); auto bytes0 = vp_heap_bytes();
  {
    stack s; uint64_t initial = vp_heap_bytes() - bytes0;
    vp_assert(s.empty(), "a new stack is empty");
    if (OOM) vp_oom(OOM);
    int n = vp_choice(OPS + 1); int hist = 0;
    for (int i = 0; i < n; ++i) {
      int op = vp_choice(HAND ? 5 : 2);
      if (op == 0) {
#if CLASSES
        static constexpr size_t cls[] = {8, 2000, 4000, 9000, 70000};
        size_t size = cls[vp_choice(5)];
#elif HUGE_
        size_t size = (size_t)vp_sym(63, "size"); vp_assume((size > 0) & ((size < 3000) | (size > (1ull << 40))));
#else
        size_t size = (size_t)vp_sym(BITS, "size"); vp_assume(size > 0);
#endif
        try {
          char *p = (char *)s.allocate(size);
          blk[nb] = {p, size}; check_new(blk[nb]); check_disjoint(nb); ++nb;
#if TOUCH
          for (size_t k = 0; k < size; k += 1 + (size - 1) / 2) p[k] = (char)nb;
#endif
        } catch (std::bad_alloc const &) { vp_reach("out of memory"); }
      } else if (op == 1) {
        if (nb == 0) vp_end();
        --nb;
#if TOUCH
        for (size_t k = 0; k < blk[nb].n; k += 1 + (blk[nb].n - 1) / 2) vp_assert(blk[nb].p[k] == (char)(nb + 1), "contents preserved");
#endif
        vp_assert(vp_valid(blk[nb].p, blk[nb].n), "block is still owned");
        s.deallocate(blk[nb].p);
      } else if (op == 2) { // hand the stack over to another owner and continue there
        try {
          auto *t = s.release();
          vp_assert(s.empty(), "the stack left behind is empty");
          if (VP_BOOL("used")) { void *q = s.allocate(100); s.deallocate(q); vp_assert(s.empty(), "empty again"); }
          { stack other{t}; vp_assert(other.empty() == (nb == 0), "the handed over stack keeps its blocks"); swap(s, other); vp_assert(other.empty(), "swapped"); }
          vp_reach("handed over");
        } catch (std::bad_alloc const &) { vp_reach("out of memory"); }
      } else if (op == 3) {
        try { stack t; swap(s, t); vp_assert(s.empty(), "swapped"); s = std::move(t); vp_reach("swapped"); } catch (std::bad_alloc const &) { vp_reach("out of memory"); }
      } else {
        try { stack t{std::move(s)}; vp_assert(s.empty(), "moved-from stack is empty"); vp_assert(t.empty() == (nb == 0), "move keeps the blocks"); s = std::move(t); vp_reach("moved"); } catch (std::bad_alloc const &) { vp_reach("out of memory"); }
      }
      vp_assert(s.empty() == (nb == 0), "empty exactly when nothing is allocated");
      vp_assert(s.top() != nullptr, "has a top");
      vp_assert(vp_live() - live <= nb + 2, "at most one segment is cached");
      if (nb == 0) { vp_assert(vp_heap_bytes() - bytes0 <= 2 * 9 * (initial + 64), "bounded amount of cached memory"); }
      for (int j = 0; j < nb; ++j) vp_assert(vp_valid(blk[j].p, blk[j].n), "live block is still owned");
    }
    while (nb > 0) { --nb; s.deallocate(blk[nb].p); }
    vp_assert(s.empty(), "empty at the end");
    if (vp_live() - live > 1) vp_reach("segment cached");
    vp_reach("end");
  }
  vp_assert(vp_live() == live, "all memory is returned");
}
