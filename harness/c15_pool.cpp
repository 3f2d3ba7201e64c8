// C14/C15: whole pools: construction, submission, fork-join work, waiting and destruction; every switch of threads at a
// synchronisation operation is a symbolic choice within the bound on preemptions, task arguments are symbolic.
#include "vp.h"
#include "libfork/core.hpp"
#include "libfork/schedule.hpp"
#include <optional>
#ifndef POOL
#define POOL 0 // 0: unit_pool 1: busy_pool 2: lazy_pool
#endif
#ifndef NW
#define NW 2
#endif
#ifndef PRE
#define PRE 1
#endif
// 0: one task, waited for; 1: two tasks; 2: detached task; 3: nothing submitted; 4: a second submission after the first
// finished (workers may be asleep); 5: the first child does not return before the rest of its parent ran;
// 6: the task moves to a chosen worker; 7: move construction and assignment of pools; 8: the task throws;
// 9: two threads submit; 10: as 5, and the stolen rest forks another child that blocks until its own rest ran (three workers);
// 11: a detached task that submits itself again
#ifndef MODE
#define MODE 0
#endif
#ifndef START // preemptions during construction
#ifdef NOSTART
#define START 0
#else
#define START PRE
#endif
#endif
#ifndef STOP // 0: explore up to the end of the wait only
#define STOP 1
#endif
#ifndef FORKS
#define FORKS 1
#endif
struct ThreadState { virtual ~ThreadState() = default; virtual void run() = 0; }; // laid out like std::thread::_State
extern "C" void vp_thread_trampoline(ThreadState *s) { s->run(); delete s; }
#if POOL == 0
using pool_t = lf::unit_pool;
#undef NW
#define NW 1
#define MAKE(p) pool_t p
#elif POOL == 1
using pool_t = lf::busy_pool;
#define MAKE(p) pool_t p(NW)
#else
using pool_t = lf::lazy_pool;
#define MAKE(p) pool_t p(NW)
#endif
static int runs[8], childruns[8];
struct Err { uint32_t v; };
inline constexpr auto leaf = [](auto, int i, uint32_t x) -> lf::task<uint32_t> { ++childruns[i]; if (MODE == 8) throw Err{x}; co_return x * 3u; };
static std::atomic<int> gate{0}, gate2{0};
inline constexpr auto blocker = [](auto, uint32_t x) -> lf::task<uint32_t> { gate.wait(0, std::memory_order_acquire); co_return x; };
inline constexpr auto blocker2 = [](auto, uint32_t x) -> lf::task<uint32_t> { gate2.wait(0, std::memory_order_acquire); co_return x; };
static lf::worker_context *dest = nullptr;
static pool_t *again = nullptr; // busy and lazy pools require that no more work is submitted once they are destroyed
inline constexpr auto root = [](auto self, int i, uint32_t x) -> lf::task<uint32_t> {
  ++runs[i];
  uint32_t r = 0;
#if MODE == 5
  co_await lf::fork(&r, blocker)(x);
  gate.store(1, std::memory_order_release); gate.notify_all();
  co_await lf::join;
  r = r * 3u;
#elif MODE == 10
  uint32_t q = 0;
  co_await lf::fork(&r, blocker)(x);
  co_await lf::fork(&q, blocker2)(x);
  gate2.store(1, std::memory_order_release); gate2.notify_all();
  gate.store(1, std::memory_order_release); gate.notify_all();
  co_await lf::join;
  r = r + q * 2u;
#else
#if MODE == 6
  co_await lf::resume_on(dest);
  vp_assert(self.context() == dest, "continues on the requested worker");
#elif MODE == 11
  co_await lf::resume_on(again);
#endif
#if FORKS
  co_await lf::fork(&r, leaf)(i, x);
#if FORKS > 1
  uint32_t q = 0;
  co_await lf::fork(&q, leaf)(i, x + 1u);
#endif
  co_await lf::join;
#if FORKS > 1
  vp_assert(q == (x + 1u) * 3u, "result of the second child");
#endif
#else
  r = x * 3u;
#endif
#endif
  co_return r + 1u;
};
static uint32_t spec(uint32_t x) { return x * 3u + 1u; }
struct to { // submits to a chosen worker of the pool
  pool_t *p; int k;
  void schedule(lf::submit_handle h) {
#if POOL == 0
    p->schedule(h);
#else
    if (k < 0) p->schedule(h); else p->contexts()[k]->schedule(h);
#endif
  }
};
static int pick() { return NW == 1 ? -1 : vp_choice(NW); }
extern "C" void vp_main() {
  auto live = vp_live();
  uint32_t x = (uint32_t)vp_sym(32, "x"), y = (uint32_t)vp_sym(32, "y");
  vp_auto(START);
  int want[3] = {0, 1, 0};
#if MODE == 7
  {
    MAKE(a);
    pool_t b(std::move(a));
    vp_assert(lf::sync_wait(b, root, 1, x) == spec(x), "result from a moved pool");
    want[2] = 1;
    MAKE(c);
    c = std::move(b);
    vp_assert(lf::sync_wait(to{&c, pick()}, root, 2, y) == spec(y), "result from an assigned pool");
    vp_reach("waited");
  }
#else
  {
    MAKE(pool);
#if defined(NOSTART)
    vp_auto(PRE);
#endif
#if MODE == 6 && POOL != 0
    dest = pool.contexts()[pick()];
    vp_assert(dest != nullptr, "a constructed pool has all its workers");
#endif
#if MODE == 0 || MODE == 5 || MODE == 6 || MODE == 10 || (MODE == 11 && POOL != 0)
    again = &pool;
    vp_assert(lf::sync_wait(to{&pool, pick()}, root, 1, x) == spec(x), "result of the task");
#elif MODE == 1
    int k = pick(); want[2] = 1;
    auto f = lf::schedule(to{&pool, k}, root, 1, x);
    auto g = lf::schedule(to{&pool, pick()}, root, 2, y);
    vp_assert(g.get() == spec(y), "result of the second task");
    vp_assert(f.get() == spec(x), "result of the first task");
#elif MODE == 2 || (MODE == 11 && POOL == 0)
    again = &pool;
    lf::detach(to{&pool, pick()}, root, 1, x);
#elif MODE == 3
    want[1] = 0;
#elif MODE == 4
    want[2] = 1;
    vp_assert(lf::sync_wait(to{&pool, pick()}, root, 1, x) == spec(x), "result of the first task");
    vp_assert(lf::sync_wait(to{&pool, pick()}, root, 2, y) == spec(y), "result of the second task");
#elif MODE == 8
    bool got = false;
    try { lf::sync_wait(to{&pool, pick()}, root, 1, x); } catch (Err const &e) { got = e.v == x; }
    vp_assert(got, "the exception of the task is delivered");
#elif MODE == 9
    want[2] = 1; bool ok = false; int k = pick();
    { std::thread t([&] { ok = lf::sync_wait(to{&pool, k}, root, 2, y) == spec(y); });
      vp_assert(lf::sync_wait(to{&pool, pick()}, root, 1, x) == spec(x), "result of the first task");
      t.join(); }
    vp_assert(ok, "result of the task from the other thread");
#endif
    vp_reach("waited");
#if !STOP
    vp_end();
#endif
  }
#endif
  for (int i = 1; i <= 2; ++i) {
    vp_assert(runs[i] == want[i], "every submitted task ran exactly once");
    vp_assert(childruns[i] == (MODE == 5 || MODE == 10 ? 0 : FORKS * want[i]), "every forked task ran exactly once");
  }
  vp_assert(vp_live() == live, "all memory is returned");
  vp_reach("end");
}
