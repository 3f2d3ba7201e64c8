// Fork-join programs on real worker threads: every switch at an atomic operation of the runtime is a symbolic choice within
// the bound on preemptions (the coarse harnesses switch at task boundaries only). PROG selects the program.
#include "vp.h"
#include "libfork/core.hpp"
#include <thread>
#include <optional>
#include <atomic>
#ifndef NW
#define NW 2
#endif
#ifndef PRE
#define PRE 1
#endif
// 0: two forked children and a call; 1: a forked child that forks itself; 2: two consecutive scopes; 3: children and the
// parent throw; 4: arrays on the task's stack and deferred actions; 5: children move to another worker; 6: large frames;
// 7: loop of forks; 8: future operations; 9: for_each, 10: map, 11: fold, 12: scan, 13: for_each without chunks, 14: scan of tasks
#ifndef PROG
#define PROG 0
#endif
struct ThreadState { virtual ~ThreadState() = default; virtual void run() = 0; };
extern "C" void vp_thread_trampoline(ThreadState *s) { s->run(); delete s; }
static lf::worker_context *ctx[NW];
static std::atomic<int> ready{0}, stop{0};
static int done_[16];
static void worker(int i) {
  auto *me = lf::worker_init(lf::nullary_function_t{[] {}});
  ctx[i] = me;
  ready.fetch_add(1); ready.notify_all();
  for (int r; (r = ready.load()) < NW + 1;) ready.wait(r); // until everybody is there and the main thread submits
  while (!stop.load(std::memory_order_acquire)) {
    if (auto *s = me->try_pop_all()) { lf::resume(s); continue; }
#if NW > 1
    auto [e, t] = ctx[(i + 1) % NW]->try_steal();
    if (e == lf::err::none) lf::resume(t);
#endif
  }
  if (auto *s = me->try_pop_all()) lf::resume(s); // submitted and not waited for
  ready.fetch_add(1); ready.notify_all();
  for (int r; (r = ready.load()) < 2 * NW + 1;) ready.wait(r); // nobody is looked at any more
  lf::finalize(me);
}
struct sched { void schedule(lf::submit_handle h) { ctx[0]->schedule(h); } };
struct Err { uint32_t v; };
#if PROG >= 9
#include "libfork/algorithm/fold.hpp"
#include "libfork/algorithm/for_each.hpp"
#include "libfork/algorithm/map.hpp"
#include "libfork/algorithm/scan.hpp"
#ifndef LEN
#define LEN 3
#endif
struct Cat { uint32_t v; int n; }; // sequences of n bytes: an associative operation that is not commutative
static Cat cat(Cat const &a, Cat const &b) { return {(b.n < 4 ? a.v << (8 * b.n) : 0) | b.v, a.n + b.n}; }
static Cat in[LEN], out[LEN]; static int visits[LEN];
#endif
struct Tracked { // counts its constructions and destructions
  static inline int live = 0;
  uint32_t v; bool on = true;
  explicit Tracked(uint32_t x = 0) : v(x) { ++live; }
  Tracked(Tracked &&o) noexcept : v(o.v) { ++live; }
  Tracked &operator=(Tracked &&o) noexcept { v = o.v; return *this; }
  ~Tracked() { vp_assert(on, "destroyed once"); on = false; --live; }
};
inline constexpr auto leaf = [](auto, int i, uint32_t x) -> lf::task<uint32_t> {
#if PROG == 6
  volatile char pad[1500]; pad[0] = (char)i; pad[1499] = (char)x;
#endif
  ++done_[i];
#if PROG == 3
  if (x & 1u) throw Err{x};
#endif
#if PROG == 5
  co_await lf::resume_on(static_cast<lf::worker_context *>(ctx[NW - 1]));
#endif
#if PROG == 6
  vp_assert(pad[0] == (char)i, "frame contents"); x = (x & ~0xffu) | (uint32_t)(unsigned char)pad[1499];
#endif
  co_return x ^ 0x5a5aa5a5u;
};
inline constexpr auto mid = [](auto, int i, uint32_t x) -> lf::task<uint32_t> {
  ++done_[i];
  uint32_t a = 0;
  co_await lf::fork(&a, leaf)(i + 1, x);
  uint32_t k = x; // runs here or on the thief
  co_await lf::join;
  co_return a ^ k;
};
#if PROG == 8
inline constexpr auto root = [](auto, uint32_t x) -> lf::task<Tracked> {
  Tracked t{x}; uint32_t a = 0;
  co_await lf::fork(&a, leaf)(0, x); co_await lf::join;
  t.v = a; co_return std::move(t);
};
#elif PROG >= 9
inline constexpr auto root = [](auto, uint32_t x, uint32_t y) -> lf::task<uint32_t> {
  ++done_[15]; ++done_[0]; ++done_[1];
  for (int i = 0; i < LEN; ++i) in[i] = {(i & 1 ? y : x) >> (8 * (i / 2)) & 0xffu, 1};
#if PROG == 9 || PROG == 13
  auto f = [](Cat &c) { out[&c - in] = c; ++visits[&c - in]; };
#if PROG == 9
  co_await lf::just[lf::for_each](in, in + LEN, 1, f);
#else
  co_await lf::just[lf::for_each](in, in + LEN, f);
#endif
  for (int i = 0; i < LEN; ++i) { vp_assert(visits[i] == 1, "each element once"); vp_assert(out[i].v == in[i].v, "the element"); }
#elif PROG == 10
  co_await lf::just[lf::map](in, in + LEN, out, 1, [](Cat const &c) { ++visits[&c - in]; return Cat{c.v ^ 0x55u, c.n}; });
  for (int i = 0; i < LEN; ++i) { vp_assert(visits[i] == 1, "each element once"); vp_assert(out[i].v == (in[i].v ^ 0x55u), "the value"); }
#elif PROG == 11
  auto r = co_await lf::just[lf::fold](in, in + LEN, 1, cat);
  Cat e = in[0]; for (int i = 1; i < LEN; ++i) e = cat(e, in[i]);
  vp_assert(r.has_value() && r->n == LEN, "every element"); vp_assert(r->v == e.v, "the sequential fold");
#elif PROG == 12
  co_await lf::just[lf::scan](in, in + LEN, out, 1, cat);
#else
  co_await lf::just[lf::scan](in, in + LEN, out, 1, [](auto, Cat a, Cat b) -> lf::task<Cat> { co_return cat(a, b); });
#endif
#if PROG == 12 || PROG == 14
  Cat e = in[0];
  for (int i = 0; i < LEN; ++i) { if (i) e = cat(e, in[i]); vp_assert(out[i].n == i + 1, "every element before"); vp_assert(out[i].v == e.v, "the sequential scan"); }
#endif
  co_return (x ^ 0x5a5aa5a5u) ^ ((y ^ 0x5a5aa5a5u) << 1) ^ ((x ^ 0x5a5aa5a5u) << 2);
};
#else
inline constexpr auto root = [](auto self, uint32_t x, uint32_t y) -> lf::task<uint32_t> {
  (void)self; ++done_[15];
  uint32_t a = 0, b = 0, c = 0;
#if PROG == 0 || PROG == 5 || PROG == 6
  co_await lf::fork(&a, leaf)(0, x);
  co_await lf::fork(&b, leaf)(1, y);
  co_await lf::call(&c, leaf)(2, x);
  co_await lf::join;
#elif PROG == 1
  co_await lf::fork(&a, mid)(0, x);
  b = y ^ 0x5a5aa5a5u;
  co_await lf::join;
  c = x ^ 0x5a5aa5a5u; a ^= x; ++done_[2];
#elif PROG == 2
  co_await lf::fork(&a, leaf)(0, x);
  co_await lf::join;
  vp_assert(a == (x ^ 0x5a5aa5a5u), "result of the first scope");
  co_await lf::fork(&b, leaf)(1, y);
  co_await lf::join;
  co_await lf::call(&c, leaf)(2, x);
#elif PROG == 3
  try {
    co_await lf::fork(&a, leaf)(0, x);
    co_await lf::fork(&b, leaf)(1, y);
  } catch (Err const &) { vp_fail("an exception is rethrown at the join"); }
  bool got = false;
  try { co_await lf::join; } catch (Err const &e) { got = true; vp_assert((e.v == x) | (e.v == y), "one of the exceptions thrown"); vp_assert((e.v & 1u) == 1u, "thrown"); }
  vp_assert(done_[0] + done_[1] == 2, "all children ran before the exception is delivered");
  vp_assert(got == (bool)((x | y) & 1u), "an exception exactly if a child threw");
  if (got) throw Err{7};
  c = x ^ 0x5a5aa5a5u; ++done_[2];
#elif PROG == 4
  {
    int order = 0;
    LF_DEFER { vp_assert(order == 1, "deferred actions run in reverse order"); ++done_[2]; };
    LF_DEFER { vp_assert(order == 0, "deferred actions run in reverse order"); order = 1; ++done_[3]; };
    auto &&[buf] = co_await lf::co_new<uint32_t>(2);
    vp_assert(done_[3] == 0, "not before the end of the scope");
    buf[0] = buf[1] = 0;
    co_await lf::fork(&buf[0], leaf)(0, x);
    co_await lf::fork(&buf[1], leaf)(1, y);
    co_await lf::join;
    vp_assert(done_[3] == 0, "not before the end of the scope");
    a = buf[0]; b = buf[1]; c = x ^ 0x5a5aa5a5u;
  }
  vp_assert(done_[3] == 1, "deferred actions run once");
#elif PROG == 7
  uint32_t r[3] = {};
  for (int i = 0; i < 3; ++i) co_await lf::fork(&r[i], leaf)(i, i == 1 ? y : x);
  co_await lf::join;
  a = r[0]; b = r[1]; c = r[2];
#endif
  co_return a ^ (b << 1) ^ (c << 2);
};
#endif
extern "C" void vp_main() {
  auto live = vp_live();
  uint32_t x = (uint32_t)vp_sym(32, "x"), y = (uint32_t)vp_sym(32, "y");
  vp_auto(0);
  {
    std::thread w0(worker, 0);
#if NW > 1
    std::thread w1(worker, 1);
#endif
#if NW > 2
    std::thread w2(worker, 2);
#endif
    for (int r; (r = ready.load()) < NW;) ready.wait(r);
    vp_auto(PRE);
#if PROG == 8
    {
      auto f = lf::schedule(sched{}, root, x);
      ready.fetch_add(1); ready.notify_all();
      int k = vp_choice(4); vp_reach(k == 0 ? "get" : k == 1 ? "wait" : k == 2 ? "drop" : "detach");
      if (k == 0) { vp_assert(f.get().v == (x ^ 0x5a5aa5a5u), "the value of the task"); }
      else if (k == 1) { f.wait(); f.wait(); vp_assert(f.valid(), "valid until read"); vp_assert(f.get().v == (x ^ 0x5a5aa5a5u), "the value of the task"); bool again = false; try { f.get(); } catch (lf::empty_future const &) { again = true; } vp_assert(again, "read once"); }
      else if (k == 3) f.detach();
      // 2: the destructor waits
    }
#else
    ready.fetch_add(1); ready.notify_all();
    bool threw = false; uint32_t v = 0;
    try { v = lf::sync_wait(sched{}, root, x, y); } catch (Err const &e) { threw = true; vp_assert(e.v == 7u, "the exception of the root"); }
#if PROG == 3
    vp_assert(threw == (bool)((x | y) & 1u), "the exception reaches the caller");
    if (threw) { vp_reach("threw"); } else { vp_reach("value"); }
#endif
    if (!threw) vp_assert(v == ((x ^ 0x5a5aa5a5u) ^ ((y ^ 0x5a5aa5a5u) << 1) ^ ((x ^ 0x5a5aa5a5u) << 2)), "the result equals that of the serial program");
#endif
    vp_reach("waited");
    vp_auto(0);
    stop.store(1, std::memory_order_release);
    w0.join();
#if NW > 1
    w1.join();
#endif
#if NW > 2
    w2.join();
#endif
  }
#if PROG != 8
  vp_assert(done_[15] == 1, "the root ran once");
  vp_assert(done_[0] == 1, "the first child ran once");
  if (PROG != 1) vp_assert(done_[1] == 1, "the second child ran once"); else vp_assert(done_[1] == 1, "the grandchild ran once");
#endif
  vp_assert(Tracked::live == 0, "every result object is destroyed");
  vp_assert(vp_live() == live, "all memory is returned");
  vp_reach("end");
}
