// C10: arrays allocated on a task's stack (co_new), with steals, nested requests, throwing constructors, huge counts.
#include "fj.h"
#include <new>
#ifndef NW
#define NW 2
#endif
#ifndef STEALS
#define STEALS 2
#endif
#ifndef PRE
#define PRE 3
#endif
#ifndef KIND
#define KIND 0
#endif
#ifndef MAXN
#define MAXN 3
#endif
#ifndef HUGE_
#define HUGE_ 0
#endif
#ifndef DEPTH
#define DEPTH 1
#endif
#ifndef MAXC
#define MAXC 2
#endif
#ifndef SCALE
#define SCALE 1
#endif
#ifndef PAD
#define PAD 8
#endif
#ifndef OOM
#define OOM 0
#endif
struct Boom { uint32_t v; };
static int alive = 0, constructed = 0, throw_at = -1; // throw_at: constructions left until one throws
struct Tracked {
  Tracked *me; uint32_t v;
  Tracked() : me(this), v(0x55) { if (throw_at == 0) { throw_at = -1; throw Boom{7}; } if (throw_at > 0) --throw_at; ++alive; ++constructed; }
  Tracked(Tracked const &) = delete;
  ~Tracked() { vp_assert(me == this, "destroyed element is alive"); me = nullptr; --alive; }
  void set(uint32_t x) { v = x; } uint32_t get() const { vp_assert(me == this, "element is alive"); return v; }
};
struct alignas(16) Wide { uint32_t v; void set(uint32_t x) { v = x; } uint32_t get() const { return v; } };
struct Odd { uint32_t v; uint32_t pad[4]; void set(uint32_t x) { v = x; } uint32_t get() const { return v; } };
struct Byte { uint8_t v; void set(uint32_t x) { v = (uint8_t)x; } uint32_t get() const { return v; } };
#if KIND == 0
using T = Tracked;
#elif KIND == 1
using T = Wide;
#elif KIND == 2
using T = Odd;
#else
using T = Byte;
#endif
struct Region { uintptr_t a, b; };
static Region reg[32]; static int nreg = 0;
// registers a live region: must not overlap any other live one
struct Live {
  int me;
  Live(void *p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    for (int i = 0; i < nreg; ++i) vp_assert(a + n <= reg[i].a || reg[i].b <= a, "live regions of task memory are disjoint");
    me = nreg; reg[nreg++] = {a, a + n};
  }
  Live(Live const &) = delete;
  ~Live() { reg[me] = {0, 0}; }
};
static int ran[16], done[16];
static uint32_t want(int id, uint32_t base, size_t i) { T t{}; return KIND == 3 ? (uint8_t)(base + i) : (uint32_t)(base + i); }
// indices that are looked at: all of a short array, both ends of a long one
static size_t step(size_t i, size_t n) { return (n > 4 && i == 1) ? n - 2 : i + 1; }
static size_t symcount() {
#if HUGE_
  uint64_t n = vp_sym(64, "count");
  vp_assume((n <= 2) | (n >= (uint64_t(1) << 40)));
  return n;
#else
  return (size_t)vp_choice(MAXN + 1) * SCALE;
#endif
}
inline constexpr auto node = [](auto self, int id, int d) -> lf::task<uint32_t> {
  Pad<PAD> pad(id);
  Live frame(&pad, sizeof pad);
  ++ran[id];
  fj::point();
  uint32_t base = (uint32_t)vp_sym(32, "v"), r = base;
  size_t n = symcount();
  int before = alive;
#if KIND == 0
  bool th = VP_BOOL("throws"); if (th && throw_at < 0) throw_at = vp_choice(MAXN * SCALE < 4 ? MAXN * SCALE + 1 : 4);
#endif
  bool failed = false;
  try {
    decltype(auto) h = co_await lf::co_new<T>(n);
    auto &&[buf] = h;
#if KIND == 0
    vp_assert(alive == before + (int)n, "every element is constructed exactly once");
#endif
    vp_assert(buf.size() == n, "the request has the requested number of elements");
    vp_assert((uintptr_t)buf.data() % alignof(T) == 0, "the elements are aligned");
    vp_assert(n == 0 || vp_valid(buf.data(), n * sizeof(T)), "the elements lie in valid memory");
    vp_assert(n <= SIZE_MAX / sizeof(T), "the request is representable");
    Live mine(buf.data(), n * sizeof(T));
    for (size_t i = 0; i < n; i = step(i, n)) buf[i].set(base + i);
    if (n > 0) vp_reach("elements"); else vp_reach("no elements");
    // a second request, released before the first
    if (VP_BOOL("nested")) {
      size_t m = symcount(); 
      auto &&[buf2] = co_await lf::co_new<T>(m);
      vp_assert(buf2.size() == m, "the nested request has the requested number of elements");
      Live mine2(buf2.data(), m * sizeof(T));
      for (size_t i = 0; i < m; i = step(i, m)) buf2[i].set(~base + i);
      if (d > 0) {
        uint32_t o = 0;
        co_await lf::fork(&o, self)(id * MAXC + 1, d - 1);
        fj::point();
        co_await lf::join;
      }
      for (size_t i = 0; i < m; i = step(i, m)) vp_assert(buf2[i].get() == want(id, ~base, i), "the nested elements keep their contents");
      vp_reach("nested");
    } else if (d > 0) {
      uint32_t out[MAXC] = {};
      int k = vp_choice(MAXC + 1);
      for (int j = 0; j < k; ++j) {
        if (vp_choice(2)) co_await lf::fork(&out[j], self)(id * MAXC + 1 + j, d - 1); else co_await lf::call(&out[j], self)(id * MAXC + 1 + j, d - 1);
        fj::point();
      }
      co_await lf::join;
    }
    for (size_t i = 0; i < n; i = step(i, n)) { vp_assert(buf[i].get() == want(id, base, i), "the elements keep their contents"); r += buf[i].get(); }
    fj::point();
  } catch (Boom const &b) { failed = true; vp_assert(b.v == 7, "exception of the constructor is delivered"); vp_reach("constructor threw"); }
  catch (std::bad_alloc const &) { failed = true; vp_reach("out of memory"); vp_assert(HUGE_ || OOM, "only impossible requests are refused"); }
#if KIND == 0
  vp_assert(!failed || alive == before, "elements constructed before the exception are destroyed");
#endif
  pad.check(id);
#if OOM
  if (id > 0) { ++done[id]; co_return r; }
#endif
  // the task's stack still works
  if (d > 0) { uint32_t o = 0; co_await lf::call(&o, self)(id * MAXC + 1 + MAXC - 1 + 7, 0); }
  ++done[id];
  co_return r;
};
extern "C" void vp_main() {
  auto live = vp_live();
  fj::start(NW, STEALS, PRE);
  {
    auto f = fj::exec(0, node, 0, DEPTH);
    f.get();
  }
  vp_assert(alive == 0, "every element constructed is destroyed");
  fj::reach_steals();
  fj::stop();
  vp_assert(vp_live() == live, "all memory is returned");
  vp_reach("end");
}
