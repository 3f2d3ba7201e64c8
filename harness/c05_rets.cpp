// C05: every supported kind of return location, for forked and called tasks, under every steal pattern.
#include "fj.h"
#include <memory>
#ifndef NW
#define NW 2
#endif
#ifndef STEALS
#define STEALS 2
#endif
#ifndef PRE
#define PRE 3
#endif
static int calls = 0, dtors = 0, ctors = 0; static int cell[2];
struct Obj { int v; explicit Obj(int x) : v(x) { ++ctors; } Obj(Obj &&o) noexcept : v(o.v) { o.v = -1; ++ctors; } ~Obj() { ++dtors; } Obj(Obj const &) = delete; Obj &operator=(Obj &&o) noexcept { v = o.v; o.v = -1; return *this; } };
inline constexpr auto by_value = [](auto, int x) -> lf::task<int> { ++calls; fj::point(); co_return x + 1; };
inline constexpr auto by_ref = [](auto, int i) -> lf::task<int &> { ++calls; fj::point(); co_return cell[i]; };
inline constexpr auto by_obj = [](auto, int x) -> lf::task<Obj> { ++calls; fj::point(); co_return Obj{x}; };
inline constexpr auto nothing = [](auto, int *p, int x) -> lf::task<> { ++calls; fj::point(); *p = x; co_return; };
inline constexpr auto unique = [](auto, int x) -> lf::task<std::unique_ptr<int>> { ++calls; fj::point(); co_return std::make_unique<int>(x); };
struct Wrapped { int v = 0; Wrapped() = default; Wrapped(int x) : v(x) {} };            // what is returned converts to the result ...
struct Sink { int n = 0, v = 0; Sink &operator=(Wrapped &&w) { ++n; v = w.v; return *this; } Sink &operator=(int) = delete; }; // ... and only the result can be stored
struct Pair { int a, b; };
inline constexpr auto converts = [](auto, int x) -> lf::task<Wrapped> { ++calls; fj::point(); co_return x; };
inline constexpr auto braces = [](auto, int x) -> lf::task<Pair> { ++calls; fj::point(); co_return {x, x + 1}; };
inline constexpr auto local = [](auto, int x) -> lf::task<Pair> { ++calls; Pair p{x + 1, x}; fj::point(); co_return p; };
struct Slot { int n = 0, v = 0; Slot &operator=(int x) { ++n; v = x; return *this; } Slot &operator=(int x) const = delete; };
inline constexpr auto root = [](auto self, int x) -> lf::task<int> {
  int which = vp_choice(12);
  int a = 0; lf::eventually<int &> r; lf::eventually<Obj> o; std::unique_ptr<int> u; std::optional<int> opt; lf::try_eventually<int> te; long wide = 0; Sink sink; Pair pair{}; lf::eventually<Pair> epair;
  bool f = vp_choice(2);
  int dummy = 0;
  if (f) { co_await lf::fork VP_BIND(&dummy, by_value)(x); } // an extra sibling
  fj::point();
#define GO(ret, ...) do { if (f) { co_await lf::fork VP_BIND ret __VA_ARGS__; } else { co_await lf::call VP_BIND ret __VA_ARGS__; } } while (0)
  switch (which) {
    case 0: GO((&a, by_value), (x)); break;
    case 1: GO((&r, by_ref), (1)); break;
    case 2: GO((&o, by_obj), (x)); break;
    case 3: GO((nothing), (&a, x)); break;
    case 4: GO((&u, unique), (x)); break;
    case 5: GO((&opt, by_value), (x)); break;
    case 6: GO((by_value), (x)); break;
    case 7: GO((&sink, converts), (x)); break;
    case 8: GO((&pair, braces), (x)); break;
    case 9: GO((&epair, local), (x)); break;
    case 10: GO((&wide, by_value), (x)); break;
    case 11: GO((&te, by_value), (x)); break;
  }
  fj::point();
  co_await lf::join;
  switch (which) {
    case 0: vp_assert(a == x + 1, "value stored"); vp_reach("value"); break;
    case 1: vp_assert(!r.empty() && &*r == &cell[1], "reference result denotes the right object"); vp_reach("reference"); break;
    case 2: vp_assert(!o.empty() && o->v == x && ctors - dtors == 1, "object result moved into place"); vp_reach("object"); break;
    case 3: vp_assert(a == x, "void task has run"); vp_reach("void"); break;
    case 4: vp_assert(u && *u == x, "move-only result stored"); vp_reach("unique_ptr"); break;
    case 5: vp_assert(opt && *opt == x + 1, "user-provided location assigned"); vp_reach("optional"); break;
    case 6: vp_reach("ignored"); break;
    case 7: vp_assert((sink.n == 1) & (sink.v == x), "result converted, then stored once"); vp_reach("converted"); break;
    case 8: vp_assert((pair.a == x) & (pair.b == x + 1), "braced result stored"); vp_reach("braces"); break;
    case 9: vp_assert(!epair.empty() && (epair->a == x + 1) & (epair->b == x), "local object stored"); vp_reach("local"); break;
    case 10: vp_assert(wide == x + 1, "result stored in a wider location"); vp_reach("wider"); break;
    case 11: vp_assert(te.has_value() && *te == x + 1, "result stored in a holder of a value or an exception"); vp_reach("try_eventually"); break;
  }
  if (f) vp_assert(dummy == x + 1, "sibling result stored");
  vp_assert(calls == 1 + f, "each task ran once");
  co_return x + 2;
};
extern "C" void vp_main() {
  auto live = vp_live();
  fj::start(NW, STEALS, PRE);
  int x = (int)(int16_t)vp_sym(16, "x");
  { auto f = fj::exec(0, root, x); vp_assert(f.get() == x + 2, "result of root"); }
  vp_assert(ctors == dtors, "results destroyed once");
  fj::reach_steals();
  fj::stop();
  vp_assert(vp_live() == live, "all memory is returned");
  vp_reach("end");
}
