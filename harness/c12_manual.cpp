// C12: manual lifetime storage, as used for the worker's context and stack and for results.
#include "vp.h"
#include "libfork/core.hpp"
struct Fail {};
static int ctors = 0, dtors = 0;
struct Tracked {
  Tracked *me; uint64_t v;
  struct May { uint64_t x; bool fail; };
  Tracked(May m) : me(this), v(m.x) { if (m.fail) throw Fail{}; ++ctors; }
  Tracked(Tracked const &) = delete;
  ~Tracked() { vp_assert(me == this, "destroyed object is alive"); me = nullptr; ++dtors; }
};
struct alignas(64) Big { uint64_t v; Big(uint64_t x) : v(x) {} };
extern "C" void vp_main() {
  {
    lf::impl::manual_lifetime<Tracked> m; uint64_t v = vp_sym(64, "v"); bool fail = VP_BOOL("fail"), threw = false;
    int rounds = 1 + vp_choice(2);
    for (int i = 0; i < rounds; ++i) {
      threw = false;
      try {
        if (vp_choice(2)) { Tracked *p = m.construct(Tracked::May{v, fail}); vp_assert(p == m.data() && p->me == p, "construct returns the object"); }
        else m = Tracked::May{v, fail};
      } catch (Fail) { threw = true; }
      vp_assert(threw == fail && ctors == (fail ? 0 : i + 1), "constructed once or reported");
      if (!fail) { vp_assert(m->v == v && (*m).v == v && m.data()->me == m.data(), "holds the value"); m.destroy(); vp_assert(dtors == i + 1, "destroyed once"); vp_reach("value"); }
      else vp_reach("failed construction");
    }
  }
  vp_assert(ctors == dtors, "nothing is destroyed implicitly");
  lf::impl::manual_lifetime<Big> b; uint64_t v = vp_sym(64, "b");
  vp_assert((uintptr_t)b.construct(v) % 64 == 0 && b->v == v, "aligned"); b.destroy();
  vp_reach("end");
}
