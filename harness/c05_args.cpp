// C05: task functions with state and arguments of every kind (values, references, move-only, with identity).
#include "fj.h"
#include <memory>
static int objs = 0, funs = 0, bodies = 0;
struct Obj {
  Obj *me; uint32_t v;
  explicit Obj(uint32_t x) : me(this), v(x) { ++objs; }
  Obj(Obj const &o) : me(this), v(o.v) { vp_assert(o.me == &o, "copied from a live object"); ++objs; }
  Obj(Obj &&o) noexcept : me(this), v(o.v) { vp_assert(o.me == &o, "moved from a live object"); o.v = 0xdead; ++objs; }
  ~Obj() { vp_assert(me == this, "destroyed object is alive"); me = nullptr; --objs; }
};
struct Fun {
  Fun *me; uint32_t k; std::unique_ptr<uint32_t> own;
  explicit Fun(uint32_t x) : me(this), k(x), own(new uint32_t(~x)) { ++funs; }
  Fun(Fun const &o) : me(this), k(o.k), own(new uint32_t(*o.own)) { vp_assert(o.me == &o, "copied from a live function object"); ++funs; }
  Fun(Fun &&o) noexcept : me(this), k(o.k), own(std::move(o.own)) { vp_assert(o.me == &o, "moved from a live function object"); ++funs; }
  ~Fun() { vp_assert(me == this, "destroyed function object is alive"); me = nullptr; --funs; }
  template <class S> lf::task<uint32_t> operator()(S self, int d, Obj &b, std::unique_ptr<uint32_t> c, Obj v, uint32_t const &cr) const {
    ++bodies; ++b.v;
    vp_assert(me == this && own && *own == ~k, "the function object is alive and has its state when its body starts");
    uint32_t kk = k, x = kk + *c + 2 * v.v + 4 * cr, in = v.v, p = 0, q = 0;
    fj::point();
    if (d > 0) {
      co_await lf::fork VP_BIND(&p, self)(d - 1, b, std::make_unique<uint32_t>(*c + 1), Obj(v.v + 1), cr);
      fj::point();
      co_await lf::call VP_BIND(&q, self)(d - 1, b, std::move(c), v, cr);
      co_await lf::join;
      vp_assert(v.me == &v && v.v == in, "an argument given by value is the task's own");
    }
    co_return x + 8 * p + 16 * q;
  }
};
static uint32_t serial(uint32_t k, int d, uint32_t c, uint32_t v, uint32_t r) { return k + c + 2 * v + 4 * r + (d > 0 ? 8 * serial(k, d - 1, c + 1, v + 1, r) + 16 * serial(k, d - 1, c, v, r) : 0); }
inline constexpr auto root = [](auto, uint32_t k, uint32_t c, uint32_t v, uint32_t const &r) -> lf::task<bool> {
  Obj b(0), arg(v); Fun f(k); uint32_t p = 0, q = 0; int how = vp_choice(3);
  auto own = std::make_unique<uint32_t>(c);
  if (how == 0) { // the caller's function object is copied
    co_await lf::fork VP_BIND(&p, f)(DEPTH, b, std::move(own), arg, r); fj::point();
    vp_assert(f.k == k && f.own, "the caller's function object is untouched"); vp_reach("lvalue");
  } else if (how == 1) { // a temporary
    co_await lf::fork VP_BIND(&p, Fun(k))(DEPTH, b, std::move(own), std::move(arg), r); fj::point(); vp_reach("temporary");
  } else { // const
    co_await lf::call VP_BIND(&p, std::as_const(f))(DEPTH, b, std::move(own), Obj(v), r); vp_reach("const");
  }
  f.k = ~k; *f.own = k; arg.v = 0;
  co_await lf::call VP_BIND(&q, std::move(f))(0, b, std::make_unique<uint32_t>(c), Obj(v), r);
  co_await lf::join;
  vp_assert(p == serial(k, DEPTH, c, v, r), "result with the state and the arguments given"); vp_assert(q == serial(~k, 0, c, v, r), "result of the sibling");
  vp_assert(b.v == (uint32_t)bodies, "references refer to the caller's object");
  co_return true;
};
extern "C" void vp_main() {
  auto live = vp_live();
  fj::start(NW, STEALS, PRE);
  static uint32_t r = (uint32_t)vp_sym(32, "r");
  uint32_t k = (uint32_t)vp_sym(32, "k"), c = (uint32_t)vp_sym(32, "c"), v = (uint32_t)vp_sym(32, "v");
  { auto f = fj::exec(0, root, k, c, v, r); vp_assert(f.get(), "root finished"); }
  vp_assert(bodies == 2 * (1 << DEPTH), "each body ran once");
  vp_assert((objs == 0) & (funs == 0), "arguments and function objects are destroyed once");
  fj::reach_steals(); fj::stop();
  vp_assert(vp_live() == live, "all memory is returned"); vp_reach("end");
}
