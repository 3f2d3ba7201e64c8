// C11: sequences of operations on futures, tasks that return or throw, before and after completion, failures of submission.
#include "fj.h"
#include <memory>
#ifndef KIND
#define KIND 0
#endif
#ifndef OPS
#define OPS 4
#endif
#ifndef OOM
#define OOM 0
#endif
#ifndef FAIL
#define FAIL 0
#endif
#ifndef DEFER
#define DEFER 0
#endif
static int nruns = 0, objs = 0; static uint32_t value = 0; static bool thrown = false, was_worker = false, nested_ok = false;
struct Boom { uint32_t v; };
struct Obj {
  Obj *me; uint32_t v;
  explicit Obj(uint32_t x) : me(this), v(x) { ++objs; }
  Obj(Obj &&o) noexcept : me(this), v(o.v) { vp_assert(o.me == &o, "moved from a live object"); ++objs; }
  Obj &operator=(Obj &&o) noexcept { v = o.v; return *this; }
  Obj(Obj const &) = delete;
  ~Obj() { vp_assert(me == this, "destroyed object is alive"); me = nullptr; --objs; }
};
static uint32_t cell = 0;
#if KIND == 0
using R = uint32_t; static R make(uint32_t v) { return v; } static uint32_t un(R &&r) { return r; }
#elif KIND == 1
using R = void;
#elif KIND == 2
using R = Obj; static R make(uint32_t v) { return Obj(v); } static uint32_t un(R &&r) { return r.v; }
#elif KIND == 3
using R = uint32_t &; static R make(uint32_t v) { cell = v; return cell; } static uint32_t un(R r) { vp_assert(&r == &cell, "the reference returned"); return r; }
#else
using R = std::unique_ptr<Obj>; static R make(uint32_t v) { return std::make_unique<Obj>(v); } static uint32_t un(R &&r) { return r->v; }
#endif
struct Arg { Obj o; explicit Arg(uint32_t v) : o(v) {} Arg(Arg &&) = default; };
inline constexpr auto job = [](auto self, int id, std::unique_ptr<Obj> arg) -> lf::task<R> {
  ++nruns;
  vp_assert(id == 5 && arg->v == 77, "arguments reach the task");
  fj::point();
  // submitting and waiting from a worker is refused
  if (VP_BOOL("nested")) {
    bool refused = false;
    try { auto f = lf::schedule(fj::sched_to{0}, [](auto) -> lf::task<> { co_return; }); } catch (lf::schedule_in_worker const &) { refused = true; }
    vp_assert(refused, "submitting from a worker is refused");
    vp_reach("refused in worker");
  }
  value = (uint32_t)vp_sym(32, "value");
  if (VP_BOOL("throw")) { thrown = true; throw Boom{value}; }
#if KIND == 1
  co_return;
#else
  co_return make(value);
#endif
};
struct Refuse {};
// refuses the submission, before or after looking at it, as the strong exception guarantee allows
struct refusing { void schedule(lf::submit_handle h) { vp_assert(h != nullptr, "handle"); throw Refuse{}; } };
using F = lf::future<R>;
enum { NONE, UNWAITED, READY, TAKEN };
static void take(F &f, int &st) { // get()
  if (st == NONE) { bool b = false; try { f.get(); } catch (lf::broken_future const &) { b = true; } vp_assert(b, "get on an empty future is reported"); vp_reach("broken"); return; }
  if (st == TAKEN) { bool b = false; try { f.get(); } catch (lf::empty_future const &) { b = true; } vp_assert(b, "second get is reported"); vp_reach("empty"); return; }
  bool got = false; uint32_t v = 0;
  try {
#if KIND == 1
    f.get(); v = value;
#else
    v = un(f.get());
#endif
  } catch (Boom const &b) { got = true; v = b.v; vp_reach("exception"); }
  vp_assert(got == thrown && v == value, "the result or the exception of the task is delivered");
  if (!got) vp_reach("value");
  st = TAKEN;
}
extern "C" void vp_main() {
  auto live = vp_live();
  fj::start(1, 0, 0);
  {
#if OOM
    vp_oom(OOM);
#endif
    bool submitted = true, early = false;
    try {
#if FAIL
      if (VP_BOOL("refuse")) {
        bool refused = false;
        try { F f = lf::schedule(refusing{}, job, 5, std::make_unique<Obj>(77)); } catch (Refuse const &) { refused = true; }
        vp_assert(refused, "a failed submission is reported");
        vp_assert(nruns == 0 && objs == 0, "a refused task does not run and its arguments are destroyed");
        vp_assert(!lf::impl::tls::has_stack && !lf::impl::tls::has_context, "the thread is not left registered");
        vp_reach("refused");
      }
#endif
      F f = lf::schedule(fj::sched_to{0}, job, 5, std::make_unique<Obj>(77));
#if OOM
      vp_oom(0);
#endif
      vp_assert(!lf::impl::tls::has_stack && !lf::impl::tls::has_context, "the thread is not left registered");
      vp_assert(f.valid(), "a new future is valid");
#if DEFER
      // detached or destroyed before the task runs: must not be waited for here, nothing else would run the task
      if (VP_BOOL("detach early")) { f.detach(); vp_assert(!f.valid(), "detached"); fj::run(); vp_assert(nruns == 1, "a detached task runs"); vp_reach("detached early"); early = true; }
#endif
      if (!early) { fj::run();
      vp_assert(nruns == 1, "the task ran once");
      {
        std::optional<F> g; // a second handle to move to
        int sf = UNWAITED, sg = NONE;
        for (int i = 0; i < OPS; ++i) {
          vp_assert(f.valid() == (sf != NONE) && (!g || g->valid() == (sg != NONE)), "valid() is right");
          switch (vp_choice(7)) {
          case 0: take(f, sf); break;
          case 1: if (sf == NONE) { bool b = false; try { f.wait(); } catch (lf::broken_future const &) { b = true; } vp_assert(b, "wait on an empty future is reported"); } else { f.wait(); if (sf == UNWAITED) sf = READY; } break;
          case 2: f.detach(); sf = NONE; vp_reach("detached"); break;
          case 3: if (!g) { g.emplace(std::move(f)); } else { *g = std::move(f); } sg = sf; sf = NONE; vp_reach("moved"); break;
          case 4: if (g) take(*g, sg); break;
          case 5: if (g) { f = std::move(*g); sf = sg; sg = NONE; } break;
          case 6: if (g) { g.reset(); sg = NONE; vp_reach("destroyed"); } break;
          }
        }
        vp_assert(f.valid() == (sf != NONE), "valid() is right");
      } }
    } catch (std::bad_alloc const &) { submitted = false; vp_assert(OOM, "no allocation failed"); vp_reach("out of memory"); vp_assert(!lf::impl::tls::has_stack, "the thread is not left registered"); }
#if OOM
    vp_oom(0);
    if (!submitted) { vp_assert(nruns == 0, "a task that was not submitted does not run"); F f = lf::schedule(fj::sched_to{0}, job, 5, std::make_unique<Obj>(77)); fj::run(); int s = UNWAITED; take(f, s); }
#endif
  }

  vp_assert(nruns == 1, "the task ran once");
  vp_assert(objs == 0, "arguments and results are destroyed");
  fj::stop();
  vp_assert(vp_live() == live, "all memory is returned");
  vp_reach("end");
}
