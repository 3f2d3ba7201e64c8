// C22: every sequence of register / unregister / query on two threads, allocation may fail.
#include "vp.h"
#include "libfork/core.hpp"
#include "libfork/schedule.hpp"
#include <stdexcept>
#ifndef OPS
#define OPS 4
#endif
#ifndef OOM
#define OOM 0
#endif
static lf::worker_context *ctx[2] = {nullptr, nullptr}; // current registration
static int notified[2] = {0, 0}; static int fs = 0;
struct Count { int *live; explicit Count(int *l) : live(l) { ++*l; } Count(Count const &o) : live(o.live) { ++*live; } ~Count() { --*live; } };
static int notify_objs = 0;
// performs the operations chosen by main
static int op = -1; static int finished = 0;
static void check(int me) {
  bool r = ctx[me] != nullptr;
  vp_assert(lf::impl::tls::has_context == r && lf::impl::tls::has_stack == r, "registration state is right");
  if (r) {
    vp_assert(lf::impl::tls::context() == ctx[me], "the context of this thread");
    vp_assert(lf::impl::tls::context()->empty(), "context is intact");
    auto *s = lf::impl::tls::stack();
    vp_assert(s->empty(), "the stack is intact");
    char *p = (char *)s->allocate(40); p[0] = 1; p[39] = 2; vp_assert(!s->empty(), "allocated"); s->deallocate(p);
  }
}
static void doit(int me, int o) {
  switch (o) {
  case 0: {
    Count c(&notify_objs);
    bool ok = false, twice = false, oom = false;
    try {
      auto *w = lf::worker_init(lf::nullary_function_t{[me, c] { ++notified[me]; }});
      vp_assert(w != nullptr, "a context is returned"); ok = true;
      if (ctx[me] == nullptr) { ctx[me] = w; vp_reach("registered"); } else vp_fail("second registration is refused");
    } catch (std::runtime_error const &) { twice = true; }
    catch (std::bad_alloc const &) { oom = true; vp_assert(OOM, "no allocation failed"); vp_reach("out of memory"); }
    vp_assert(!twice || ctx[me] != nullptr, "a first registration is accepted");
    if (twice) vp_reach("registered twice");
    vp_assert(ctx[0] != ctx[1] || ctx[0] == nullptr, "contexts differ between threads");
    break;
  }
  case 1: { // unregister this thread's own context
    if (ctx[me] == nullptr) break;
    lf::finalize(ctx[me]); ctx[me] = nullptr; vp_reach("unregistered");
    break;
  }
  case 2: { // foreign or null context
    bool refused = false;
    lf::worker_context *f = VP_BOOL("null") ? nullptr : ctx[1 - me];
    try { lf::finalize(f); } catch (std::runtime_error const &) { refused = true; }
    vp_assert(refused, "unregistering a foreign context is refused"); vp_reach("foreign refused");
    break;
  }
  case 3: { // unregister while not registered
    if (ctx[me] != nullptr) break;
    bool refused = false;
    try { lf::finalize(static_cast<lf::worker_context *>(lf::impl::tls::thread_context.data())); } catch (std::runtime_error const &) { refused = true; }
    vp_assert(refused, "unregistering an unregistered thread is refused"); vp_reach("unregistered refused");
    break;
  }
  case 4: { // the context works
    if (ctx[me] == nullptr) break;
    int n = notified[me]; lf::intrusive_list<lf::impl::submit_t *>::node nd{nullptr};
    ctx[me]->schedule(&nd);
    vp_assert(notified[me] == n + 1, "a submission notifies the worker");
    vp_assert(ctx[me]->try_pop_all() == &nd && ctx[me]->try_pop_all() == nullptr, "a submission is delivered");
    break;
  }
  }
  check(me);
}
static void other(void *) { while (true) { if (op < 0) break; doit(1, op); vp_switch(0); } finished = 1; vp_switch(0); }
extern "C" void vp_main() {
  auto live = vp_live();
  int t = vp_spawn(other, nullptr);
#if OOM
  vp_oom(OOM);
#endif
  for (int i = 0; i < OPS; ++i) {
    int me = vp_choice(2), o = vp_choice(5);
    if (me == 0) doit(0, o); else { op = o; vp_switch(t); }
    check(0);
  }
#if OOM
  vp_oom(0);
#endif
  // whatever happened, the thread can register and unregister again
  if (ctx[0]) doit(0, 1);
  doit(0, 0); vp_assert(ctx[0] != nullptr, "a thread can register again"); doit(0, 1);
  if (ctx[1]) { op = 1; vp_switch(t); }
  op = -1; vp_switch(t); vp_assert(finished == 1, "other thread finished");
  vp_assert(notify_objs == 0, "callbacks are destroyed");
  vp_assert(vp_live() == live, "all resources are released");
  vp_reach("end");
}
