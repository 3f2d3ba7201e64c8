// C21: victim selection. NWRK workers placed at arbitrary distances, arbitrary subsets of them hold work, arbitrary random choices.
#include "vp.h"
#ifndef NWRK
#define NWRK 3
#endif
#ifndef PICKS
#define PICKS 2
#endif
#include "libfork/core.hpp"
#include "libfork/schedule/ext/random.hpp"
// The random choice of a victim is replaced by an arbitrary one for the first PICKS draws of an attempt, then round robin.
static int picks = 0; static int n_neigh = 0; static bool weights_ok = true;
namespace std {
template <> template <> size_t discrete_distribution<size_t>::operator()<lf::xoshiro>(lf::xoshiro &) {
  auto p = this->probabilities(); int n = (int)p.size();
  weights_ok = weights_ok & (n == n_neigh);
  for (auto x : p) weights_ok = weights_ok & (x > 0);
  int k = picks++; return k < PICKS ? vp_choice(n) : k % n;
}
}
#include "libfork/schedule/impl/numa_context.hpp"
struct Shared {};
using ctx_t = lf::impl::numa_context<Shared>;
static std::vector<std::shared_ptr<ctx_t>> ws;
static lf::numa_topology::numa_node<ctx_t> node[NWRK];
static bool work[NWRK]; static int cmd = 0; static lf::impl::frame *got = nullptr; static bool own_empty = false;
static char fake[NWRK];
static lf::impl::frame *fr(int i) { return (lf::impl::frame *)&fake[i]; }
static int init_order = 0;
static void worker(void *a) {
  int me = (int)(intptr_t)a;
  ws[me]->init_worker_and_bind(lf::nullary_function_t{[] {}}, node[me]);
  vp_assert(ws[me]->get_underlying() == lf::impl::tls::context(), "the context belongs to the thread");
  if (work[me]) lf::impl::tls::context()->push(std::bit_cast<lf::task_handle>(fr(me)));
  vp_switch(0);
  while (cmd) {
    if (cmd == 1) { picks = 0; got = (lf::impl::frame *)ws[me]->try_steal(); }
    if (cmd == 2) own_empty = lf::impl::tls::context()->empty();
    vp_switch(0);
  }
  ws[me]->finalize_worker();
  vp_switch(0);
}
extern "C" void vp_main() {
  auto sh = std::make_shared<Shared>();
  lf::xoshiro rng;
  for (int i = 0; i < NWRK; ++i) { ws.push_back(std::make_shared<ctx_t>(rng, sh)); rng.long_jump(); vp_assert(&ws[i]->shared() == sh.get(), "shared state"); }
  bool far[NWRK] = {}; // distance of each worker from worker 0: 1 or 2
  for (int i = 1; i < NWRK; ++i) far[i] = vp_choice(2);
  for (int i = 0; i < NWRK; ++i) {
    auto &nb = node[i].neighbors; nb.push_back({ws[i]});
    std::vector<std::shared_ptr<ctx_t>> c, f;
    for (int j = 0; j < NWRK; ++j) if (j != i) (far[i] == far[j] ? c : f).push_back(ws[j]);
    if (!c.empty()) nb.push_back(c);
    if (!f.empty()) nb.push_back(f);
    work[i] = vp_choice(2);
  }
  int t[NWRK];
  for (int i = 0; i < NWRK; ++i) { t[i] = vp_spawn(worker, (void *)(intptr_t)i); vp_switch(t[i]); }
  n_neigh = NWRK - 1;
  bool has[NWRK]; int nwork = 0; for (int i = 0; i < NWRK; ++i) has[i] = work[i];
  // the thief tries as often as there are tasks, plus once
  for (int k = 0; k < NWRK; ++k) {
    int others = 0; for (int i = 1; i < NWRK; ++i) others += has[i];
    cmd = 1; got = nullptr; vp_switch(t[0]);
    if (got == nullptr) { vp_assert(others == 0, "obtains work from whichever victim has some"); vp_reach("nothing to steal"); }
    else {
      int v = -1; for (int i = 0; i < NWRK; ++i) if (got == fr(i)) v = i;
      vp_assert(v >= 0, "a task that was pushed"); vp_assert(v != 0, "never steals from itself"); vp_assert(has[v], "each task once"); has[v] = false;
      vp_reach("stolen");
    }
    cmd = 2; for (int i = 0; i < NWRK; ++i) { vp_switch(t[i]); vp_assert(own_empty == !has[i], "other deques are untouched"); }
    if (others == 0) break;
  }
  vp_assert(weights_ok, "every other worker is chosen with positive probability");
  // give the thief's own task back before shutting down
  for (int i = 0; i < NWRK; ++i) if (has[i]) { auto r = ws[i]->get_underlying()->try_steal(); vp_assert((lf::impl::frame *)r.val == fr(i), "own task still there"); }
  cmd = 0; for (int i = 0; i < NWRK; ++i) vp_switch(t[i]);
  for (int i = 0; i < NWRK; ++i) node[i].neighbors.clear();
  for (int i = 0; i < NWRK; ++i) vp_assert(ws[i].use_count() == 1, "released");
  vp_reach("end");
}
