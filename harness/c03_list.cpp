// C03: producers push on one submission list while the owner takes it, under the C++ memory model.
#include "vp.h"
#include "libfork/core.hpp"
#ifndef PRODS
#define PRODS 2
#endif
#ifndef PUSHES
#define PUSHES 1
#endif
#ifndef LESS
#define LESS 0 // producers after the first push that many fewer
#endif
#ifndef TAKES
#define TAKES 1
#endif
#ifndef KIND
#define KIND 0 // 0: intrusive_list<int*>, 1: through worker_context::schedule/try_pop_all
#endif
struct Item { int who, seq, payload; };
static Item items[4][4];
#if KIND == 0
using list_t = lf::intrusive_list<Item *>; using node_t = list_t::node; static list_t *L;
static node_t *mk(Item *i) { return new node_t(i); }
static void submit(node_t *n) { L->push(n); }
static node_t *take() { return L->try_pop_all(); }
#else
using node_t = lf::intrusive_list<lf::impl::submit_t *>::node; static lf::worker_context *L;
static node_t *mk(Item *i) { return new node_t(std::bit_cast<lf::impl::submit_t *>(i)); }
static void submit(node_t *n) { L->schedule(n); }
static node_t *take() { return L->try_pop_all(); }
#endif
struct Seen { int cnt[4][4], order[16], n; bool bad; }; static Seen during, after; // entries taken while the producers run, and afterwards
static int notified = 0;
static void visit(Seen &o, node_t *first) {
  for_each_elem(first, [&](auto *&d) { // the visited entry dies here
    Item *i = (Item *)(void *)d; node_t *n = reinterpret_cast<node_t *>(&d);
    int w = i->who, q = i->seq; o.bad |= i->payload != 100 + 10 * w + q;
    o.cnt[w][q]++; o.order[o.n++] = w * 4 + q;
    delete n;
  });
}
static constexpr int pushes(int p) { return PUSHES - (p > 0) * LESS; }
static void producer(void *p) {
  int me = (int)(long)p;
  for (int s = 0; s < pushes(me); ++s) { node_t *n = mk(&items[me][s]); items[me][s].payload = 100 + 10 * me + s; submit(n); }
}
static void owner(void *) { for (int t = 0; t < TAKES; ++t) visit(during, take()); }
extern "C" void vp_main() {
  auto live = vp_live();
  {
    for (int w = 0; w < PRODS; ++w) for (int s = 0; s < PUSHES; ++s) items[w][s].who = w, items[w][s].seq = s;
#if KIND == 0
    list_t l; L = &l;
#else
    lf::worker_context *w = lf::worker_init([] { __atomic_fetch_add(&notified, 1, __ATOMIC_RELAXED); }); L = w;
#endif
    void (*f[1 + PRODS])(void *); void *a[1 + PRODS];
    for (long t = 0; t < PRODS; ++t) f[t] = producer, a[t] = (void *)t;
    f[PRODS] = owner; a[PRODS] = nullptr;
    vp_par(1 + PRODS, f, a);
    visit(after, take());
    vp_reach_if(during.n > 0, "taken during"); vp_reach_if(during.n == PRODS * PUSHES - (PRODS - 1) * LESS, "all taken during"); vp_reach_if(during.n == 0, "none taken during");
    bool lost = false, dup = false, wrong = false;
    for (int p = 0; p < PRODS; ++p) for (int s = 0; s < pushes(p); ++s) { int c = during.cnt[p][s] + after.cnt[p][s]; lost |= c == 0; dup |= c > 1; }
    constexpr int M = PRODS * PUSHES - (PRODS - 1) * LESS;
    for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) {
      auto late = [](int x, int y) { return (x / 4 == y / 4) & (x % 4 > y % 4); };
      wrong |= (i < j) & (j < during.n) & late(during.order[i], during.order[j]);
      wrong |= (i < j) & (j < after.n) & late(after.order[i], after.order[j]);
      wrong |= (i < during.n) & (j < after.n) & late(during.order[i], after.order[j]);
    }
    vp_assert(!lost, "no submitted entry is lost"); vp_assert(!dup, "no entry is delivered twice"); vp_assert(!wrong, "entries of one submitter arrive in order");
    vp_assert(!(during.bad | after.bad), "what was written before submitting is visible to the owner");
    vp_assert(take() == nullptr, "nothing is left");
#if KIND == 1
    vp_assert(notified == PRODS * PUSHES - (PRODS - 1) * LESS, "every submission notifies the worker");
    lf::finalize(w);
#endif
    vp_reach("end");
  }
  vp_assert(vp_live() == live, "nothing leaks");
}
