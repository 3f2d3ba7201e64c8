// Litmus tests of the axiomatic part of the engine: each defines threads and a condition that must (not) be reachable.
#include <atomic>
#include "vp.h"
using namespace std;
using enum memory_order;
#define RLX memory_order_relaxed
#define ACQ memory_order_acquire
#define REL memory_order_release
#define SC memory_order_seq_cst
atomic<int> x, y, z; int d, r[8];
static void go(int n, void (*a)(void *), void (*b)(void *), void (*c)(void *) = nullptr, void (*e)(void *) = nullptr) { void (*f[4])(void *) = {a, b, c, e}; void *g[4] = {}; vp_par(n, f, g); }
#define TH [](void *)
#ifndef T
#define T 0
#endif
extern "C" void vp_main() {
#if T == 0 // SB relaxed: 0,0 reachable
  go(2, TH { x.store(1, RLX); r[0] = y.load(RLX); }, TH { y.store(1, RLX); r[1] = x.load(RLX); }); vp_assert((r[0] | r[1]) != 0, "sb");
#elif T == 1 // SB seq_cst: unreachable
  go(2, TH { x.store(1, SC); r[0] = y.load(SC); }, TH { y.store(1, SC); r[1] = x.load(SC); }); vp_assert((r[0] | r[1]) != 0, "sb");
#elif T == 2 // SB with two fences: unreachable
  go(2, TH { x.store(1, RLX); atomic_thread_fence(SC); r[0] = y.load(RLX); }, TH { y.store(1, RLX); atomic_thread_fence(SC); r[1] = x.load(RLX); }); vp_assert((r[0] | r[1]) != 0, "sb");
#elif T == 3 // SB with one fence: reachable
  go(2, TH { x.store(1, RLX); atomic_thread_fence(SC); r[0] = y.load(RLX); }, TH { y.store(1, RLX); r[1] = x.load(RLX); }); vp_assert((r[0] | r[1]) != 0, "sb");
#elif T == 4 // MP relaxed: race on d
  go(2, TH { d = 1; x.store(1, RLX); }, TH { if (x.load(ACQ)) r[0] = d; });
#elif T == 5 // MP release/acquire: fine
  go(2, TH { d = 1; x.store(1, REL); }, TH { r[0] = 7; if (x.load(ACQ)) r[0] = d; }); vp_assert((r[0] == 7) | (r[0] == 1), "mp");
#elif T == 6 // MP with fences: fine
  go(2, TH { d = 1; atomic_thread_fence(REL); x.store(1, RLX); }, TH { r[0] = 7; if (x.load(RLX)) { atomic_thread_fence(ACQ); r[0] = d; } }); vp_assert((r[0] == 7) | (r[0] == 1), "mp");
#elif T == 7 // release sequence through a relaxed RMW: fine
  go(3, TH { d = 1; x.store(1, REL); }, TH { x.fetch_add(2, RLX); }, TH { if (x.load(ACQ) == 3) r[0] = d; });
#elif T == 8 // release sequence broken by a plain store
  go(3, TH { d = 1; x.store(1, REL); }, TH { if (x.load(RLX) == 1) x.store(3, RLX); }, TH { if (x.load(ACQ) == 3) r[0] = d; });
#elif T == 9 // IRIW acquire: reachable
  go(4, TH { x.store(1, REL); }, TH { y.store(1, REL); }, TH { r[0] = x.load(ACQ); r[1] = y.load(ACQ); }, TH { r[2] = y.load(ACQ); r[3] = x.load(ACQ); }); vp_assert(!((r[0] == 1) & (r[1] == 0) & (r[2] == 1) & (r[3] == 0)), "iriw");
#elif T == 10 // IRIW seq_cst: unreachable
  go(4, TH { x.store(1, SC); }, TH { y.store(1, SC); }, TH { r[0] = x.load(SC); r[1] = y.load(SC); }, TH { r[2] = y.load(SC); r[3] = x.load(SC); }); vp_assert(!((r[0] == 1) & (r[1] == 0) & (r[2] == 1) & (r[3] == 0)), "iriw");
#elif T == 11 // IRIW relaxed loads with SC fences between: unreachable
  go(4, TH { x.store(1, RLX); }, TH { y.store(1, RLX); }, TH { r[0] = x.load(RLX); atomic_thread_fence(SC); r[1] = y.load(RLX); }, TH { r[2] = y.load(RLX); atomic_thread_fence(SC); r[3] = x.load(RLX); }); vp_assert(!((r[0] == 1) & (r[1] == 0) & (r[2] == 1) & (r[3] == 0)), "iriw");
#elif T == 12 // coherence of reads
  go(2, TH { x.store(1, RLX); x.store(2, RLX); }, TH { r[0] = x.load(RLX); r[1] = x.load(RLX); }); vp_assert(!((r[0] == 2) & (r[1] != 2)), "corr"); vp_assert(!((r[0] == 1) & (r[1] == 0)), "corr");
#elif T == 13 // 2+2W relaxed: reachable (x==1, y==1 finally)
  go(2, TH { x.store(1, RLX); y.store(2, RLX); }, TH { y.store(1, RLX); x.store(2, RLX); }); r[0] = x.load(RLX); r[1] = y.load(RLX); vp_assert(!((r[0] == 1) & (r[1] == 1)), "2+2w");
#elif T == 14 // 2+2W seq_cst: unreachable
  go(2, TH { x.store(1, SC); y.store(2, SC); }, TH { y.store(1, SC); x.store(2, SC); }); r[0] = x.load(RLX); r[1] = y.load(RLX); vp_assert(!((r[0] == 1) & (r[1] == 1)), "2+2w");
#elif T == 15 // LB: unreachable in RC11
  go(2, TH { r[0] = x.load(RLX); y.store(1, RLX); }, TH { r[1] = y.load(RLX); x.store(1, RLX); }); vp_assert(!((r[0] == 1) & (r[1] == 1)), "lb");
#elif T == 16 // RMW atomicity
  go(3, TH { r[0] = x.fetch_add(1, RLX); }, TH { r[1] = x.fetch_add(1, RLX); }, TH { r[2] = x.fetch_add(1, RLX); }); r[3] = x.load(RLX); vp_assert((r[3] == 3) & (r[0] + r[1] + r[2] == 3), "rmw");
#elif T == 17 // lost update with load/store: reachable
  go(2, TH { int v = x.load(SC); x.store(v + 1, SC); }, TH { int v = x.load(SC); x.store(v + 1, SC); }); r[3] = x.load(RLX); vp_assert(r[3] == 2, "inc");
#elif T == 18 // CAS lock: mutual exclusion and publication
  go(2, TH { int e = 0; if (x.compare_exchange_strong(e, 1, ACQ, RLX)) { d++; x.store(0, REL); r[0] = 1; } }, TH { int e = 0; if (x.compare_exchange_strong(e, 1, ACQ, RLX)) { d++; x.store(0, REL); r[1] = 1; } }); vp_assert(d == r[0] + r[1], "lock"); vp_assert(d >= 1, "one"); vp_reach("end");
#elif T == 19 // CAS lock with relaxed unlock: race
  go(2, TH { int e = 0; if (x.compare_exchange_strong(e, 1, ACQ, RLX)) { d++; x.store(0, RLX); } }, TH { int e = 0; if (x.compare_exchange_strong(e, 1, ACQ, RLX)) { d++; x.store(0, REL); } });
#elif T == 20 // wait / notify: fine
  go(2, TH { d = 5; x.store(1, REL); x.notify_one(); }, TH { x.wait(0, ACQ); r[0] = d; }); vp_assert(r[0] == 5, "w"); vp_reach("end");
#elif T == 21 // notify before store: deadlock
  go(2, TH { x.notify_one(); x.store(1, REL); }, TH { x.wait(0, ACQ); });
#elif T == 22 // one notify_one for two waiters: deadlock
  go(3, TH { x.store(1, REL); x.notify_one(); }, TH { x.wait(0, ACQ); }, TH { x.wait(0, ACQ); });
#elif T == 23 // notify_all for two waiters: fine
  go(3, TH { x.store(1, REL); x.notify_all(); }, TH { x.wait(0, ACQ); }, TH { x.wait(0, ACQ); });
#elif T == 24 // publication of heap memory, pointer passing and free by the consumer
  static atomic<int *> q; 
  go(2, TH { int *p = new int(42); q.store(p, REL); }, TH { int *p = q.load(ACQ); r[0] = 1; if (p) { r[0] = *p; delete p; } }); vp_assert((r[0] == 1) | (r[0] == 42), "ptr"); vp_assert(vp_live() == (r[0] == 42 ? 0 : 1), "leak"); vp_reach("end");
#elif T == 25 // the same with relaxed publication: race
  static atomic<int *> q;
  go(2, TH { int *p = new int(42); q.store(p, RLX); }, TH { int *p = q.load(RLX); if (p) { r[0] = *p; } });
#elif T == 26 // free while another thread may still read
  static atomic<int *> q; q.store(new int(3));
  go(2, TH { delete q.exchange(nullptr); }, TH { int *p = q.load(); if (p) r[0] = *p; });
#elif T == 27 // WRC with release/acquire: fine; causality through two hops
  go(3, TH { d = 1; x.store(1, REL); }, TH { if (x.load(ACQ)) y.store(1, REL); }, TH { if (y.load(ACQ)) r[0] = d; });
#elif T == 28 // R: one thread fence, other SC... store, fence, store / store, fence, load: unreachable
  go(2, TH { x.store(1, RLX); atomic_thread_fence(SC); y.store(1, RLX); }, TH { y.store(2, RLX); atomic_thread_fence(SC); r[0] = x.load(RLX); }); r[1] = y.load(RLX); vp_assert(!((r[1] == 2) & (r[0] == 0)), "r");
#elif T == 29 // R without the second fence: reachable
  go(2, TH { x.store(1, RLX); atomic_thread_fence(SC); y.store(1, RLX); }, TH { y.store(2, RLX); r[0] = x.load(RLX); }); r[1] = y.load(RLX); vp_assert(!((r[1] == 2) & (r[0] == 0)), "r");
#elif T == 30 // exclusive private results merge
  go(2, TH { r[0] = x.exchange(1, RLX) ? 10 : 20; }, TH { r[1] = x.exchange(2, RLX) ? 30 : 40; }); vp_assert((r[0] + r[1] == 50), "m"); vp_reach("end");
#elif T == 31 // ... and an assertion that can fail after merging
  go(2, TH { r[0] = x.exchange(1, RLX) ? 10 : 20; }, TH { r[1] = x.exchange(2, RLX) ? 30 : 40; }); vp_assert(r[0] == 20, "m");
#endif
}
