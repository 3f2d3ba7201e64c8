// C13: the event counter under the C++ memory model, any number of notifications before.
#include <cstring>
#include "vp.h"
#include "libfork/core.hpp"
#include "libfork/schedule.hpp"
#ifndef WAITERS
#define WAITERS 1
#endif
#ifndef NOTES
#define NOTES "a" // a notify_all, o notify_one
#endif
#ifndef MODE
#define MODE 0 // 0: announce, re-check, wait or cancel; 1: await(condition); 2: await(take a token); 3: await with a condition that throws; 4: as many notify_one as waiters have announced themselves
#endif
#ifndef PARTIES
#define PARTIES 1 // notifying threads
#endif
using E = lf::event_count;
static E *ec; static std::atomic<int> flag{0}, tokens[4];
static int data_ = 0, issued[4], seen[4], slept[4], cancelled[4], early[4], threw[4];
static uint32_t raw(E::key const &k) { uint32_t e; static_assert(sizeof(k) == 4); memcpy(&e, &k, 4); return e; }
static uint32_t first = 0; // the epoch at the start
static bool layout = false; // whether the epoch can be observed through a key as a number of notifications
struct Stop {};
static void waiter(void *p) {
  int me = (int)(long)p;
#if MODE == 0
  auto k = ec->prepare_wait();
  int f = flag.load(std::memory_order_relaxed);
  if (f >= (int)strlen(NOTES)) { cancelled[me] = 1; ec->cancel_wait(); return; } // everything has happened
  ec->wait(k);
  slept[me] = 1; seen[me] = flag.load(std::memory_order_relaxed);
  early[me] = layout && PARTIES == 1 && seen[me] < (int)(raw(k) - first) + 1; // fewer notifications than at the announcement plus one
  if (PARTIES == 1 && strlen(NOTES) == 1) seen[me] += 10 * data_;
#elif MODE == 4
  auto k = ec->prepare_wait(); tokens[0].fetch_add(1, std::memory_order_acq_rel);
  if (flag.load(std::memory_order_relaxed)) { cancelled[me] = 1; ec->cancel_wait(); return; }
  ec->wait(k); slept[me] = 1; seen[me] = 10 * data_ + 1;
#elif MODE == 1
  ec->await([&] { return flag.load(std::memory_order_relaxed) >= (int)strlen(NOTES) * PARTIES; });
  seen[me] = flag.load(std::memory_order_relaxed);
#elif MODE == 2
  ec->await([&] { for (auto &t : tokens) if (&t < tokens + PARTIES * (int)strlen(NOTES) && t.load(std::memory_order_relaxed) && t.exchange(0, std::memory_order_relaxed)) return true; return false; });
  seen[me] = 1;
#else
  int calls = 0;
  try { ec->await([&] { int f = flag.load(std::memory_order_relaxed); if (++calls == 2 && vp_choice(2)) throw Stop{}; return f >= (int)strlen(NOTES) * PARTIES; }); } catch (Stop const &) { threw[me] = 1; }
#endif
}
static void notifier(void *p) {
#if MODE == 4
  data_ = 1;
  if (tokens[0].load(std::memory_order_acquire) == WAITERS) for (int i = 0; i < WAITERS; ++i) ec->notify_one();
  else { flag.store(1, std::memory_order_relaxed); for (int i = 0; i < WAITERS; ++i) ec->notify_all(); }
  return;
#endif
  for (char const *c = NOTES; *c; ++c) {
    data_ = PARTIES == 1 ? 1 : data_;
    if (MODE == 2) tokens[(int)(long)p * (int)strlen(NOTES) + (int)(c - NOTES)].store(1, std::memory_order_relaxed); else flag.fetch_add(1, std::memory_order_relaxed);
    if (*c == 'a') ec->notify_all(); else ec->notify_one();
  }
}
extern "C" void vp_main() {
  E e, ref; ec = &e; static_assert(sizeof(E) == 8);
  uint64_t a, b, c; memcpy(&a, &e, 8); { auto k = e.prepare_wait(); layout = raw(k) == 0; memcpy(&b, &e, 8); e.cancel_wait(); } memcpy(&c, &e, 8);
  vp_assert(a == c, "a cancelled announcement leaves no trace");
  e.notify_all(); memcpy(&c, &e, 8);
  { auto k = e.prepare_wait(); layout = layout & (raw(k) == 1) & (a == 0) & (b == 1) & (c == 1ull << 32); e.cancel_wait(); }
  if (layout) { uint64_t s = vp_sym(32, "epoch"); first = (uint32_t)s; s <<= 32; memcpy(&e, &s, 8); memcpy(&ref, &s, 8); } else ref.notify_all();
  void (*f[WAITERS + PARTIES])(void *); void *g[WAITERS + PARTIES];
  for (long t = 0; t < WAITERS; ++t) f[t] = waiter, g[t] = (void *)t;
  for (int t = 0; t < PARTIES; ++t) f[WAITERS + t] = notifier, g[WAITERS + t] = (void *)(long)t;
  vp_par(WAITERS + PARTIES, f, g);
  for (int t = 0; t < PARTIES; ++t) for (int i = 0; i < (MODE == 4 ? WAITERS : (int)strlen(NOTES)); ++i) ref.notify_all();
  memcpy(&a, &e, 8); memcpy(&b, &ref, 8);
  vp_assert(!layout | ((uint32_t)a == (uint32_t)b), "afterwards no waiter is registered"); // how notifications are counted is the counter's business
  int sl = 0, ca = 0, th = 0; bool vis = true, ear = false, fin = true;
  for (int i = 0; i < WAITERS; ++i) {
    sl += slept[i]; ca += cancelled[i]; th += threw[i]; ear |= early[i] != 0;
    if (MODE == 4) { vis &= !slept[i] | (seen[i] == 11); fin &= (slept[i] + cancelled[i]) == 1; }
    if (MODE == 0) { vis &= !slept[i] | (seen[i] >= 1); if (PARTIES == 1 && strlen(NOTES) == 1) vis &= !slept[i] | (seen[i] == 11); fin &= (slept[i] + cancelled[i]) == 1; }
    if (MODE == 1) vis &= seen[i] == (int)strlen(NOTES) * PARTIES;
    if (MODE == 2) vis &= seen[i] == 1;
  }
  vp_assert(vis, "what was written before the notification is visible to the woken thread"); vp_assert(!ear, "no waiter returns before a notification issued after its announcement"); vp_assert(fin, "the waiter returns");
  vp_reach_if(sl > 0, "waited"); vp_reach_if(ca > 0, "cancelled"); vp_reach_if(th > 0, "threw"); vp_reach("end");
}
