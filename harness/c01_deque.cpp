// C01: an owner and thieves on one deque under the C++ memory model: every item is obtained exactly once or is still there.
#include "vp.h"
#ifdef GCCFENCE // the branch other compilers take for the full fence
#include <atomic>
#include "libfork/core/macro.hpp"
#undef __clang__
#include "libfork/core/impl/atomics.hpp"
#define __clang__ 1
#endif
#include "libfork/core.hpp"
#ifndef PRE
#define PRE 1   // items pushed before the threads start
#endif
#ifndef CAP
#define CAP 2
#endif
#ifndef OPSTR
#define OPSTR "p" // owner: P push, p pop, ? either
#endif
#ifndef THIEVES
#define THIEVES 1
#endif
#ifndef STEALS
#define STEALS 1
#endif
#ifndef SHIFT
#define SHIFT 0 // positions consumed before the threads start
#endif
#ifdef PTR
using T = int *;
static int cells[16]; static T mk(int i) { return &cells[i]; } static int un(T t) { return (int)(t - cells); }
#else
using T = uint64_t;
static T mk(int i) { return (uint64_t)i; } static int un(T t) { return (int)t; }
#endif
static lf::deque<T> *D; 
int payload[16];                       // written by the owner before pushing, read by whoever obtains the item
int got[4][8], val[4][8], ngot[4], nothing[4], lost[4]; int pushed = 0; bool popEmptyBad = false; bool midSize = false;
#ifdef NOPAY // items only, not what was written before the push (fewer case splits)
static void take(int who, T t) { got[who][ngot[who]] = un(t); val[who][ngot[who]] = 100 + un(t); ++ngot[who]; }
#else
static void take(int who, T t) { int i = un(t); if ((i < 0) | (i >= 16)) { got[who][ngot[who]] = -1; val[who][ngot[who]] = 0; } else { got[who][ngot[who]] = i; val[who][ngot[who]] = payload[i]; } ++ngot[who]; }
#endif
static void push(int &k) { int i = k++; payload[i] = 100 + i; D->push(mk(i)); }
static void owner(void *) {
  int k = PRE;
  for (char const *c = OPSTR; *c; ++c) {
    if (*c == 'P' || (*c == '?' && vp_choice(2))) push(k);
    else { auto r = D->pop(); if (r) take(0, *r); else ++nothing[0]; }
  }
  pushed = k;
}
static void thief(void *p) {
  int me = (int)(long)p;
  for (int s = 0; s < STEALS; ++s) { auto r = D->steal(); if (r.code == lf::err::none) take(me, *r); else if (r.code == lf::err::empty) ++nothing[me]; else if (r.code == lf::err::lost) ++lost[me]; else vp_fail("unknown steal result"); }
}
extern "C" void vp_main() {
  auto live = vp_live();
  {
    lf::deque<T> d(CAP); D = &d; int k = 0;
    for (int i = 0; i < SHIFT; ++i) { d.push(mk(15)); (void)d.pop(); d.push(mk(15)); vp_assert((bool)d.steal(), "uncontended steal"); }
    for (int i = 0; i < PRE; ++i) push(k);
    void (*f[1 + THIEVES])(void *); void *a[1 + THIEVES]; f[0] = owner; a[0] = nullptr;
    for (long t = 1; t <= THIEVES; ++t) f[t] = thief, a[t] = (void *)t;
    vp_par(1 + THIEVES, f, a);
    // what is left
    int rest[16], n = 0; 
    for (int i = 0; i < 8; ++i) { auto r = d.pop(); if (!r) break; rest[n++] = un(*r); }
    int cnt[16] = {}; bool bad = false, wrong = false; int obtained = 0;
    for (int w = 0; w <= THIEVES; ++w) for (int j = 0; j < 8; ++j) {
      bool in = j < ngot[w]; obtained += in; bad |= in & ((got[w][j] < 0) | (got[w][j] >= 16)); wrong |= in & (val[w][j] != 100 + got[w][j]);
      for (int i = 0; i < 16; ++i) cnt[i] += in & (got[w][j] == i);
    }
    for (int j = 0; j < n; ++j) for (int i = 0; i < 16; ++i) cnt[i] += rest[j] == i;
    bool lostItem = false, dup = false, inv = bad;
    for (int i = 0; i < 16; ++i) { lostItem |= (i < pushed) & (cnt[i] == 0); dup |= cnt[i] > 1; inv |= (i >= pushed) & (cnt[i] > 0); }
    vp_assert(!inv, "no item is invented"); vp_assert(!dup, "no item is obtained twice"); vp_assert(!lostItem, "no item is lost");
    vp_assert(!wrong, "what was written before pushing is visible to whoever obtains the item");
    int st = 0, lo = 0; for (int t = 1; t <= THIEVES; ++t) st += nothing[t], lo += lost[t];
    vp_assert(!(st > 0) | (obtained >= PRE), "a steal finds nothing only if everything that was there before has been taken");
    int byThieves = 0; for (int t = 1; t <= THIEVES; ++t) byThieves += ngot[t];
    vp_assert(!(nothing[0] > 0) | (byThieves + ngot[0] >= PRE), "a pop finds nothing only if everything that was there before has been taken");
    vp_assert(!(lo > 0) | (obtained > 0), "a steal loses only to someone who obtained an item");
    bool ordered = true; for (int t = 1; t <= THIEVES; ++t) for (int j = 1; j < STEALS; ++j) ordered &= !(j < ngot[t]) | (got[t][j] > got[t][j - 1]);
    vp_assert(ordered, "thieves obtain the oldest items first");
    vp_reach_if(byThieves > 0, "stolen"); vp_reach_if(ngot[0] > 0, "popped"); vp_reach_if(st > 0, "steal on empty"); vp_reach_if(lo > 0, "lost"); vp_reach_if(nothing[0] > 0, "pop on empty"); vp_reach_if(n > 0, "left");
    vp_reach("end");
  }
  vp_assert(vp_live() == live, "nothing leaks");
}
