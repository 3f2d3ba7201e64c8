// Harness interface: symbolic when executed by the engine, replayed when compiled natively with vp_native.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vp_sym(unsigned bits, char const *name);  // arbitrary value of that many bits
int vp_choice(unsigned n);                          // arbitrary value in [0,n): every value is explored
void vp_assume(bool c);
void vp_assert(bool c, char const *what);
[[noreturn]] void vp_fail(char const *what);
void vp_reach_if(int cond, char const *label);      // the same under a condition, only in the axiomatic mode
void vp_reach(char const *label);                   // reachability witness
int vp_spawn(void (*f)(void *), void *arg);         // new (suspended) thread of control with its own thread_locals
void vp_switch(int id);                             // continue another thread of control
int vp_self();
int64_t vp_live();                                  // heap blocks + exception objects outstanding
uint64_t vp_heap_bytes();                           // total size of the live heap blocks
bool vp_valid(void const *p, size_t n);             // p[0..n) lies inside one live heap block
void vp_oom(int n);                                 // up to n of the following allocations may fail
void vp_note(char const *s, uint64_t v);
[[noreturn]] void vp_end();                         // end this execution
void vp_auto(int preemptions);                      // automatic scheduling at synchronisation operations
void vp_par(int n, void (**f)(void *), void **arg); // axiomatic: run n threads in parallel and join
}
#define VP_BOOL(name) (vp_sym(1, name) != 0)
#define VP_NOINLINE __attribute__((noinline))
// N bytes that stay in the frame of the task that has them (a plain array would be taken apart by the optimiser).
VP_NOINLINE inline void vp_fill(char *b, int n, char x) { b[0] = b[n / 2] = b[n - 1] = x; }
VP_NOINLINE inline bool vp_filled(char const *b, int n, char x) { return (b[0] == x) & (b[n / 2] == x) & (b[n - 1] == x); }
template <int N> struct Pad {
  char b[N];
  Pad(int x) { vp_fill(b, N, (char)x); }
  void check(int x) const { vp_assert(vp_filled(b, N, (char)x), "contents of the task frame preserved"); }
};
