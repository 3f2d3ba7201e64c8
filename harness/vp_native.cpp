// Native replay of a harness: inputs come from a file, threads of control are real threads run one at a time.
#include "vp.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <mutex>
#include <condition_variable>
#include <new>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
namespace {
struct In { std::string name; uint64_t v; };
std::vector<In> g_in; size_t g_pos = 0; bool g_loaded = false;
void load() {
  if (g_loaded) return; g_loaded = true;
  char const *f = getenv("VP_REPLAY"); if (!f) return;
  std::ifstream i(f); std::string n; 
  std::string line; while (std::getline(i, line)) { size_t k = line.rfind(' '); if (k != std::string::npos) g_in.push_back({line.substr(0, k), strtoull(line.c_str() + k + 1, nullptr, 10)}); }
}
uint64_t next(char const *name) {
  load();
  if (g_pos >= g_in.size()) { fprintf(stderr, "VP-REPLAY: input exhausted at %s\n", name); fflush(stderr); _exit(78); }
  if (g_in[g_pos].name != name) { fprintf(stderr, "VP-REPLAY: expected input %s, file has %s\n", name, g_in[g_pos].name.c_str()); _exit(78); }
  return g_in[g_pos++].v;
}
std::mutex g_m; std::condition_variable g_cv; int g_cur = 0; int g_n = 1; thread_local int t_id = 0;
std::atomic<int64_t> g_live{0}; int g_ready = 0; thread_local int t_nocount = 0; int g_oom = 0;
void wait_turn(std::unique_lock<std::mutex> &l) { int me = t_id; g_cv.wait(l, [me] { return g_cur == me; }); }
} // namespace
extern "C" void vp_main();
extern "C" {
#ifdef VP_ASAN
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
size_t __sanitizer_get_allocated_size(const volatile void *); void *__asan_region_is_poisoned(void *, size_t);
static std::atomic<uint64_t> g_bytes{0};
static void mh(const volatile void *, size_t n) { if (!t_nocount) { ++g_live; g_bytes += n; } }
static void fh(const volatile void *p) { if (p && !t_nocount) { --g_live; g_bytes -= __sanitizer_get_allocated_size(p); } }
uint64_t vp_heap_bytes() { return g_bytes; }
bool vp_valid(void const *p, size_t n) { return n < (1ull << 40) && __asan_region_is_poisoned((void *)p, n) == nullptr; }
#else
uint64_t vp_heap_bytes() { return 0; }
bool vp_valid(void const *, size_t) { return true; }
#endif
uint64_t vp_sym(unsigned bits, char const *name) { uint64_t v = next(name); return bits < 64 ? v & ((1ull << bits) - 1) : v; }
int vp_choice(unsigned n) { if (n == 1) return 0; return (int)next("choice"); }
void vp_assume(bool c) { if (!c) { fprintf(stderr, "VP-ASSUME-FALSE\n"); _exit(77); } }
void vp_fail(char const *w) { fprintf(stderr, "VP-VIOLATION: %s\n", w); fflush(stderr); _exit(42); }
void vp_assert(bool c, char const *w) { if (!c) vp_fail(w); }
void vp_reach(char const *l) { printf("REACH %s\n", l); }
int vp_spawn(void (*f)(void *), void *arg) {
  ++t_nocount; int id = g_n++;
  std::thread([=] { ++t_nocount; t_id = id; { std::unique_lock<std::mutex> l(g_m); ++g_ready; g_cv.notify_all(); wait_turn(l); } --t_nocount; f(arg); ++t_nocount; std::unique_lock<std::mutex> l(g_m); g_cur = 0; g_cv.notify_all(); }).detach();
  { std::unique_lock<std::mutex> l(g_m); g_cv.wait(l, [=] { return g_ready == id; }); }
  --t_nocount; return id;
}
void vp_switch(int id) { if (id == t_id) return; std::unique_lock<std::mutex> l(g_m); g_cur = id; g_cv.notify_all(); wait_turn(l); }
int vp_self() { return t_id; }
int64_t vp_live() { return g_live; }
void vp_oom(int n) { g_oom = n; }
void vp_note(char const *s, uint64_t v) { fprintf(stderr, "[note] %s %llu\n", s, (unsigned long long)v); }
void vp_end() { printf("END\n"); fflush(stdout); _exit(0); }
static bool oom_now() { if (g_oom > 0 && !t_nocount && next("oom")) { --g_oom; return true; } return false; }
void *__real_malloc(size_t); 
void *__wrap_malloc(size_t n) { if (oom_now()) return nullptr; return __real_malloc(n); }
}
#ifdef VP_OOM
extern "C" char __executable_start, etext;
static bool from_here(void *r) { return r >= (void *)&__executable_start && r < (void *)&etext; } // not from inside the standard library
void *operator new(size_t n) { if (from_here(__builtin_return_address(0)) && oom_now()) throw std::bad_alloc(); return __real_malloc(n ? n : 1); }
void *operator new[](size_t n) { if (from_here(__builtin_return_address(0)) && oom_now()) throw std::bad_alloc(); return __real_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
int main() {
  ++t_nocount; load(); setvbuf(stdout, nullptr, _IOLBF, 4096);
#ifdef VP_ASAN
  __sanitizer_install_malloc_and_free_hooks(mh, fh);
#endif
  printf("START\n"); --t_nocount;
  vp_main();
  ++t_nocount;
  printf("END\n"); fflush(stdout);
  _exit(0);
}
