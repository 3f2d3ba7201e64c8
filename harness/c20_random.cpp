// C20: the random engine against the published generator, from every state.
#include "vp.h"
#include "libfork/schedule.hpp"
#include "c20_jump.h"
#include <random>
#ifndef PART
#define PART 0
#endif
// xoshiro256** 1.0 as published by Blackman and Vigna
struct Ref {
  uint64_t s[4];
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() {
    uint64_t const r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  void jump(uint64_t const *j) {
    uint64_t a[4] = {};
    for (int i = 0; i < 256; ++i) { if (j[i / 64] >> (i % 64) & 1) for (int k = 0; k < 4; ++k) a[k] ^= s[k]; next(); }
    for (int k = 0; k < 4; ++k) s[k] = a[k];
  }
};
static bool same(lf::xoshiro const &a, Ref const &r) {
  static_assert(sizeof(a) == 32);
  uint64_t w[4]; __builtin_memcpy(w, &a, 32);
  return (w[0] == r.s[0]) & (w[1] == r.s[1]) & (w[2] == r.s[2]) & (w[3] == r.s[3]);
}
struct Source { using result_type = uint64_t; uint64_t v[4]; int n = 0; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ull; } uint64_t operator()() { return v[n++ & 3]; } };
extern "C" void vp_main() {
  uint64_t a = vp_sym(64, "s0"), b = vp_sym(64, "s1"), c = vp_sym(64, "s2"), d = vp_sym(64, "s3");
  lf::xoshiro e(std::array<uint64_t, 4>{a, b, c, d});
  Ref r{{a, b, c, d}};
  vp_assert(same(e, r), "seeding from words sets the state");
  vp_assert(lf::xoshiro::min() == 0 && lf::xoshiro::max() == ~0ull, "range of the engine");
#if PART == 0
  for (int i = 0; i < 4; ++i) {
    uint64_t x = e(), y = r.next();
    vp_assert(x == y, "output is that of xoshiro256**");
    vp_assert(same(e, r), "successor state is that of xoshiro256");
  }
  { lf::xoshiro f = e; vp_assert(same(f, r), "a copy has the same state"); f(); vp_assert(same(e, r), "using a copy does not change the original"); f = e; vp_assert(same(f, r), "assignment"); }
  { lf::xoshiro x, y; uint64_t k = x(); vp_assert(k == y(), "default engines agree"); Ref z{{0x8D0B73B52EA17D89, 0x2AA426A407C2B04F, 0xF513614E4798928A, 0xA65E479EC5B49D41}}; vp_assert(k == z.next() && same(x, z), "documented default state"); }
  { Source s{{a, b, c, d}}; lf::xoshiro f(lf::seed, s); Ref z{{a, b, c, d}}; vp_assert(same(f, z) && s.n == 4, "seeding from another generator takes four words"); }
#elif PART == 1
  e.jump(); r.jump(JUMP);
  vp_assert(same(e, r), "jump equals 2^128 steps");
#else
  e.long_jump(); r.jump(LONG_JUMP);
  vp_assert(same(e, r), "long jump equals 2^192 steps");
#endif
  vp_reach("end");
}
