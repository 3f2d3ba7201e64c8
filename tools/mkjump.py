#!/usr/bin/env python3
"""Jump polynomials of xoshiro256: x^(2^128) and x^(2^192) modulo the characteristic polynomial of the published step.
Writes harness/c20_jump.h. Nothing here is taken from the repository."""
import pathlib
M = (1 << 64) - 1
rotl = lambda x, k: ((x << k) | (x >> (64 - k))) & M
def step(s):
    t = (s[1] << 17) & M
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45)
# minimal polynomial by Berlekamp-Massey on one bit of the state
s = [1, 2, 3, 4]; seq = []
for _ in range(600): seq.append(s[0] & 1); step(s)
def bm(seq):
    C, B, L, m = 1, 1, 0, 1
    for n, _ in enumerate(seq):
        d = seq[n]
        for i in range(1, L + 1): d ^= (C >> i & 1) & seq[n - i]
        if d:
            T = C; C ^= B << m
            if 2 * L <= n: L, B, m = n + 1 - L, T, 1
            else: m += 1
        else: m += 1
    return C, L
C, L = bm(seq); assert L == 256
P = int(bin(C | 1 << 257)[3:].rjust(257, '0')[::-1], 2)  # reciprocal: characteristic polynomial
P = sum(1 << (256 - i) for i in range(257) if C >> i & 1)
def red(a):
    while a.bit_length() > 256: a ^= P << (a.bit_length() - 257)
    return a
def sq(a):
    r = 0; i = 0
    while a >> i:
        if a >> i & 1: r |= 1 << (2 * i)
        i += 1
    return red(r)
def xpow2(k):
    a = 2
    for _ in range(k): a = sq(a)
    return a
def words(a): return ', '.join('0x%016xull' % (a >> 64 * i & M) for i in range(4))
if __name__ == '__main__':
    o = pathlib.Path(__file__).resolve().parent.parent / 'harness/c20_jump.h'
    o.write_text('// Generated by tools/mkjump.py: coefficients (lowest first) of x^(2^128) and x^(2^192) modulo the characteristic polynomial.\n'
        '#pragma once\n#include <cstdint>\nstatic const uint64_t JUMP[4] = {%s};\nstatic const uint64_t LONG_JUMP[4] = {%s};\n' % (words(xpow2(128)), words(xpow2(192))))
    print(o.read_text())
