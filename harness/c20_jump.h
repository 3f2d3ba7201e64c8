// Generated by tools/mkjump.py: coefficients (lowest first) of x^(2^128) and x^(2^192) modulo the characteristic polynomial.
#pragma once
#include <cstdint>
static const uint64_t JUMP[4] = {0x180ec6d33cfd0abaull, 0xd5a61266f0c9392cull, 0xa9582618e03fc9aaull, 0x39abdc4529b1661cull};
static const uint64_t LONG_JUMP[4] = {0x76e15d3efefdcbbfull, 0xc5004e441c522fb3ull, 0x77710069854ee241ull, 0x39109bb02acbe635ull};
