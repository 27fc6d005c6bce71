#pragma once
// Random numbers and operand values with the corner cases favoured.
#include "../iss/fp.h"
#include <cstdint>

namespace fp = vp::fp;
static uint64_t rng_state;
static uint64_t r64() { // splitmix
  uint64_t z = (rng_state += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint32_t rn(uint32_t n) { return static_cast<uint32_t>(r64() % n); }
static bool pct(unsigned p) { return rn(100) < p; }
static uint32_t r32() { return static_cast<uint32_t>(r64()); }

// ---- operand values ------------------------------------------------------
static uint32_t boundary() {
  static const uint32_t k[] = {0, 1, 2, 3, 0xffffffffu, 0xfffffffeu, 0x7fffffffu,
                               0x80000000u, 0x80000001u, 0xffff, 0x10000, 0x8000,
                               0x7fff, 0xff, 0x80, 0x7f, 0x100, 0xffff8000u,
                               0xffffff80u, 31, 32, 33, 0x55555555u, 0xaaaaaaaau,
                               0x00ff00ffu, 0xff000000u, 0x01000000u};
  return k[rn(sizeof k / sizeof *k)];
}
static uint32_t fpval() {
  switch (rn(12)) {
  case 0: { // specials
    static const uint32_t k[] = {0, 0x80000000u, 0x7f800000u, 0xff800000u,
                                 0x7fc00000u, 0xffc00000u, 0x7f800001u,
                                 0x7fbfffffu, 0xff800001u, 0x7fffffffu, 1,
                                 0x80000001u, 0x007fffffu, 0x00800000u,
                                 0x807fffffu, 0x80800000u, 0x7f7fffffu,
                                 0xff7fffffu, 0x3f800000u, 0xbf800000u,
                                 0x3f7fffffu, 0x3f800001u, 0x4f000000u,
                                 0xcf000000u, 0x4effffffu, 0x4f800000u,
                                 0x4f7fffffu, 0xcf000001u, 0x3f000000u,
                                 0xbf000000u, 0x3effffffu, 0x4b000000u,
                                 0x4b7fffffu, 0x4b800000u};
    return k[rn(sizeof k / sizeof *k)];
  }
  case 1: // subnormal
    return (r32() & 0x80000000u) | (r32() & 0x7fffff);
  case 2: // few significant bits: ties and cancellation
    return (r32() & 0x80000000u) | (rn(255) << 23) |
           ((r32() & 7) << rn(21));
  case 3: // all ones below some bit
    return (r32() & 0x80000000u) | (rn(255) << 23) |
           ((1u << rn(24)) - 1);
  case 4: // near one
    return (r32() & 0x80000000u) | ((117 + rn(22)) << 23) | (r32() & 0x7fffff);
  case 5: // near the smallest normal
    return (r32() & 0x80000000u) | (rn(30) << 23) | (r32() & 0x7fffff);
  case 6: // near overflow
    return (r32() & 0x80000000u) | ((225 + rn(31)) << 23) | (r32() & 0x7fffff);
  case 7: // integers and halves
    return fp::tou(static_cast<float>(static_cast<int32_t>(r32()) >> rn(31)) / 2);
  case 8:
    return (r32() & 0x80000000u) | ((126 + rn(34)) << 23) |
           (pct(50) ? r32() & 0x7fffff : ~((1u << rn(23)) - 1) & 0x7fffff);
  default: return r32();
  }
}
static uint32_t value() {
  switch (rn(8)) {
  case 0: case 1: return boundary();
  case 2: return 1u << rn(32);
  case 3: return (1u << rn(32)) - 1;
  case 4: return ~(1u << rn(32));
  case 5: return static_cast<uint32_t>(static_cast<int32_t>(r32()) >> rn(32));
  default: return r32();
  }
}

