#pragma once
// IEEE-754 binary32 oracle on top of the host's SSE unit (explicit rounding
// mode). Ties-away rounding is derived from the exact double result.
#include <cfenv>
#include <cmath>
#include <cstdint>
#include <cstring>

namespace vp {
namespace fp {

enum { RNE = 0, RTZ = 1, RDN = 2, RUP = 3, RMM = 4 };
constexpr uint32_t QNAN = 0x7fc00000u;

inline float tof(uint32_t v) {
  float f;
  std::memcpy(&f, &v, 4);
  return f;
}
inline uint32_t tou(float f) {
  uint32_t v;
  std::memcpy(&v, &f, 4);
  return v;
}
inline bool isnan_(uint32_t v) { return (v & 0x7fffffffu) > 0x7f800000u; }
inline int host_mode(int rm) {
  switch (rm) {
  case RTZ: return FE_TOWARDZERO;
  case RDN: return FE_DOWNWARD;
  case RUP: return FE_UPWARD;
  default: return FE_TONEAREST;
  }
}

enum Op { ADD, SUB, MUL, DIV, SQRT };

__attribute__((noinline)) inline uint32_t raw(Op op, uint32_t ua, uint32_t ub,
                                              int host) {
  volatile float a = tof(ua), b = tof(ub), r = 0;
  const int old = fegetround();
  fesetround(host);
  switch (op) {
  case ADD: r = a + b; break;
  case SUB: r = a - b; break;
  case MUL: r = a * b; break;
  case DIV: r = a / b; break;
  case SQRT: {
    volatile float t;
    float in = a;
    asm volatile("sqrtss %1, %0" : "=x"(t) : "x"(in));
    r = t;
    break;
  }
  }
  fesetround(old);
  return tou(r);
}

__attribute__((noinline)) inline double rawd(Op op, uint32_t ua, uint32_t ub) {
  volatile double a = tof(ua), b = tof(ub), r = 0;
  switch (op) {
  case ADD: r = a + b; break;
  case SUB: r = a - b; break;
  case MUL: r = a * b; break;
  case DIV: r = a / b; break;
  case SQRT: r = a; break;
  }
  return r;
}

// Correctly rounded result of one operation.
inline uint32_t arith(Op op, uint32_t a, uint32_t b, int rm) {
  uint32_t r = raw(op, a, b, host_mode(rm));
  if (isnan_(r))
    return QNAN;
  if (rm != RMM || op == SQRT)
    return r;
  const uint32_t lo = raw(op, a, b, FE_DOWNWARD);
  const uint32_t hi = raw(op, a, b, FE_UPWARD);
  if (lo == hi || isnan_(lo) || isnan_(hi))
    return r;
  const float flo = tof(lo), fhi = tof(hi);
  if (std::isinf(flo) || std::isinf(fhi)) {
    // Between the largest finite number and infinity: the midpoint is
    // max + half an ulp (2^103).
    const double mid = 340282346638528859811704183484516925440.0 +
                       10141204801825835211973625643008.0;
    const double e = rawd(op, a, b);
    if (std::fabs(e) >= mid)
      return e < 0 ? 0xff800000u : 0x7f800000u;
    return e < 0 ? hi : lo;
  }
  const double mid = (static_cast<double>(flo) + static_cast<double>(fhi)) / 2;
  if (rawd(op, a, b) == mid) // exact tie: away from zero
    return mid < 0 ? lo : hi;
  return r;
}

__attribute__((noinline)) inline uint32_t fma_raw(uint32_t ua, uint32_t ub,
                                                  uint32_t uc, int host) {
  volatile float a = tof(ua), b = tof(ub), c = tof(uc);
  const int old = fegetround();
  fesetround(host);
  volatile float r = __builtin_fmaf(a, b, c);
  fesetround(old);
  return tou(r);
}
inline uint32_t fma_(uint32_t ua, uint32_t ub, uint32_t uc, int rm) {
  const uint32_t r = fma_raw(ua, ub, uc, host_mode(rm));
  if (isnan_(r))
    return QNAN;
  if (rm != RMM)
    return r;
  const uint32_t lo = fma_raw(ua, ub, uc, FE_DOWNWARD);
  const uint32_t hi = fma_raw(ua, ub, uc, FE_UPWARD);
  if (lo == hi || (lo | hi) == 0x80000000u)
    return r;
  // sum + err is the exact value (the product is exact in double precision)
  volatile double p = static_cast<double>(tof(ua)) * tof(ub), c = tof(uc);
  volatile double sum = p + c;
  volatile double bb = sum - p;
  volatile double err = (p - (sum - bb)) + (c - bb);
  const float flo = tof(lo), fhi = tof(hi);
  if (std::isinf(flo) || std::isinf(fhi)) {
    const double mid = 340282346638528859811704183484516925440.0 +
                       10141204801825835211973625643008.0;
    const double m = std::fabs(sum), e = sum < 0 ? -err : err;
    if (m > mid || (m == mid && e >= 0))
      return sum < 0 ? 0xff800000u : 0x7f800000u;
    return sum < 0 ? hi : lo;
  }
  const double mid = (static_cast<double>(flo) + static_cast<double>(fhi)) / 2;
  if (sum == mid && err == 0)
    return mid < 0 ? lo : hi;
  return r;
}

inline uint32_t minmax(uint32_t a, uint32_t b, bool is_max) {
  if (isnan_(a) && isnan_(b))
    return QNAN;
  if (isnan_(a))
    return b;
  if (isnan_(b))
    return a;
  const float fa = tof(a), fb = tof(b);
  bool pick_a;
  if (fa == fb)
    pick_a = is_max ? !(a >> 31) : (a >> 31);
  else
    pick_a = is_max ? fa > fb : fa < fb;
  return pick_a ? a : b;
}

inline uint32_t cmp(uint32_t a, uint32_t b, int funct3) {
  const float fa = tof(a), fb = tof(b);
  if (isnan_(a) || isnan_(b))
    return 0;
  return funct3 == 2 ? fa == fb : funct3 == 1 ? fa < fb : fa <= fb;
}

inline uint32_t classify(uint32_t v) {
  const bool s = v >> 31;
  const uint32_t e = (v >> 23) & 255, m = v & 0x7fffff;
  if (e == 255)
    return m ? ((m >> 22) ? 1u << 9 : 1u << 8) : (s ? 1u << 0 : 1u << 7);
  if (e == 0)
    return m ? (s ? 1u << 2 : 1u << 5) : (s ? 1u << 3 : 1u << 4);
  return s ? 1u << 1 : 1u << 6;
}

inline double round_d(double d, int rm) {
  switch (rm) {
  case RTZ: return std::trunc(d);
  case RDN: return std::floor(d);
  case RUP: return std::ceil(d);
  case RMM: return std::round(d);
  default: {
    const double f = std::floor(d), df = d - f;
    if (df < 0.5)
      return f;
    if (df > 0.5)
      return f + 1;
    return std::fmod(f, 2.0) == 0 ? f : f + 1;
  }
  }
}

inline uint32_t to_int(uint32_t v, bool is_unsigned, int rm) {
  if (isnan_(v))
    return is_unsigned ? 0xffffffffu : 0x7fffffffu;
  const double d = round_d(static_cast<double>(tof(v)), rm);
  if (is_unsigned) {
    if (d <= 0)
      return 0;
    if (d >= 4294967296.0)
      return 0xffffffffu;
    return static_cast<uint32_t>(d);
  }
  if (d >= 2147483648.0)
    return 0x7fffffffu;
  if (d < -2147483648.0)
    return 0x80000000u;
  return static_cast<uint32_t>(static_cast<int32_t>(d));
}

__attribute__((noinline)) inline uint32_t d2f(double d, int host) {
  volatile double x = d;
  const int old = fegetround();
  fesetround(host);
  volatile float r = static_cast<float>(x);
  fesetround(old);
  return tou(r);
}

inline uint32_t from_int(uint32_t v, bool is_unsigned, int rm) {
  const double d = is_unsigned ? static_cast<double>(v)
                               : static_cast<double>(static_cast<int32_t>(v));
  const uint32_t r = d2f(d, host_mode(rm));
  if (rm != RMM)
    return r;
  const uint32_t lo = d2f(d, FE_DOWNWARD), hi = d2f(d, FE_UPWARD);
  if (lo != hi &&
      d == (static_cast<double>(tof(lo)) + static_cast<double>(tof(hi))) / 2)
    return d < 0 ? lo : hi;
  return r;
}

} // namespace fp
} // namespace vp
