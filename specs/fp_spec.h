// Zfinx specification; arithmetic goes through the (uninterpreted) SoftFloat
// operations, everything else is written out.
#pragma once
#include <cstdint>
#include "isa_spec.h"
extern "C" {
#include "softfloat.h"
}
namespace fps {
static inline bool nan32(uint32_t v) { return (v << 1) > 0xff000000u; }
static inline bool lt32(uint32_t a, uint32_t b) {
  if (nan32(a) || nan32(b)) return false;
  if ((a | b) << 1 == 0) return false;
  bool sa = a >> 31, sb = b >> 31;
  if (sa != sb) return sa;
  return sa ? b < a : a < b;
}
static inline uint32_t fclass(uint32_t v) {
  uint32_t e = (v >> 23) & 255, m = v & 0x7fffff; bool s = v >> 31;
  if (e == 255 && m) return (m >> 22) ? 1u << 9 : 1u << 8;
  if (e == 255) return s ? 1u : 1u << 7;
  if (e == 0 && m == 0) return s ? 1u << 3 : 1u << 4;
  if (e == 0) return s ? 1u << 2 : 1u << 5;
  return s ? 1u << 1 : 1u << 6;
}
struct FpDef { uint32_t mask, match; };
static const FpDef FPS[] = {
  {0xfe00007f, 0x00000053}, {0xfe00007f, 0x08000053}, {0xfe00007f, 0x10000053}, {0xfe00007f, 0x18000053}, {0xfff0007f, 0x58000053}, // add sub mul div sqrt
  {0xfe00707f, 0x20000053}, {0xfe00707f, 0x20001053}, {0xfe00707f, 0x20002053}, // sgnj
  {0xfe00707f, 0x28000053}, {0xfe00707f, 0x28001053}, // min max
  {0xfe00707f, 0xa0002053}, {0xfe00707f, 0xa0001053}, {0xfe00707f, 0xa0000053}, // eq lt le
  {0xfff0007f, 0xc0000053}, {0xfff0007f, 0xc0100053}, {0xfff0007f, 0xd0000053}, {0xfff0007f, 0xd0100053}, // cvt
  {0xfff0707f, 0xe0001053}, // class
  {0x0600007f, 0x43}, {0x0600007f, 0x47}, {0x0600007f, 0x4b}, {0x0600007f, 0x4f}}; // fused
// an arithmetic NaN is the canonical one
static inline uint32_t canon(float32_t f) { return nan32(f.v) ? 0x7fc00000u : f.v; }
static inline float32_t F(uint32_t v) { float32_t f; f.v = v; return f; }
// value of instruction FPS[k] for operands a, b, c
static inline uint32_t value(uint32_t k, uint32_t inst, uint32_t a, uint32_t b, uint32_t c) {
  uint32_t N = 0x80000000u, rm = isa::f3(inst) == 7 ? 0 : isa::f3(inst); // dynamic rounding: no fcsr, round to nearest even
  softfloat_roundingMode = rm == 0 ? softfloat_round_near_even : rm == 1 ? softfloat_round_minMag : rm == 2 ? softfloat_round_min : rm == 3 ? softfloat_round_max : softfloat_round_near_maxMag;
  uint_fast8_t srm = softfloat_roundingMode;
  switch (k) {
  case 0: return canon(f32_add(F(a), F(b)));
  case 1: return canon(f32_sub(F(a), F(b)));
  case 2: return canon(f32_mul(F(a), F(b)));
  case 3: return canon(f32_div(F(a), F(b)));
  case 4: return canon(f32_sqrt(F(a)));
  case 5: return (a & ~N) | (b & N);
  case 6: return (a & ~N) | (~b & N);
  case 7: return a ^ (b & N);
  case 8: return nan32(a) ? (nan32(b) ? 0x7fc00000u : b) : nan32(b) ? a : lt32(a, b) ? a : lt32(b, a) ? b : (a >> 31) ? a : b;
  case 9: return nan32(a) ? (nan32(b) ? 0x7fc00000u : b) : nan32(b) ? a : lt32(a, b) ? b : lt32(b, a) ? a : (a >> 31) ? b : a;
  case 10: return !nan32(a) && !nan32(b) && (a == b || ((a | b) << 1) == 0);
  case 11: return lt32(a, b);
  case 12: return !nan32(a) && !nan32(b) && !lt32(b, a);
  case 13: return nan32(a) || (!(a >> 31) && a >= 0x4f000000u) ? 0x7fffffffu : a > 0xcf000000u ? N : (uint32_t)f32_to_i32(F(a), srm, true);
  case 14: return nan32(a) || (!(a >> 31) && a >= 0x4f800000u) ? 0xffffffffu : (a >> 31) ? 0 : (uint32_t)f32_to_ui32(F(a), srm, true);
  case 15: return i32_to_f32((int32_t)a).v;
  case 16: return ui32_to_f32(a).v;
  case 17: return fclass(a);
  case 18: return canon(f32_mulAdd(F(a), F(b), F(c)));
  case 19: return canon(f32_mulAdd(F(a), F(b), F(c ^ N)));
  case 20: return canon(f32_mulAdd(F(a ^ N), F(b), F(c)));
  default: return canon(f32_mulAdd(F(a ^ N), F(b), F(c ^ N)));
  }
}
} // namespace fps
