// SoftFloat as uninterpreted operations.
#include <cstdint>
#include "vc.h"
#ifndef VC_NATIVE
// SoftFloat is linked as a prebuilt library: each operation is an
// uninterpreted (deterministic) function of operands and rounding mode.
extern "C" {
#include "softfloat.h"
uint_fast8_t softfloat_roundingMode, softfloat_exceptionFlags, softfloat_detectTininess;
static float32_t mk(uint32_t v) { float32_t f; f.v = v; return f; }
#define RM ((uint32_t)softfloat_roundingMode)
static bool isnan_(uint32_t v) { return (v << 1) > 0xff000000u; }
// a NaN operand gives some NaN; otherwise a - b is a + (-b)
float32_t f32_add(float32_t a, float32_t b) { bool n = isnan_(a.v) || isnan_(b.v); return mk(vc_uf("f32_add", 3, a.v, b.v, RM, 0) | (n ? 0x7fc00000u : 0)); }
float32_t f32_sub(float32_t a, float32_t b) { bool n = isnan_(a.v) || isnan_(b.v); return mk(n ? vc_uf("f32_sub", 3, a.v, b.v, RM, 0) | 0x7fc00000u : vc_uf("f32_add", 3, a.v, b.v ^ 0x80000000u, RM, 0)); }
float32_t f32_mul(float32_t a, float32_t b) { return mk(vc_uf("f32_mul", 3, a.v, b.v, RM, 0)); }
float32_t f32_div(float32_t a, float32_t b) { return mk(vc_uf("f32_div", 3, a.v, b.v, RM, 0)); }
float32_t f32_sqrt(float32_t a) { return mk(vc_uf("f32_sqrt", 2, a.v, RM, 0, 0)); }
float32_t f32_mulAdd(float32_t a, float32_t b, float32_t c) { return mk(vc_uf("f32_mulAdd", 4, a.v, b.v, c.v, RM)); }
// comparisons: exact definition (IEEE 754, quiet results)
bool f32_eq(float32_t a, float32_t b) { return !isnan_(a.v) && !isnan_(b.v) && (a.v == b.v || ((a.v | b.v) << 1) == 0); }
bool f32_lt(float32_t a, float32_t b) {
  if (isnan_(a.v) || isnan_(b.v)) return false;
  bool sa = a.v >> 31, sb = b.v >> 31;
  return sa != sb ? sa && ((a.v | b.v) << 1) != 0 : a.v != b.v && (sa ^ (a.v < b.v));
}
bool f32_le(float32_t a, float32_t b) {
  if (isnan_(a.v) || isnan_(b.v)) return false;
  bool sa = a.v >> 31, sb = b.v >> 31;
  return sa != sb ? sa || ((a.v | b.v) << 1) == 0 : a.v == b.v || (sa ^ (a.v < b.v));
}
bool f32_isSignalingNaN(float32_t a) { return isnan_(a.v) && !((a.v >> 22) & 1); }
// conversions: this build of the library returns INT_MIN / UINT_MAX for everything out of range
int_fast32_t f32_to_i32(float32_t a, uint_fast8_t rm, bool) { return (a.v << 1) >= 0x9e000000u ? INT32_MIN : (int32_t)vc_uf("f32_to_i32", 2, a.v, rm, 0, 0); }
uint_fast32_t f32_to_ui32(float32_t a, uint_fast8_t rm, bool) { return isnan_(a.v) || (a.v < 0x80000000u && a.v >= 0x4f800000u) ? UINT32_MAX : vc_uf("f32_to_ui32", 2, a.v, rm, 0, 0); }
static float32_t number(uint32_t v) { return mk(isnan_(v) ? 0 : v); } // an integer never converts to a NaN
float32_t i32_to_f32(int32_t a) { return number(vc_uf("i32_to_f32", 2, (uint32_t)a, RM, 0, 0)); }
float32_t ui32_to_f32(uint32_t a) { return number(vc_uf("ui32_to_f32", 2, a, RM, 0, 0)); }
}
#endif
