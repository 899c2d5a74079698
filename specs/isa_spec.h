// Independent executable specification of the RV32IM_Zba_Zbb_Zbc_Zbs(+pack)
// integer instructions, written from the ISA manual; shares no code with
// /repo.  Used as oracle for both the reference model and the pipeline.
#pragma once
#include <cstdint>

namespace isa {
static inline uint32_t bits(uint32_t x, int hi, int lo) { return (x >> lo) & (hi - lo == 31 ? ~0u : ((1u << (hi - lo + 1)) - 1)); }
static inline uint32_t sext(uint32_t x, int w) { uint32_t m = 1u << (w - 1); return (x ^ m) - m; }
static inline bool sless(uint32_t a, uint32_t b) { return (a ^ 0x80000000u) < (b ^ 0x80000000u); }
static inline uint32_t imm_i(uint32_t i) { return sext(bits(i, 31, 20), 12); }
static inline uint32_t imm_s(uint32_t i) { return sext((bits(i, 31, 25) << 5) | bits(i, 11, 7), 12); }
static inline uint32_t imm_b(uint32_t i) { return sext((bits(i, 31, 31) << 12) | (bits(i, 7, 7) << 11) | (bits(i, 30, 25) << 5) | (bits(i, 11, 8) << 1), 13); }
static inline uint32_t imm_u(uint32_t i) { return i & 0xfffff000u; }
static inline uint32_t imm_j(uint32_t i) { return sext((bits(i, 31, 31) << 20) | (bits(i, 19, 12) << 12) | (bits(i, 20, 20) << 11) | (bits(i, 30, 21) << 1), 21); }
static inline uint32_t opcode(uint32_t i) { return i & 0x7f; }
static inline uint32_t rd(uint32_t i) { return bits(i, 11, 7); }
static inline uint32_t rs1(uint32_t i) { return bits(i, 19, 15); }
static inline uint32_t rs2(uint32_t i) { return bits(i, 24, 20); }
static inline uint32_t f3(uint32_t i) { return bits(i, 14, 12); }
static inline uint32_t f7(uint32_t i) { return bits(i, 31, 25); }

enum : uint32_t { LUI = 0x37, AUIPC = 0x17, JAL = 0x6f, JALR = 0x67, BRANCH = 0x63, LOAD = 0x03, STORE = 0x23,
                  OPIMM = 0x13, OP = 0x33, FENCE = 0x0f, SYSTEM = 0x73, AMO = 0x2f, OPFP = 0x53 };

static inline uint32_t rotr(uint32_t x, uint32_t n) { n &= 31; return n == 0 ? x : (x >> n) | (x << (32 - n)); }
static inline uint32_t rotl(uint32_t x, uint32_t n) { n &= 31; return n == 0 ? x : (x << n) | (x >> (32 - n)); }
static inline uint32_t sra(uint32_t x, uint32_t n) { uint32_t r = x >> n; if ((x >> 31) && n) r |= ~(0xffffffffu >> n); return r; }
static inline uint32_t clz(uint32_t x) { uint32_t n = 32; for (int i = 0; i < 32; i++) if ((x >> i) & 1) n = 31 - i; return n; }
static inline uint32_t ctz(uint32_t x) { uint32_t n = 32; for (int i = 31; i >= 0; i--) if ((x >> i) & 1) n = i; return n; }
static inline uint32_t cpop(uint32_t x) { uint32_t n = 0; for (int i = 0; i < 32; i++) n += (x >> i) & 1; return n; }
static inline uint32_t rev8(uint32_t x) { return (x << 24) | ((x & 0xff00) << 8) | ((x >> 8) & 0xff00) | (x >> 24); }
static inline uint32_t orcb(uint32_t x) { uint32_t r = 0; for (int i = 0; i < 4; i++) if ((x >> (8 * i)) & 0xff) r |= 0xffu << (8 * i); return r; }
static inline uint64_t clmul64(uint32_t a, uint32_t b) { uint64_t r = 0; for (int i = 0; i < 32; i++) if ((b >> i) & 1) r ^= (uint64_t)a << i; return r; }
static inline uint32_t mulhsu_(int64_t a, int64_t b) { return (uint32_t)((uint64_t)(a * b) >> 32); }
static inline uint32_t div_s(uint32_t a, uint32_t b) {
  if (b == 0) return ~0u;
  if (a == 0x80000000u && b == ~0u) return a;
  return (uint32_t)((int32_t)a / (int32_t)b);
}
static inline uint32_t rem_s(uint32_t a, uint32_t b) {
  if (b == 0) return a;
  if (a == 0x80000000u && b == ~0u) return 0;
  return (uint32_t)((int32_t)a % (int32_t)b);
}

// Register-register and register-immediate computation.  Returns false when
// the encoding is not one of the defined computational instructions.
static inline bool compute(uint32_t inst, uint32_t pc, uint32_t a, uint32_t b, uint32_t &out) {
  uint32_t op = opcode(inst), fn3 = f3(inst), fn7 = f7(inst), sh = rs2(inst), i = imm_i(inst);
  if (op == LUI) { out = imm_u(inst); return true; }
  if (op == AUIPC) { out = pc + imm_u(inst); return true; }
  if (op == OPIMM) {
    switch (fn3) {
    case 0: out = a + i; return true;
    case 2: out = sless(a, i); return true;
    case 3: out = a < i; return true;
    case 4: out = a ^ i; return true;
    case 6: out = a | i; return true;
    case 7: out = a & i; return true;
    case 1:
      if (fn7 == 0x00) { out = a << sh; return true; }
      if (fn7 == 0x14) { out = a | (1u << sh); return true; }
      if (fn7 == 0x24) { out = a & ~(1u << sh); return true; }
      if (fn7 == 0x34) { out = a ^ (1u << sh); return true; }
      if (fn7 == 0x30) {
        if (sh == 0) { out = clz(a); return true; }
        if (sh == 1) { out = ctz(a); return true; }
        if (sh == 2) { out = cpop(a); return true; }
        if (sh == 4) { out = sext(a & 0xff, 8); return true; }
        if (sh == 5) { out = sext(a & 0xffff, 16); return true; }
      }
      return false;
    default: // 5
      if (fn7 == 0x00) { out = a >> sh; return true; }
      if (fn7 == 0x20) { out = sra(a, sh); return true; }
      if (fn7 == 0x30) { out = rotr(a, sh); return true; }
      if (fn7 == 0x24) { out = (a >> sh) & 1; return true; }
      if (fn7 == 0x34 && sh == 24) { out = rev8(a); return true; }
      if (fn7 == 0x14 && sh == 7) { out = orcb(a); return true; }
      return false;
    }
  }
  if (op == OP) {
    uint32_t n = b & 31;
    switch ((fn7 << 3) | fn3) {
    case 0x000: out = a + b; return true;
    case 0x100: out = a - b; return true;
    case 0x001: out = a << n; return true;
    case 0x002: out = sless(a, b); return true;
    case 0x003: out = a < b; return true;
    case 0x004: out = a ^ b; return true;
    case 0x005: out = a >> n; return true;
    case 0x105: out = sra(a, n); return true;
    case 0x006: out = a | b; return true;
    case 0x007: out = a & b; return true;
    // M
    case 0x008: out = a * b; return true;
    case 0x009: out = mulhsu_((int32_t)a, (int32_t)b); return true;
    case 0x00a: out = mulhsu_((int32_t)a, (int64_t)(uint64_t)b); return true;
    case 0x00b: out = (uint32_t)(((uint64_t)a * (uint64_t)b) >> 32); return true;
    case 0x00c: out = div_s(a, b); return true;
    case 0x00d: out = b == 0 ? ~0u : a / b; return true;
    case 0x00e: out = rem_s(a, b); return true;
    case 0x00f: out = b == 0 ? a : a % b; return true;
    // Zba
    case (0x10 << 3) | 2: out = b + (a << 1); return true;
    case (0x10 << 3) | 4: out = b + (a << 2); return true;
    case (0x10 << 3) | 6: out = b + (a << 3); return true;
    // Zbb
    case (0x20 << 3) | 7: out = a & ~b; return true;
    case (0x20 << 3) | 6: out = a | ~b; return true;
    case (0x20 << 3) | 4: out = ~(a ^ b); return true;
    case (0x05 << 3) | 4: out = sless(a, b) ? a : b; return true;
    case (0x05 << 3) | 5: out = a < b ? a : b; return true;
    case (0x05 << 3) | 6: out = sless(a, b) ? b : a; return true;
    case (0x05 << 3) | 7: out = a < b ? b : a; return true;
    case (0x30 << 3) | 1: out = rotl(a, n); return true;
    case (0x30 << 3) | 5: out = rotr(a, n); return true;
    // pack/packh (zext.h is pack with rs2 = x0)
    case (0x04 << 3) | 4: out = (a & 0xffff) | (b << 16); return true;
    case (0x04 << 3) | 7: out = (a & 0xff) | ((b & 0xff) << 8); return true;
    // Zbc
    case (0x05 << 3) | 1: out = (uint32_t)clmul64(a, b); return true;
    case (0x05 << 3) | 3: out = (uint32_t)(clmul64(a, b) >> 32); return true;
    case (0x05 << 3) | 2: out = (uint32_t)(clmul64(a, b) >> 31); return true;
    // Zbs
    case (0x24 << 3) | 1: out = a & ~(1u << n); return true;
    case (0x24 << 3) | 5: out = (a >> n) & 1; return true;
    case (0x34 << 3) | 1: out = a ^ (1u << n); return true;
    case (0x14 << 3) | 1: out = a | (1u << n); return true;
    default: return false;
    }
  }
  return false;
}

// Encoding table of the computational instructions (case split of the proofs);
// driver isa_table proves that it covers exactly the encodings of compute().
struct Pat { uint32_t mask, match; };
#define PI(f3) { 0x707f, ((uint32_t)(f3) << 12) | OPIMM }
#define PS(f7, f3) { 0xfe00707f, ((uint32_t)(f7) << 25) | ((uint32_t)(f3) << 12) | OPIMM }
#define PU(f7, r2, f3) { 0xfff0707f, ((uint32_t)(f7) << 25) | ((uint32_t)(r2) << 20) | ((uint32_t)(f3) << 12) | OPIMM }
#define PR(f7, f3) { 0xfe00707f, ((uint32_t)(f7) << 25) | ((uint32_t)(f3) << 12) | OP }
static const Pat kCompute[] = {
  { 0x7f, LUI }, { 0x7f, AUIPC },
  PI(0), PI(2), PI(3), PI(4), PI(6), PI(7),
  PS(0, 1), PS(0x14, 1), PS(0x24, 1), PS(0x34, 1), PU(0x30, 0, 1), PU(0x30, 1, 1), PU(0x30, 2, 1), PU(0x30, 4, 1), PU(0x30, 5, 1),
  PS(0, 5), PS(0x20, 5), PS(0x30, 5), PS(0x24, 5), PU(0x34, 24, 5), PU(0x14, 7, 5),
  PR(0, 0), PR(0x20, 0), PR(0, 1), PR(0, 2), PR(0, 3), PR(0, 4), PR(0, 5), PR(0x20, 5), PR(0, 6), PR(0, 7),
  PR(1, 0), PR(1, 1), PR(1, 2), PR(1, 3), PR(1, 4), PR(1, 5), PR(1, 6), PR(1, 7),
  PR(0x10, 2), PR(0x10, 4), PR(0x10, 6), PR(0x20, 7), PR(0x20, 6), PR(0x20, 4), PR(5, 4), PR(5, 5), PR(5, 6), PR(5, 7),
  PR(0x30, 1), PR(0x30, 5), PR(4, 4), PR(4, 7), PR(5, 1), PR(5, 3), PR(5, 2),
  PR(0x24, 1), PR(0x24, 5), PR(0x34, 1), PR(0x14, 1)
};
enum { N_COMPUTE = sizeof kCompute / sizeof kCompute[0] };
static inline bool is_compute(uint32_t inst) { bool r = false; for (int i = 0; i < N_COMPUTE; i++) r |= (inst & kCompute[i].mask) == kCompute[i].match; return r; }

// Conditional branches; returns false for undefined funct3.
static inline bool branch(uint32_t fn3, uint32_t a, uint32_t b, bool &taken) {
  switch (fn3) {
  case 0: taken = a == b; return true;
  case 1: taken = a != b; return true;
  case 4: taken = sless(a, b); return true;
  case 5: taken = !sless(a, b); return true;
  case 6: taken = a < b; return true;
  case 7: taken = !(a < b); return true;
  default: return false;
  }
}

// Atomic read-modify-write function (RV32A), funct5 of amo*.w
static inline bool amo(uint32_t f5, uint32_t old, uint32_t b, uint32_t &out) {
  switch (f5) {
  case 0x00: out = old + b; return true;
  case 0x01: out = b; return true;
  case 0x04: out = old ^ b; return true;
  case 0x08: out = old | b; return true;
  case 0x0c: out = old & b; return true;
  case 0x10: out = sless(old, b) ? old : b; return true;
  case 0x14: out = sless(old, b) ? b : old; return true;
  case 0x18: out = old < b ? old : b; return true;
  case 0x1c: out = old < b ? b : old; return true;
  default: return false;
  }
}
} // namespace isa
