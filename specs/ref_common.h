// Shared part of the reference-model contracts (diff/ref.cpp).
#pragma once
#include "vc.h"
#include "isa_spec.h"
#include "umap_model.h"
#include "ref.h"
#include "Csr.h"
#include <new>

static Raw<RefCpu> g_cpu;        // the object under contract
static CPU_state g_old;          // pre-state
static uint8_t g_old_priv;
#define CPU (g_cpu.v)
static uint32_t *g_ram;          // abstract RAM contents, [0x80000000,0xC0000000)
static uint32_t *g_ram0;         // pre-state of the RAM
static uint8_t *g_iop0;
static uint32_t *g_iov0;
static const uint32_t RAM_LO = 0x80000000u, RAM_HI = 0xC0000000u;

extern long long sim_time;
static uint64_t g_time, g_timecmp; // the machine timer as programmed

// arbitrary machine state satisfying the representation invariant
static void ref_arbitrary() {
  um_install();
  g_ram = (uint32_t *)vc_new_array(RAM_HI - RAM_LO, 4, "ram");
  vc_havoc(&CPU, sizeof(RefCpu), "cpu");
  CPU.memory = g_ram;
#ifdef VC_NATIVE
  new (&CPU.io_words) UMap();
  um_fill(CPU.io_words);
#endif
  // arbitrary 64-bit timer, set through the memory-mapped interface itself
  vc_havoc(&sim_time, sizeof sim_time, "sim_time");
  vc_assume(sim_time >= 0);
  uint32_t tl = vc_u32("timer_lo"), th = vc_u32("timer_hi"), cl = vc_u32("cmp_lo"), ch = vc_u32("cmp_hi");
  CPU.store_word(OPENSBI_TIMER_LOW_ADDR, tl);
  CPU.store_word(OPENSBI_TIMER_HIGH_ADDR, th);
  CPU.store_word(OPENSBI_TIMERCMP_LOW_ADDR, cl);
  CPU.store_word(OPENSBI_TIMERCMP_HIGH_ADDR, ch);
  g_time = ((uint64_t)th << 32) | tl; g_timecmp = ((uint64_t)ch << 32) | cl;
  vc_assume(CPU.privilege == 0 || CPU.privilege == 1 || CPU.privilege == 3);
  vc_assume(CPU.state.gpr[0] == 0);
}
static void ref_snapshot() {
  g_old = CPU.state;
  g_old_priv = CPU.privilege;
#ifdef VC_NATIVE
  // shadow copies hold the initial contents given by the model
  g_ram0 = (uint32_t *)vc_new_array(RAM_HI - RAM_LO, 4, "ram_shadow");
  uint64_t i, v;
  for (size_t k = 0; vc_model_arr("ram", k, &i, &v); k++) if (i < (RAM_HI - RAM_LO) / 4) g_ram0[i] = (uint32_t)v;
  g_iop0 = um_present; g_iov0 = um_value; // the native map is a separate object
#else
  g_ram0 = (uint32_t *)vc_new_array(RAM_HI - RAM_LO, 4, "ram0");
  g_iop0 = (uint8_t *)vc_new_array(1ull << 30, 1, "iop0");
  g_iov0 = (uint32_t *)vc_new_array(1ull << 32, 4, "iov0");
  vc_arr_copy(g_ram0, g_ram); vc_arr_copy(g_iop0, um_present); vc_arr_copy(g_iov0, um_value);
#endif
}
static inline bool in_ram(uint32_t a) { return a >= RAM_LO && a < RAM_HI; }
// word at an address, before / after the step
static inline uint32_t mem_old(uint32_t a) {
  a &= ~3u;
  if (in_ram(a)) return g_ram0[(a - RAM_LO) >> 2];
  return g_iop0[a >> 2] ? g_iov0[a >> 2] : 0;
}
static inline uint32_t mem_new(uint32_t a) {
  a &= ~3u;
#ifdef VC_NATIVE
  return CPU.load_word(a);
#else
  if (in_ram(a)) return g_ram[(a - RAM_LO) >> 2];
  return um_get(a);
#endif
}
// contract of RefCpu::load_word (proved by driver ref_load_word)
static uint32_t g_fetch_pc, g_inst; static unsigned g_loads;
static uint32_t load_word_contract(const RefCpu *, uint32_t addr) {
  if (g_loads++ == 0 && addr == g_fetch_pc) return g_inst; // precondition: mem(pc) == g_inst
  return mem_new(addr);
}
static void use_load_word_contract() { vc_replace(vc_fn(&RefCpu::load_word), (const void *)load_word_contract); }
// the instruction word at pc; untranslated fetch
static uint32_t fetch_bare(uint32_t mask = 0, uint32_t match = 0) {
  // translation is off: machine mode, or satp.MODE = Bare
  if (vc_choose(2)) { CPU.privilege = 3; } else { CPU.state.csr[csr_satp] &= 0x7fffffffu; }
  g_old = CPU.state; g_old_priv = CPU.privilege;
  vc_assume((CPU.state.pc & 3) == 0);
  g_fetch_pc = CPU.state.pc; g_inst = (vc_u32("inst") & ~mask) | match; g_loads = 0;
  vc_assume(mem_old(g_fetch_pc) == g_inst);
  use_load_word_contract();
  return g_inst;
}
// no interrupt is pending and enabled (so none is taken in this step)
static bool no_interrupt() {
  bool mtip = g_time >= g_timecmp;
  uint32_t mip = (g_old.csr[csr_mip] & ~0x80u) | (mtip ? 0x80u : 0);
  return (mip & g_old.csr[csr_mie] & 0xaaau) == 0;
}
// contract used where no trap may be taken
static void exception_unreachable(RefCpu *, uint32_t) { vc_assert(false, "no trap is taken"); vc_assume(false); }
static void forbid_trap() { vc_replace(vc_fn(&RefCpu::exception), (const void *)exception_unreachable); }
static inline bool is_timer_reg(uint32_t a) { return (a & ~0xfu) == 0x1fd0e000u; }
