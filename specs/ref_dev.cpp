// Contracts of the reference model: memory-mapped timer, UART, interrupt
// controller side effects.
#include "ref_common.h"
#include "priv_spec.h"
extern uint32_t vc_last_oracle_timer, vc_oracle_pushes;
static void begin(uint32_t &inst, uint32_t mask, uint32_t match) {
  ref_arbitrary(); ref_snapshot();
  inst = fetch_bare(mask, match);
  CPU.privilege = g_old_priv = 3; CPU.state.csr[csr_mstatus] &= ~(uint32_t)priv::MPRV; g_old = CPU.state;
  vc_assume(no_interrupt()); forbid_trap();
}
static void frame(uint32_t rd) {
  uint32_t r = vc_u32("reg"); vc_assume(r < 32);
  vc_assert((r == rd && r != 0) || CPU.state.gpr[r] == (r ? g_old.gpr[r] : 0), "other registers unchanged");
  vc_assert(CPU.state.pc == g_old.pc + 4 && CPU.privilege == g_old_priv, "next pc");
  uint32_t c = vc_u32("csr"); vc_assume(c < 21 && c != csr_mip && c != csr_sip);
  vc_assert(CPU.state.csr[c] == g_old.csr[c], "CSRs unchanged");
}
static uint32_t mip0() { return (g_old.csr[csr_mip] & ~0x80u) | (g_time >= g_timecmp ? 0x80u : 0); }
static uint32_t timer_word(uint32_t i) { return i == 0 ? (uint32_t)g_time : i == 1 ? (uint32_t)(g_time >> 32) : i == 2 ? (uint32_t)g_timecmp : (uint32_t)(g_timecmp >> 32); }
VC_DRIVER(ref_timer_load) {
  uint32_t i = vc_choose(4), inst;
  begin(inst, 0x707f, 0x2000 | isa::LOAD);
  vc_assume(g_old.gpr[isa::rs1(inst)] + isa::imm_i(inst) == 0x1fd0e000u + 4 * i);
  vc_cover("timer read");
  CPU.exec();
  uint32_t rd = isa::rd(inst), probe = vc_u32("probe");
  vc_assert(rd == 0 || CPU.state.gpr[rd] == timer_word(i), "timer register value");
  vc_assert(CPU.is_mmio_load, "reported as device access");
  vc_assert(i >= 2 || (vc_oracle_pushes == 1 && vc_last_oracle_timer == timer_word(i)), "time value published for the lock-step peer");
  vc_assert(mem_new(probe) == mem_old(probe), "memory unchanged");
  frame(rd);
}
// a timer store changes exactly the addressed half, seen by later reads and by the pending bit
VC_DRIVER(ref_timer_store) {
  uint32_t i = vc_choose(4), j = vc_choose(4), inst;
  begin(inst, 0x707f, 0x2000 | isa::STORE);
  vc_assume(g_old.gpr[isa::rs1(inst)] + isa::imm_s(inst) == 0x1fd0e000u + 4 * i);
  uint32_t b = g_old.gpr[isa::rs2(inst)], w = timer_word(j);
  vc_cover("timer write");
  CPU.exec();
  frame(0);
  uint32_t probe = vc_u32("probe");
  vc_assert(mem_new(probe) == mem_old(probe), "memory unchanged");
  vc_assert(CPU.is_mmio_store && CPU.state.store && CPU.state.store_addr == 0x1fd0e000u + 4 * i, "reported as device access");
  // read register j back: lw x1, 0(x2)
  uint32_t nw[4];
  for (uint32_t k = 0; k < 4; k++) nw[k] = k == i ? b : timer_word(k);
  CPU.state.gpr[2] = 0x1fd0e000u + 4 * j; CPU.state.pc = 0x80000000u;
  CPU.state.csr[csr_mie] = 0;
  g_fetch_pc = 0x80000000u; g_inst = 0x00012083u; g_loads = 0;
#ifdef VC_NATIVE
  g_ram[0] = g_inst;
#endif
  CPU.exec();
  vc_assert(CPU.state.gpr[1] == nw[j], "timer register reads back");
  uint64_t now = ((uint64_t)nw[1] << 32) | nw[0], cmp = ((uint64_t)nw[3] << 32) | nw[2];
  vc_assert(((CPU.state.csr[csr_mip] >> 7) & 1) == (now >= cmp), "timer interrupt pending exactly when time has reached the compare value");
}
VC_DRIVER(ref_uart_plic) {
  static const uint32_t A[] = {0x10000000u, 0x10000001u, 0x10000002u, 0x10000003u, 0x0c201004u, 0x0c201005u, 0x0c201006u, 0x0c201007u};
  uint32_t a = A[vc_choose(8)], f3 = vc_choose(3), inst;
  if (a & ((1u << f3) - 1)) return;
  begin(inst, 0x707f, (f3 << 12) | isa::STORE);
  vc_assume(g_old.gpr[isa::rs1(inst)] + isa::imm_s(inst) == a);
  uint32_t b = g_old.gpr[isa::rs2(inst)];
  vc_cover("device store");
  CPU.exec();
  frame(0);
  uint32_t sh = 8 * (a & 3), m = (f3 == 0 ? 0xffu : f3 == 1 ? 0xffffu : ~0u) << sh;
  uint32_t uart = mem_old(0x10000000u), claim = mem_old(0x0c201004u), mip = mip0();
  if (a < 0x10000000u) claim = (claim & ~m) | ((b << sh) & m); else uart = (uart & ~m) | ((b << sh) & m);
  if (a == 0x10000000u) uart &= 0xffffff00u;
  if (a == 0x10000001u && (b & 0xff) == 7) { claim = 10; uart &= 0xfff0ffffu; mip |= 0x800; }
  if (a == 0x10000001u && (b & 0xff) == 5) uart = (uart & 0xfff0ffffu) | 0x30000u;
  if (a == 0x0c201004u && (b & 0xff) == 10) { claim = 0; mip &= ~0x800u; }
  uint32_t probe = vc_u32("probe") & ~3u;
  vc_assert(mem_new(probe) == (probe == 0x10000000u ? uart : probe == 0x0c201004u ? claim : mem_old(probe)), "device registers after the store");
  vc_assert(CPU.state.csr[csr_mip] == mip && CPU.state.csr[csr_sip] == (mip & 0x333u), "external interrupt pending bit follows the controller");
  vc_assert(CPU.is_mmio_store && CPU.state.store && CPU.state.store_addr == a, "reported as device access");
}
