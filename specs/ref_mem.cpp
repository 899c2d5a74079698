// Contracts of the reference model: loads, stores, atomics, address
// translation, page-fault reporting.
#include "ref_common.h"
#include "priv_spec.h"

// ---- contract of RefCpu::va2pa, proved by ref_va2pa ---------------------
static bool g_f_ok, g_d_ok; static uint32_t g_f_pa, g_d_pa, g_d_va; // outcome of fetch / data translation
static bool va2pa_contract(RefCpu *c, uint32_t &pa, uint32_t va, uint32_t type) {
  if (type == 0) {
    vc_assert(va == g_old.pc, "fetch translation of the pc");
    pa = g_f_pa; return g_f_ok;
  }
  vc_assert(va == g_d_va, "data translation of the effective address");
  vc_assert((type == 1 || type == 2), "access type");
  // permission for reading does not imply permission for writing
  bool ok = type == 1 ? g_d_ok : (g_d_ok && true);
  pa = g_d_pa;
  return ok;
}
static bool g_r_ok, g_w_ok;
static bool va2pa_contract_rw(RefCpu *c, uint32_t &pa, uint32_t va, uint32_t type) {
  if (type == 0) {
    vc_assert(va == g_old.pc, "fetch translation of the pc");
    pa = g_f_pa; return g_f_ok;
  }
  vc_assert(va == g_d_va, "data translation of the effective address");
  vc_assert(type == 1 || type == 2, "access type");
  bool ok = type == 1 ? g_r_ok : g_w_ok;
  if (ok) pa = g_d_pa;
  return ok;
}
static bool g_ftr, g_dtr; // fetch / data access translated
// Arbitrary privilege and satp: the instruction word reaches the core either
// untranslated or through an arbitrary successful translation.
static uint32_t fetch_any(uint32_t mask, uint32_t match) {
  vc_assume(CPU.ref_only || !CPU.dut_pf_check_enable);
  vc_assume((CPU.state.pc & 3) == 0);
  uint32_t m = vc_choose(4); // machine mode / bare / supervisor or user with Sv32
  if (m == 0) CPU.privilege = 3;
  else if (m == 1) CPU.state.csr[csr_satp] &= 0x7fffffffu;
  else { CPU.state.csr[csr_satp] |= 0x80000000u; CPU.privilege = m == 2 ? 1 : 0; }
  g_old = CPU.state; g_old_priv = CPU.privilege;
  g_ftr = priv::translated(g_old.csr[csr_satp], g_old_priv);
  g_dtr = priv::translated(g_old.csr[csr_satp], priv::data_priv(g_old.csr[csr_mstatus], g_old_priv));
  g_f_ok = true; g_f_pa = vc_u32("fetch_pa") & ~3u;
  g_fetch_pc = m >= 2 ? g_f_pa : CPU.state.pc;
  g_inst = (vc_u32("inst") & ~mask) | match; g_loads = 0;
  vc_assume(mem_old(g_fetch_pc) == g_inst);
  use_load_word_contract();
  vc_replace(vc_fn(&RefCpu::va2pa), (const void *)va2pa_contract_rw);
  return g_inst;
}
static void data_any(uint32_t va) {
  g_d_va = va; g_r_ok = vc_bool("read_ok"); g_w_ok = vc_bool("write_ok");
  g_d_pa = g_dtr ? ((vc_u32("data_pa") & ~0xfffu) | (va & 0xfffu)) : va;
  if (!g_dtr) g_r_ok = g_w_ok = true;
}
// registers other than rd, CSRs, privilege are untouched
static void frame(uint32_t rd, uint32_t npc) {
  uint32_t r = vc_u32("reg"); vc_assume(r < 32);
  vc_assert((r == rd && r != 0) || CPU.state.gpr[r] == (r ? g_old.gpr[r] : 0), "other registers unchanged");
  vc_assert(CPU.state.pc == npc, "next pc");
  uint32_t c = vc_u32("csr"); vc_assume(c < 21 && c != csr_mip && c != csr_sip);
  vc_assert(CPU.state.csr[c] == g_old.csr[c], "CSRs unchanged");
  vc_assert(CPU.privilege == g_old_priv && !CPU.is_exception, "no trap");
}
static void mem_frame() {
  uint32_t probe = vc_u32("probe");
  vc_assert(mem_new(probe) == mem_old(probe), "memory unchanged");
  vc_assert(!CPU.state.store, "no store reported");
}
static void expect_fault(uint32_t code, uint32_t va) {
  priv::Exp e; priv::trap(e, g_old.csr, g_old_priv, false, code, va, g_old.pc);
  uint32_t r = vc_u32("reg"); vc_assume(r < 32);
  vc_assert(CPU.state.gpr[r] == (r ? g_old.gpr[r] : 0), "a faulting access changes no register");
  vc_assert(CPU.state.pc == e.pc && CPU.privilege == e.priv && CPU.is_exception, "page fault enters the trap handler");
  uint32_t c = vc_u32("csr"); vc_assume(c < 21 && c != csr_mip && c != csr_sip);
  vc_assert(CPU.state.csr[c] == e.csr[c], "page fault trap CSRs");
  vc_assert(CPU.state.reserve_valid == g_old.reserve_valid && CPU.state.reserve_addr == g_old.reserve_addr, "reservation unchanged by a fault");
  mem_frame();
}
static bool csr_inv() { return CPU.state.csr[csr_sstatus] == (CPU.state.csr[csr_mstatus] & priv::SMASK); }
static bool is_uart_plic(uint32_t a) { return (a & ~3u) == 0x10000000u || (a & ~3u) == 0x0c201004u; }

VC_DRIVER(ref_load) {
  static const uint32_t F3[] = {0, 1, 2, 4, 5};
  uint32_t f3 = F3[vc_choose(5)];
  ref_arbitrary(); ref_snapshot(); vc_assume(csr_inv());
  uint32_t inst = fetch_any(0x707f, (f3 << 12) | isa::LOAD), rd = isa::rd(inst);
  vc_assume(no_interrupt());
  uint32_t va = g_old.gpr[isa::rs1(inst)] + isa::imm_i(inst);
  data_any(va);
  uint32_t size = 1u << (f3 & 3);
  vc_assume((va & (size - 1)) == 0);
  vc_assume(!is_timer_reg(g_d_pa));
  vc_cover("an aligned load");
  CPU.exec();
  if (!g_r_ok) { expect_fault(13, va); vc_cover("a faulting load"); return; }
  uint32_t w = mem_old(g_d_pa) >> (8 * (g_d_pa & 3));
  uint32_t v = f3 == 0 ? isa::sext(w & 0xff, 8) : f3 == 1 ? isa::sext(w & 0xffff, 16) : f3 == 2 ? w : f3 == 4 ? w & 0xff : w & 0xffff;
  vc_assert(rd == 0 || CPU.state.gpr[rd] == v, "load result");
  frame(rd, g_old.pc + 4); mem_frame();
  vc_assert(CPU.state.reserve_valid == g_old.reserve_valid && CPU.state.reserve_addr == g_old.reserve_addr, "reservation unchanged by a load");
}

VC_DRIVER(ref_store) {
  uint32_t f3 = vc_choose(3);
  ref_arbitrary(); ref_snapshot(); vc_assume(csr_inv());
  uint32_t inst = fetch_any(0x707f, (f3 << 12) | isa::STORE);
  vc_assume(no_interrupt());
  uint32_t va = g_old.gpr[isa::rs1(inst)] + isa::imm_s(inst), b = g_old.gpr[isa::rs2(inst)];
  data_any(va);
  uint32_t size = 1u << f3;
  vc_assume((va & (size - 1)) == 0);
  vc_assume(!is_timer_reg(g_d_pa) && !is_uart_plic(g_d_pa));
  vc_cover("an aligned store");
  CPU.exec();
  if (!g_w_ok) { expect_fault(15, va); vc_cover("a faulting store"); return; }
  uint32_t sh = 8 * (g_d_pa & 3), m = (f3 == 0 ? 0xffu : f3 == 1 ? 0xffffu : ~0u) << sh;
  uint32_t probe = vc_u32("probe") & ~3u;
  uint32_t want = probe == (g_d_pa & ~3u) ? (mem_old(probe) & ~m) | ((b << sh) & m) : mem_old(probe);
  vc_assert(mem_new(probe) == want, "exactly the addressed bytes are written");
  frame(0, g_old.pc + 4);
  vc_assert(CPU.state.store && CPU.state.store_addr == g_d_pa, "store reported at its physical address");
  vc_assert(CPU.state.reserve_valid == (g_old.reserve_valid && g_old.reserve_addr != g_d_pa), "a store to the reserved address ends the reservation");
}

VC_DRIVER(ref_amo) {
  static const uint32_t F5[] = {0, 1, 4, 8, 12, 16, 20, 24, 28};
  uint32_t f5 = F5[vc_choose(9)];
  ref_arbitrary(); ref_snapshot(); vc_assume(csr_inv());
  uint32_t inst = fetch_any(0xf800707f, (f5 << 27) | 0x2000 | isa::AMO), rd = isa::rd(inst); // any aq/rl
  vc_assume(no_interrupt());
  uint32_t va = g_old.gpr[isa::rs1(inst)], b = g_old.gpr[isa::rs2(inst)], out = 0;
  data_any(va);
  vc_assume((va & 3) == 0);
  vc_assume(!is_timer_reg(g_d_pa) && !is_uart_plic(g_d_pa));
  vc_cover("an aligned atomic");
  CPU.exec();
  if (!g_w_ok || !g_r_ok) { expect_fault(15, va); vc_cover("a faulting atomic"); return; }
  uint32_t old = mem_old(g_d_pa);
  isa::amo(f5, old, b, out);
  vc_assert(rd == 0 || CPU.state.gpr[rd] == old, "atomic returns the old value");
  uint32_t probe = vc_u32("probe") & ~3u;
  vc_assert(mem_new(probe) == (probe == g_d_pa ? out : mem_old(probe)), "atomic updates exactly its word");
  frame(rd, g_old.pc + 4);
  vc_assert(CPU.state.reserve_valid == (g_old.reserve_valid && g_old.reserve_addr != g_d_pa), "an atomic to the reserved address ends the reservation");
}

VC_DRIVER(ref_lr) {
  ref_arbitrary(); ref_snapshot(); vc_assume(csr_inv());
  uint32_t inst = fetch_any(0xf9f0707f, (2u << 27) | 0x2000 | isa::AMO), rd = isa::rd(inst);
  vc_assume(no_interrupt());
  uint32_t va = g_old.gpr[isa::rs1(inst)];
  data_any(va);
  vc_assume((va & 3) == 0 && !is_timer_reg(g_d_pa));
  vc_cover("a load-reserved");
  CPU.exec();
  if (!g_r_ok) { expect_fault(13, va); return; }
  vc_assert(rd == 0 || CPU.state.gpr[rd] == mem_old(g_d_pa), "load-reserved returns the word");
  vc_assert(CPU.state.reserve_valid && CPU.state.reserve_addr == g_d_pa, "reservation registered");
  frame(rd, g_old.pc + 4); mem_frame();
}
VC_DRIVER(ref_sc) {
  ref_arbitrary(); ref_snapshot(); vc_assume(csr_inv());
  uint32_t inst = fetch_any(0xf800707f, (3u << 27) | 0x2000 | isa::AMO), rd = isa::rd(inst);
  vc_assume(no_interrupt());
  uint32_t va = g_old.gpr[isa::rs1(inst)], b = g_old.gpr[isa::rs2(inst)];
  data_any(va);
  vc_assume((va & 3) == 0 && !is_timer_reg(g_d_pa));
  bool ok = g_old.reserve_valid && g_old.reserve_addr == g_d_pa;
  vc_assume(!ok || !is_uart_plic(g_d_pa));
  vc_cover("a store-conditional");
  CPU.exec();
  if (!g_w_ok) { expect_fault(15, va); return; }
  uint32_t probe = vc_u32("probe") & ~3u;
  vc_assert(mem_new(probe) == (ok && probe == g_d_pa ? b : mem_old(probe)), "store-conditional writes iff the reservation holds");
  vc_assert(rd == 0 || CPU.state.gpr[rd] == (ok ? 0u : 1u), "store-conditional success code");
  vc_assert(!CPU.state.reserve_valid, "store-conditional ends the reservation");
  vc_assert(CPU.state.store == ok, "a failed store-conditional reports no store");
  uint32_t mtip = g_time >= g_timecmp ? 0x80u : 0;
  vc_assert(CPU.state.csr[csr_mip] == ((g_old.csr[csr_mip] & ~0x80u) | mtip), "interrupt state unchanged");
  frame(rd, g_old.pc + 4);
}
// instruction fetch through Sv32
VC_DRIVER(ref_fetch_fault) {
  ref_arbitrary(); ref_snapshot(); vc_assume(csr_inv());
  vc_assume(CPU.ref_only || !CPU.dut_pf_check_enable);
  CPU.privilege = vc_choose(2); CPU.state.csr[csr_satp] |= 0x80000000u;
  g_old = CPU.state; g_old_priv = CPU.privilege;
  g_f_ok = false; g_f_pa = vc_u32("fetch_pa");
  vc_replace(vc_fn(&RefCpu::va2pa), (const void *)va2pa_contract_rw);
  vc_cover("a fetch fault");
  CPU.exec();
  expect_fault(12, g_old.pc);
}

// ---- Sv32 -----------------------------------------------------------------
static uint32_t oldmem(uint32_t a) { return mem_old(a); }
VC_DRIVER(ref_va2pa) {
  ref_arbitrary(); ref_snapshot();
  use_load_word_contract(); g_loads = 1;
  uint32_t type = vc_choose(3), va = vc_u32("va"), pa = 0, want = 0;
  CPU.privilege = vc_choose(2) ? 3 : vc_choose(2);
  uint32_t eff = type == 0 ? CPU.privilege : priv::data_priv(CPU.state.csr[csr_mstatus], CPU.privilege);
  vc_assume(eff == 0 || eff == 1);
  bool ok = priv::sv32(oldmem, CPU.state.csr[csr_satp], CPU.state.csr[csr_mstatus], eff, va, type, want);
  vc_cover("a translated access");
  bool got = CPU.va2pa(pa, va, type);
  vc_assert(got == ok, "access allowed exactly when Sv32 allows it");
  vc_assert(!ok || pa == want, "physical address");
  uint32_t probe = vc_u32("probe");
  vc_assert(mem_new(probe) == mem_old(probe), "translation does not modify memory");
  vc_assert(vc_eq(&CPU.state, &g_old, sizeof g_old), "translation does not modify the machine state");
}
VC_DRIVER(ref_va2pa_fix) {
  ref_arbitrary(); ref_snapshot();
  g_d_va = vc_u32("va"); g_r_ok = vc_bool("r"); g_w_ok = vc_bool("w"); g_f_ok = vc_bool("f");
  CPU.state.pc = g_old.pc = g_d_va; g_f_pa = g_d_pa = vc_u32("pa");
  vc_replace(vc_fn(&RefCpu::va2pa), (const void *)va2pa_contract_rw);
  uint32_t type = vc_choose(3), pa = 0;
  bool ok = type == 0 ? g_f_ok : type == 1 ? g_r_ok : g_w_ok;
  vc_assume(!CPU.dut_pf_check_enable || CPU.ref_only || (type == 0 ? CPU.dut_expect_pf_inst : type == 1 ? CPU.dut_expect_pf_load : CPU.dut_expect_pf_store) == !ok);
  vc_cover("agreeing translation");
  bool got = CPU.va2pa_fix(pa, g_d_va, type);
  vc_assert(got == ok, "outcome of the page walk");
  vc_assert(!ok || pa == g_d_pa, "address of the page walk");
}
