// Contracts of the reference model: interrupts, exceptions, trap return,
// CSR instructions, WFI/EBREAK, Zfinx.
#include "ref_common.h"
#include "fp_spec.h"
#include "priv_spec.h"
extern "C" {
#include "softfloat.h"
}
static uint32_t g_mip; // effective interrupt-pending bits
static uint32_t eff_mip() { return (g_old.csr[csr_mip] & ~0x80u) | (g_time >= g_timecmp ? 0x80u : 0); }
static bool shadows(const CPU_state &s) { return s.csr[csr_sstatus] == (s.csr[csr_mstatus] & priv::SMASK) && s.csr[csr_sie] == (s.csr[csr_mie] & 0x333u); }
static void begin() { ref_arbitrary(); ref_snapshot(); vc_assume(shadows(CPU.state)); }
static void expect(const priv::Exp &e, bool mprv_free) {
  uint32_t r = vc_u32("reg"); vc_assume(r < 32);
  vc_assert(CPU.state.gpr[r] == (r ? g_old.gpr[r] : 0), "registers unchanged");
  vc_assert(CPU.state.pc == e.pc, "trap target / return address");
  vc_assert(CPU.privilege == e.priv, "privilege after the trap");
  uint32_t c = vc_u32("csr"); vc_assume(c < 21 && c != csr_mip && c != csr_sip);
  uint32_t free = mprv_free && c == csr_mstatus ? (uint32_t)priv::MPRV : 0;
  vc_assert(((CPU.state.csr[c] ^ e.csr[c]) & ~free) == 0, "trap CSRs");
  vc_assert(CPU.state.csr[csr_mip] == g_mip && CPU.state.csr[csr_sip] == (g_mip & 0x333u), "pending bits");
  vc_assert(CPU.is_exception && !CPU.state.store, "trap reported, no store");
  uint32_t probe = vc_u32("probe");
  vc_assert(mem_new(probe) == mem_old(probe), "memory unchanged");
}
// an enabled, pending interrupt is taken before the instruction at pc
VC_DRIVER(ref_interrupt) {
  begin();
  uint32_t inst = fetch_bare();
  CPU.privilege = vc_choose(3) == 2 ? 3 : CPU.privilege; // split for speed; other values stay symbolic
  g_old_priv = CPU.privilege;
  vc_assume(inst != 0x00100073u); // ebreak ends the simulation
  g_mip = eff_mip();
  vc_assume(priv::deleg_ok(g_old.csr, g_mip));
  int code = priv::interrupt(g_old.csr, g_mip, g_old_priv);
  vc_assume(code >= 0);
  if (code < 0) return;
  vc_cover("an interrupt is due");
  CPU.exec();
  priv::Exp e; priv::trap(e, g_old.csr, g_old_priv, true, (uint32_t)code, 0, g_old.pc);
  expect(e, false);
}
// no interrupt is due: pending but masked interrupts have no effect
VC_DRIVER(ref_no_interrupt) {
  begin();
  uint32_t inst = fetch_bare(0xfffff07fu, 0x00000013u); // addi rd, x0, 0
  g_mip = eff_mip();
  vc_assume(priv::deleg_ok(g_old.csr, g_mip));
  vc_assume(priv::interrupt(g_old.csr, g_mip, g_old_priv) < 0);
  vc_cover("masked interrupts only");
  CPU.exec();
  vc_assert(!CPU.is_exception && CPU.state.pc == g_old.pc + 4 && CPU.privilege == g_old_priv, "no trap without an enabled interrupt");
  uint32_t c = vc_u32("csr"); vc_assume(c < 21 && c != csr_mip && c != csr_sip);
  vc_assert(CPU.state.csr[c] == g_old.csr[c], "CSRs unchanged");
}
static void quiet() { g_mip = eff_mip(); vc_assume(priv::deleg_ok(g_old.csr, g_mip)); vc_assume(priv::interrupt(g_old.csr, g_mip, g_old_priv) < 0); }
VC_DRIVER(ref_ecall) {
  begin(); fetch_bare(~0u, 0x73); quiet();
  vc_cover("environment call");
  CPU.exec();
  priv::Exp e; priv::trap(e, g_old.csr, g_old_priv, false, 8 + g_old_priv, 0, g_old.pc);
  expect(e, false);
}
VC_DRIVER(ref_mret) {
  begin(); CPU.privilege = 3; fetch_bare(~0u, 0x30200073); CPU.privilege = g_old_priv = 3; quiet();
  vc_assume((g_old.csr[csr_mepc] & 3) == 0);
  vc_cover("mret in machine mode");
  CPU.exec();
  priv::Exp e; priv::mret(e, g_old.csr);
  expect(e, true);
}
VC_DRIVER(ref_sret) {
  begin(); fetch_bare(~0u, 0x10200073); quiet();
  vc_assume(g_old_priv != 0 && (g_old.csr[csr_sepc] & 3) == 0);
  vc_cover("sret in supervisor or machine mode");
  CPU.exec();
  priv::Exp e; priv::sret(e, g_old.csr);
  expect(e, true);
}
// wait-for-interrupt is a no-op, ebreak stops the simulation; neither traps
VC_DRIVER(ref_stop) {
  begin(); bool wfi = vc_choose(2); fetch_bare(~0u, wfi ? 0x10500073 : 0x00100073); quiet();
  bool end0 = CPU.sim_end;
  vc_cover("wfi or ebreak");
  CPU.exec();
  vc_assert(CPU.sim_end == (wfi ? end0 || CPU.ref_only : true), "simulation end is signalled");
  vc_assert(CPU.state.pc == g_old.pc + 4 && CPU.privilege == g_old_priv && !CPU.is_exception && !CPU.state.store, "no other effect");
  uint32_t c = vc_u32("csr"); vc_assume(c < 21 && c != csr_mip && c != csr_sip);
  uint32_t r = vc_u32("reg"); vc_assume(r < 32);
  vc_assert(CPU.state.csr[c] == g_old.csr[c] && CPU.state.gpr[r] == g_old.gpr[r], "state unchanged");
}
// reading the unimplemented time CSRs is an illegal instruction
VC_DRIVER(ref_time_illegal) {
  begin(); uint32_t f3 = 1 + vc_choose(3);
  uint32_t inst = fetch_bare(0xfff0707f, (vc_choose(2) ? 0xc8100073u : 0xc0100073u) | (f3 << 12)); quiet();
  vc_cover("access to time");
  CPU.exec();
  priv::Exp e; priv::trap(e, g_old.csr, g_old_priv, false, 2, inst, g_old.pc);
  expect(e, false);
}
struct CsrDef { uint32_t addr, idx, wmask; };
static const CsrDef CSRS[] = {
  {0x305, csr_mtvec, ~0u}, {0x341, csr_mepc, ~0u}, {0x342, csr_mcause, ~0u}, {0x304, csr_mie, 0xbbb}, {0x344, csr_mip, 0xbbb}, {0x343, csr_mtval, ~0u},
  {0x340, csr_mscratch, ~0u}, {0x300, csr_mstatus, 0x807FF9BB}, {0x303, csr_mideleg, ~0u}, {0x302, csr_medeleg, ~0u}, {0x141, csr_sepc, ~0u},
  {0x105, csr_stvec, ~0u}, {0x142, csr_scause, ~0u}, {0x140, csr_sscratch, ~0u}, {0x143, csr_stval, ~0u}, {0x100, csr_sstatus, 0x800DE133},
  {0x104, csr_sie, 0x333}, {0x144, csr_sip, 0x333}, {0x180, csr_satp, ~0u}, {0xf14, csr_mhartid, 0}, {0x301, csr_misa, 0}};
VC_DRIVER(ref_csr) {
  static const uint32_t F3[] = {1, 2, 3, 5, 6, 7};
  uint32_t k = vc_choose(21), f3 = F3[vc_choose(6)];
  const CsrDef d = CSRS[k];
  begin();
  uint32_t inst = fetch_bare(0xfff0707f, (d.addr << 20) | (f3 << 12) | 0x73); quiet();
  uint32_t rd = isa::rd(inst), rs1 = isa::rs1(inst);
  vc_assume(((d.addr >> 8) & 3) <= g_old_priv);
  uint32_t src = (f3 & 4) ? rs1 : g_old.gpr[rs1];
  uint32_t cmd = f3 & 3;
  bool we = cmd == 1 || rs1 != 0;
  vc_assume(d.wmask != 0 || !we); // read-only identification registers
  uint32_t old = d.idx == csr_mip ? g_mip : d.idx == csr_sip ? g_mip & 0x333u : g_old.csr[d.idx];
  uint32_t val = cmd == 1 ? src : cmd == 2 ? old | src : old & ~src;
  if (d.idx == csr_mepc || d.idx == csr_sepc) vc_assume((val & 3) == 0);
  vc_cover("a CSR access");
  CPU.exec();
  vc_assert(rd == 0 || CPU.state.gpr[rd] == old, "old CSR value is read");
  uint32_t r = vc_u32("reg"); vc_assume(r < 32);
  vc_assert((r == rd && r != 0) || CPU.state.gpr[r] == (r ? g_old.gpr[r] : 0), "other registers unchanged");
  vc_assert(CPU.state.pc == g_old.pc + 4 && CPU.privilege == g_old_priv && !CPU.is_exception && !CPU.state.store, "no trap");
  vc_assert(CPU.is_csr, "reported as a CSR access");
  // expected CSR file
  uint32_t e[21];
  for (int i = 0; i < 21; i++) e[i] = g_old.csr[i];
  e[csr_mip] = g_mip;
  if (we) {
    if (d.idx == csr_sstatus || d.idx == csr_mstatus) e[csr_mstatus] = (g_old.csr[csr_mstatus] & ~d.wmask) | (val & d.wmask);
    else if (d.idx == csr_mie) e[csr_mie] = val & d.wmask;
    else if (d.idx == csr_sie) e[csr_mie] = (g_old.csr[csr_mie] & ~d.wmask) | (val & d.wmask);
    else if (d.idx == csr_mip) e[csr_mip] = val & d.wmask;
    else if (d.idx == csr_sip) e[csr_mip] = (g_mip & ~d.wmask) | (val & d.wmask);
    else e[d.idx] = val;
  }
  e[csr_sstatus] = e[csr_mstatus] & priv::SMASK; e[csr_sie] = e[csr_mie] & 0x333u;
  uint32_t c = vc_u32("csr"); vc_assume(c < 21 && c != csr_mip && c != csr_sip);
  vc_assert(CPU.state.csr[c] == e[c], "CSR file after the access");
  vc_assert(((CPU.state.csr[csr_mip] ^ e[csr_mip]) & ~0x80u) == 0, "pending bits after the access");
  vc_assert(CPU.state.csr[csr_sip] == (CPU.state.csr[csr_mip] & 0x333u), "sip shadows mip");
  uint32_t probe = vc_u32("probe");
  vc_assert(mem_new(probe) == mem_old(probe), "memory unchanged");
}
// ---- Zfinx ------------------------------------------------------------
VC_DRIVER(ref_zfinx) {
  uint32_t k = vc_choose(22);
  uint32_t mask = fps::FPS[k].mask, match = fps::FPS[k].match;
  bool has_rm = !(mask & 0x7000);
  static const uint32_t RMS[] = {0, 1, 2, 3, 4, 7};
  if (has_rm) { mask |= 0x7000; match |= RMS[vc_choose(6)] << 12; }
  begin();
  uint32_t inst = fetch_bare(mask, match); quiet();
  uint32_t a = g_old.gpr[isa::rs1(inst)], b = g_old.gpr[isa::rs2(inst)], c = g_old.gpr[inst >> 27], rd = isa::rd(inst), v;
  vc_cover("a Zfinx instruction");
  CPU.exec();
  v = fps::value(k, inst, a, b, c);
  vc_assert(rd == 0 || CPU.state.gpr[rd] == v, "floating-point result");
  uint32_t r = vc_u32("reg"); vc_assume(r < 32);
  vc_assert((r == rd && r != 0) || CPU.state.gpr[r] == (r ? g_old.gpr[r] : 0), "other registers unchanged");
  vc_assert(CPU.state.pc == g_old.pc + 4 && CPU.privilege == g_old_priv && !CPU.is_exception && !CPU.state.store, "no trap");
  uint32_t cc = vc_u32("csr"); vc_assume(cc < 21 && cc != csr_mip && cc != csr_sip);
  vc_assert(CPU.state.csr[cc] == g_old.csr[cc], "CSRs unchanged");
}
