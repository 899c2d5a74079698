// Contract of the pipeline's CSR unit (back-end/Exu/Csr.cpp): one clock cycle,
// in the order the back end calls it.  The commit stage is represented by its
// own contract (see be_rob.cpp): at most one event per cycle, and an enabled
// interrupt pre-empts every other event.
#include "vc.h"
#include "priv_spec.h"
#include "Csr.h"
long long sim_time;
static Raw<Csr> g_c;
#define U (g_c.v)
static ExeCsrIO exe; static RobCsrIO rob; static RobBroadcastIO bc; static CsrInterruptInjectIO inj;
static CsrExeIO c2e; static CsrRobIO c2r; static CsrFrontIO c2f; static CsrStatusIO st;
static uint32_t O[21], op, o_idx, o_wdata, o_wcmd; static bool o_we;
struct CsrDef { uint32_t addr, idx, wmask; };
static const CsrDef CSRS[] = {
  {0x305, csr_mtvec, ~0u}, {0x341, csr_mepc, ~0u}, {0x342, csr_mcause, ~0u}, {0x304, csr_mie, 0xbbb}, {0x344, csr_mip, 0xbbb}, {0x343, csr_mtval, ~0u},
  {0x340, csr_mscratch, ~0u}, {0x300, csr_mstatus, 0x807FF9BB}, {0x303, csr_mideleg, ~0u}, {0x302, csr_medeleg, ~0u}, {0x141, csr_sepc, ~0u},
  {0x105, csr_stvec, ~0u}, {0x142, csr_scause, ~0u}, {0x140, csr_sscratch, ~0u}, {0x143, csr_stval, ~0u}, {0x100, csr_sstatus, 0x800DE133},
  {0x104, csr_sie, 0x333}, {0x144, csr_sip, 0x333}, {0x180, csr_satp, ~0u}, {0xf14, csr_mhartid, ~0u}, {0x301, csr_misa, ~0u}};
static bool shadows(const uint32_t *c) {
  return c[csr_sstatus] == (c[csr_mstatus] & priv::SMASK) && c[csr_sie] == (c[csr_mie] & 0x333u) && c[csr_sip] == (c[csr_mip] & 0x333u);
}
static void begin() {
  vc_havoc(&U, sizeof(Csr), "csr_unit");
  U.in.exe2csr = &exe; U.in.rob2csr = &rob; U.in.rob_bcast = &bc; U.in.interrupt_inject = &inj;
  U.out.csr2exe = &c2e; U.out.csr2rob = &c2r; U.out.csr2front = &c2f; U.out.csr_status = &st;
  memset(&exe, 0, sizeof exe); memset(&rob, 0, sizeof rob); memset(&bc, 0, sizeof bc); memset(&inj, 0, sizeof inj);
  vc_havoc(&c2e, sizeof c2e, "c2e"); vc_havoc(&c2r, sizeof c2r, "c2r"); vc_havoc(&c2f, sizeof c2f, "c2f"); vc_havoc(&st, sizeof st, "st");
  for (int i = 0; i < 21; i++) O[i] = U.CSR_RegFile[i];
  vc_assume(U.privilege == 0 || U.privilege == 1 || U.privilege == 3);
  vc_assume(shadows(O));
  vc_assume(U.csr_we <= 1);
  op = U.privilege; o_idx = U.csr_idx; o_wdata = U.csr_wdata; o_wcmd = U.csr_wcmd; o_we = U.csr_we;
}
static void cycle() {
  U.comb_begin();
  U.comb_interrupt();
  U.comb_csr_read();
  U.comb_exception();
  U.comb_csr_write();
  U.comb_interrupt_inject();
  U.seq();
  U.comb_csr_status();
}
// machine-level interrupt lines as driven by the platform in this cycle
static uint32_t inject(uint32_t mip) {
  inj.external_irq_pending_valid = vc_bool("ext_v"); inj.external_irq_pending = vc_bool("ext");
  inj.timer_irq_pending_valid = vc_bool("tim_v"); inj.timer_irq_pending = vc_bool("tim");
  if (inj.external_irq_pending_valid) mip = (mip & ~0x800u) | (inj.external_irq_pending ? 0x800u : 0);
  if (inj.timer_irq_pending_valid) mip = (mip & ~0x80u) | (inj.timer_irq_pending ? 0x80u : 0);
  return mip;
}
static void expect(const uint32_t *e, uint32_t mip, uint32_t p, bool mprv_free) {
  uint32_t c = vc_u32("csr"); vc_assume(c < 21 && c != csr_mip && c != csr_sip);
  uint32_t free = mprv_free && c == csr_mstatus ? (uint32_t)priv::MPRV : 0;
  vc_assert(((U.CSR_RegFile[c] ^ e[c]) & ~free) == 0, "CSR file after the cycle");
  vc_assert(U.CSR_RegFile[csr_mip] == mip && U.CSR_RegFile[csr_sip] == (mip & 0x333u), "pending bits follow the interrupt lines");
  vc_assert(U.privilege == p, "privilege level after the cycle");
  vc_assert(st.mstatus == U.CSR_RegFile[csr_mstatus] && st.sstatus == U.CSR_RegFile[csr_sstatus] && st.satp == U.CSR_RegFile[csr_satp] && st.privilege == U.privilege, "status outputs show the CSR file");
}
// an instruction executing a CSR access in this cycle
static uint32_t issue() {
  uint32_t k = vc_choose(22);
  if (k == 21) return 99;
  exe.idx = CSRS[k].addr; exe.we = vc_bool("x_we"); exe.re = vc_bool("x_re"); exe.wdata = vc_u32("x_wdata"); exe.wcmd = 1 + vc_choose(3);
  return CSRS[k].idx;
}
// no event: CSR accesses in execution read the file and leave it unchanged
VC_DRIVER(csr_read) {
  begin(); uint32_t idx = issue(); uint32_t mip = inject(O[csr_mip]);
  vc_cover("a quiet cycle");
  cycle();
  vc_assert(c2r.interrupt_req == (priv::interrupt(O, O[csr_mip], op) >= 0) || !priv::deleg_ok(O, O[csr_mip]), "an interrupt is requested exactly when one is due");
  if (idx < 21) vc_assert(!exe.re || c2e.rdata == O[idx], "a CSR read returns the CSR");
  expect(O, mip, op, false);
  if (exe.we) vc_assert(U.csr_we && U.csr_idx == exe.idx && U.csr_wdata == exe.wdata && U.csr_wcmd == exe.wcmd, "the write waits for commit");
  else vc_assert(U.csr_we == o_we && (!o_we || (U.csr_idx == o_idx && U.csr_wdata == o_wdata && U.csr_wcmd == o_wcmd)), "the waiting write is kept");
}
// commit of a CSR instruction
VC_DRIVER(csr_commit) {
  begin();
  vc_assume(priv::interrupt(O, O[csr_mip], op) < 0 && priv::deleg_ok(O, O[csr_mip]));
  uint32_t k = vc_choose(21), cmd = 1 + vc_choose(3); bool we = vc_choose(2);
  const CsrDef d = CSRS[k];
  U.csr_we = we; if (we) { U.csr_idx = o_idx = d.addr; U.csr_wcmd = o_wcmd = cmd; }
  rob.commit = true; bc.flush = true; bc.pc = vc_u32("pc");
  uint32_t e[21]; for (int i = 0; i < 21; i++) e[i] = O[i];
  if (we) {
    uint32_t old = O[d.idx], val = cmd == 1 ? o_wdata : cmd == 2 ? old | o_wdata : old & ~o_wdata;
    if (d.idx == csr_sstatus || d.idx == csr_mstatus) e[csr_mstatus] = (O[csr_mstatus] & ~d.wmask) | (val & d.wmask);
    else if (d.idx == csr_mie) e[csr_mie] = val & d.wmask;
    else if (d.idx == csr_sie) e[csr_mie] = (O[csr_mie] & ~d.wmask) | (val & d.wmask);
    else if (d.idx == csr_mip) e[csr_mip] = val & d.wmask;
    else if (d.idx == csr_sip) e[csr_mip] = (O[csr_mip] & ~d.wmask) | (val & d.wmask);
    else e[d.idx] = val;
  }
  e[csr_sstatus] = e[csr_mstatus] & priv::SMASK; e[csr_sie] = e[csr_mie] & 0x333u;
  uint32_t mip = inject(e[csr_mip]);
  vc_cover("a CSR instruction commits");
  cycle();
  expect(e, mip, op, false);
  vc_assert(!U.csr_we, "no write is left waiting after commit");
}
// traps and returns
VC_DRIVER(csr_trap) {
  begin();
  int due = priv::interrupt(O, O[csr_mip], op);
  vc_assume(priv::deleg_ok(O, O[csr_mip]));
  uint32_t ev = vc_choose(8), tval = vc_u32("tval"), pc = vc_u32("pc");
  static const uint32_t PRIVS[] = {0, 1, 3};
  op = PRIVS[vc_choose(3)]; U.privilege = op;
  due = priv::interrupt(O, O[csr_mip], op);
  bc.flush = true; bc.pc = pc; bc.trap_val = tval;
  uint32_t mip = inject(O[csr_mip]);
  priv::Exp e; bool ret = false;
  if (ev == 0) { vc_assume(due >= 0); if (due < 0) return; rob.interrupt_resp = true; bc.interrupt = true; bc.exception = true; priv::trap(e, O, op, true, (uint32_t)due, 0, pc); }
  else {
    vc_assume(due < 0);
    if (ev == 1) { bc.ecall = true; bc.exception = true; priv::trap(e, O, op, false, 8 + op, 0, pc); }
    else if (ev == 2) { bc.page_fault_inst = true; bc.exception = true; priv::trap(e, O, op, false, 12, tval, pc); }
    else if (ev == 3) { bc.page_fault_load = true; bc.exception = true; priv::trap(e, O, op, false, 13, tval, pc); }
    else if (ev == 4) { bc.page_fault_store = true; bc.exception = true; priv::trap(e, O, op, false, 15, tval, pc); }
    else if (ev == 5) { bc.illegal_inst = true; bc.exception = true; priv::trap(e, O, op, false, 2, tval, pc); }
    else if (ev == 6) { vc_assume(op == 3); bc.mret = true; ret = true; priv::mret(e, O); }
    else { vc_assume(op != 0); bc.sret = true; ret = true; priv::sret(e, O); }
  }
  vc_cover("a trap or a trap return");
  cycle();
  expect(e.csr, mip, e.priv, ret);
  vc_assert((ret ? c2f.epc : c2f.trap_pc) == e.pc, "next pc of the trap or return");
  vc_assert(!U.csr_we, "a write of a cancelled instruction is dropped");
}
