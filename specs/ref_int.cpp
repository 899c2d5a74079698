// Contracts of the reference model's instruction step: integer computation
// and control transfer.
#include "ref_common.h"

static void assert_only_rd_pc(uint32_t rd, uint32_t val, uint32_t npc) {
  uint32_t r = vc_u32("reg");
  vc_assume(r >= 1 && r < 32);
  vc_assert(rd == 0 || CPU.state.gpr[rd] == val, "destination register holds the ISA result");
  vc_assert(r == rd || CPU.state.gpr[r] == g_old.gpr[r], "all other registers unchanged");
  vc_assert(CPU.state.gpr[0] == 0, "x0 reads as zero");
  vc_assert(CPU.state.pc == npc, "next pc");
  uint32_t c = vc_u32("csr");
  vc_assume(c < 21 && c != csr_mip && c != csr_sip);
  vc_assert(CPU.state.csr[c] == g_old.csr[c], "CSRs unchanged");
  vc_assert(CPU.privilege == g_old_priv, "privilege unchanged");
  vc_assert(!CPU.is_exception && !CPU.state.store, "no trap and no store");
  vc_assert(CPU.state.reserve_valid == g_old.reserve_valid && CPU.state.reserve_addr == g_old.reserve_addr, "reservation unchanged");
  uint32_t probe = vc_u32("probe");
  vc_assert(mem_new(probe) == mem_old(probe), "memory unchanged");
}

VC_DRIVER(isa_table) {
  uint32_t inst = vc_u32("inst"), out;
  vc_cover("any word");
  vc_assert(isa::compute(inst, 0, 0, 0, out) == isa::is_compute(inst), "the case split covers every defined computational encoding");
}
VC_DRIVER(ref_compute) {
  uint32_t k = vc_choose(isa::N_COMPUTE);
  ref_arbitrary(); ref_snapshot();
  uint32_t inst = fetch_bare(isa::kCompute[k].mask, isa::kCompute[k].match), out = 0;
  vc_assume(no_interrupt()); forbid_trap();
  isa::compute(inst, g_old.pc, g_old.gpr[isa::rs1(inst)], g_old.gpr[isa::rs2(inst)], out);
  vc_cover("a defined computational instruction");
  CPU.exec();
  assert_only_rd_pc(isa::rd(inst), out, g_old.pc + 4);
  vc_assert(!CPU.is_br && !CPU.is_csr, "not reported as branch or CSR access");
}

VC_DRIVER(ref_control) {
  static const isa::Pat P[] = {{0x7f, isa::JAL}, {0x707f, isa::JALR}, {0x707f, isa::BRANCH}, {0x707f, 0x1000 | isa::BRANCH},
    {0x707f, 0x4000 | isa::BRANCH}, {0x707f, 0x5000 | isa::BRANCH}, {0x707f, 0x6000 | isa::BRANCH}, {0x707f, 0x7000 | isa::BRANCH}};
  uint32_t k = vc_choose(8);
  ref_arbitrary(); ref_snapshot();
  uint32_t inst = fetch_bare(P[k].mask, P[k].match);
  vc_assume(no_interrupt()); forbid_trap();
  uint32_t op = isa::opcode(inst);
  uint32_t a = g_old.gpr[isa::rs1(inst)], b = g_old.gpr[isa::rs2(inst)];
  uint32_t npc = g_old.pc + 4, rd = 0, val = 0; bool taken = true;
  if (op == isa::JAL) { npc = g_old.pc + isa::imm_j(inst); rd = isa::rd(inst); val = g_old.pc + 4; }
  else if (op == isa::JALR) { npc = (a + isa::imm_i(inst)) & ~1u; rd = isa::rd(inst); val = g_old.pc + 4; }
  else { isa::branch(isa::f3(inst), a, b, taken); if (taken) npc = g_old.pc + isa::imm_b(inst); }
  vc_cover("a defined control transfer");
  CPU.exec();
  assert_only_rd_pc(rd, val, npc);
  vc_assert(CPU.is_br, "reported as a branch");
  vc_assert(CPU.br_taken == taken, "taken flag");
}

// contract of RefCpu::load_word: the word stored at the enclosing aligned address
VC_DRIVER(ref_load_word) {
  ref_arbitrary(); ref_snapshot();
  uint32_t a = vc_u32("addr");
  vc_cover("any address");
  uint32_t v = CPU.load_word(a);
  vc_assert(v == mem_old(a), "load_word returns the stored word");
  uint32_t probe = vc_u32("probe");
  vc_assert(mem_new(probe) == mem_old(probe), "load_word does not modify memory");
}
