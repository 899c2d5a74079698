// Contract of instruction execution in the pipeline: every instruction word is
// decoded (Idu), split into micro-operations (Dispatch) and computed by the
// functional units (Fu.h, FPU.h) to what the ISA manual says.
// The register file is an uninterpreted function of the register number, so an
// operand taken from a wrong register cannot give the right result.
#include "vc.h"
#include "isa_spec.h"
#include "fp_spec.h"
#include "Idu.h"
#include "Dispatch.h"
#include "IssueQueue.h"
#include "Fu.h"
#include "FPU.h"
#include "SimCpu.h"
#include "util.h"
#include "config.h"
long long sim_time;
static Raw<SimContext> g_ctx;
static Raw<Idu> g_idu; static Raw<Dispatch> g_dis;
#define I (g_idu.v)
#define D (g_dis.v)
static PreIduIssueIO issue; static RenDecIO ren2dec; static RobBroadcastIO rbc; static ExuIdIO exu2id; static DecRenIO dec2ren; static DecBroadcastIO dbc; static IduConsumeIO cons;
static RenDisIO ren2dis; static RobDisIO rob2dis; static IssDisIO iss2dis; static LsuDisIO lsu2dis; static PrfAwakeIO pawk; static IssAwakeIO iawk;
static DisRenIO dis2ren; static DisRobIO dis2rob; static DisIssIO dis2iss; static DisLsuIO dis2lsu;
static uint32_t PC;
static const uint32_t DEST = 50; // physical destination of the instruction
static uint32_t rval(uint32_t a) { return a == 0 ? 0 : vc_uf("reg", 1, a, 0, 0, 0); }
static uint32_t memold() { return vc_uf("mem_old", 1, 0, 0, 0, 0); }

static DecRenIO::DecRenInst &dec_inst(uint32_t inst, bool pf = false) {
  I.ctx = &g_ctx.v; I.max_br_per_cycle = 1;
  I.in.issue = &issue; I.in.ren2dec = &ren2dec; I.in.rob_bcast = &rbc; I.in.exu2id = &exu2id;
  I.out.dec2ren = &dec2ren; I.out.dec_bcast = &dbc; I.out.idu_consume = &cons;
  memset(&issue, 0, sizeof issue); memset(&rbc, 0, sizeof rbc); memset(&exu2id, 0, sizeof exu2id); memset(&dbc, 0, sizeof dbc); memset(&I.br_latch, 0, sizeof I.br_latch);
  vc_havoc(&dec2ren, sizeof dec2ren, "dec2ren");
  I.now_br_mask = 0;
  for (int i = 0; i < MAX_BR_NUM; i++) { I.tag_vec[i] = i == 1; I.br_mask_cp[i] = 0; }
  PC = vc_u32("pc"); vc_assume((PC & 3) == 0);
  auto &e = issue.entries[0];
  e.valid = true; e.inst = inst; e.pc = PC; e.page_fault_inst = pf; e.ftq_idx = vc_u8("ftq_idx"); e.ftq_offset = vc_u8("ftq_off"); e.ftq_is_last = vc_bool("ftq_last");
  I.comb_begin();
  I.comb_decode();
  auto &u = dec2ren.uop[0];
  vc_assert(dec2ren.valid[0] && !dec2ren.valid[1], "the fetched instruction reaches rename");
  vc_assert(u.ftq_idx == e.ftq_idx && u.ftq_offset == e.ftq_offset && u.ftq_is_last == e.ftq_is_last && u.dbg.pc == PC && u.dbg.instruction == inst, "it keeps its position in the fetch stream");
  vc_assert(u.page_fault_inst == pf, "a fetch fault is carried along");
  return u;
}
struct Uops { int n; ExuInst u[IQ_NUM]; bool has[IQ_NUM]; };
static Uops P;
static void dispatch(const DecRenIO::DecRenInst &d) {
  D.ctx = &g_ctx.v;
  D.in.ren2dis = &ren2dis; D.in.rob2dis = &rob2dis; D.in.iss2dis = &iss2dis; D.in.lsu2dis = &lsu2dis; D.in.prf_awake = &pawk; D.in.iss_awake = &iawk; D.in.rob_bcast = &rbc; D.in.dec_bcast = &dbc;
  D.out.dis2ren = &dis2ren; D.out.dis2rob = &dis2rob; D.out.dis2iss = &dis2iss; D.out.dis2lsu = &dis2lsu;
  memset(&rob2dis, 0, sizeof rob2dis); rob2dis.ready = true; rob2dis.empty = true;
  for (int i = 0; i < IQ_NUM; i++) iss2dis.ready_num[i] = 4;
  memset(&lsu2dis, 0, sizeof lsu2dis); lsu2dis.stq_free = 4; lsu2dis.ldq_free = 4; for (auto &v : lsu2dis.ldq_alloc_valid) v = true;
  memset(&pawk, 0, sizeof pawk); memset(&iawk, 0, sizeof iawk); memset(D.busy_table, 0, sizeof D.busy_table);
  vc_havoc(&dis2iss, sizeof dis2iss, "dis2iss"); vc_havoc(&dis2rob, sizeof dis2rob, "dis2rob");
  RenDisIO::RenDisInst r = RenDisIO::RenDisInst::from_dec_ren_inst(d);
  r.src1_preg = d.src1_areg; r.src2_preg = d.src2_areg; r.dest_preg = d.dest_en ? DEST : 0;
  D.inst_r[0] = r; D.inst_valid[0] = true; D.inst_valid[1] = false; memset(&D.inst_r[1], 0, sizeof D.inst_r[1]);
  D.comb_begin(); D.comb_alloc(); D.comb_wake(); D.comb_dispatch(); D.comb_fire();
  vc_assert(dis2rob.dis_fire[0], "an unobstructed instruction is dispatched");
  P.n = 0;
  for (int q = 0; q < IQ_NUM; q++) {
    P.has[q] = dis2iss.req[q][0].valid;
    for (int w = 1; w < MAX_IQ_DISPATCH_WIDTH; w++) vc_assert(!dis2iss.req[q][w].valid, "at most one operation per queue");
    if (!P.has[q]) continue;
    P.n++;
    P.u[q] = ExuInst::from_prf_exe_uop(PrfExeIO::PrfExeUop::from_iss_prf_uop(IqStoredUop::from_dis_iss_uop(dis2iss.req[q][0].uop).to_iss_prf_uop()));
    ExuInst &u = P.u[q];
    u.pc = PC;
    u.src1_rdata = !u.src1_en ? 0 : u.src1_preg == DEST ? memold() : rval(u.src1_preg);
    u.src2_rdata = !u.src2_en ? 0 : u.src2_preg == DEST ? memold() : rval(u.src2_preg);
    vc_assert(u.ftq_idx == d.ftq_idx && u.ftq_offset == d.ftq_offset && u.br_id == d.br_id && u.br_mask == d.br_mask, "operations keep the identity of their instruction");
    vc_assert(u.rob_idx == dis2rob.uop[0].rob_idx && u.rob_flag == dis2rob.uop[0].rob_flag, "operations name their reorder-buffer entry");
  }
}
#define ONLY(...) do { static const int qs_[] = {__VA_ARGS__}; bool want_[IQ_NUM] = {}; for (int q_ : qs_) want_[q_] = true; for (int q_ = 0; q_ < IQ_NUM; q_++) vc_assert(P.has[q_] == want_[q_], "the instruction is split into its operations"); } while (0)
static Raw<AluUnit> alu; static Raw<MulUnit> mul; static Raw<DivUnit> dvu; static Raw<BruUnit> bru; static Raw<AguUnit> agu; static Raw<SduUnit> sdu; static Raw<FPUSoftfloat> fpu;
static void run(ExuInst &u) {
  uint64_t bit = 1ull << u.op;
  if (bit & OP_MASK_MUL) mul.v.MulUnit::impl_compute(u);
  else if (bit & OP_MASK_DIV) dvu.v.DivUnit::impl_compute(u);
  else if (bit & OP_MASK_BR) bru.v.BruUnit::impl_compute(u);
  else if (bit & (OP_MASK_LD | OP_MASK_STA)) agu.v.AguUnit::impl_compute(u);
  else if (bit & OP_MASK_STD) sdu.v.SduUnit::impl_compute(u);
  else if (bit & OP_MASK_FP) fpu.v.FPUSoftfloat::impl_compute(u);
  else if (bit & OP_MASK_ALU) alu.v.AluUnit::impl_compute(u);
  else vc_assert(bit & OP_MASK_CSR, "every operation has a functional unit");
}
static void dest(const DecRenIO::DecRenInst &d, uint32_t inst) {
  uint32_t rd = isa::rd(inst);
  vc_assert(d.dest_en == (rd != 0) && IMPLIES(d.dest_en, d.dest_areg == rd), "the result goes to rd and x0 is never a destination");
}
static void legal(const DecRenIO::DecRenInst &d) { vc_assert(!d.illegal_inst && !d.page_fault_inst, "a defined instruction is not illegal"); }
static void reads(const ExuInst &u, uint32_t rs1, uint32_t rs2) {
  vc_assert(IMPLIES(u.src1_en, u.src1_preg == rs1 || u.src1_preg == 0) && IMPLIES(u.src2_en, u.src2_preg == rs2), "waits only for its own source registers");
}

VC_DRIVER(exec_compute) {
  const isa::Pat &p = isa::kCompute[vc_choose(isa::N_COMPUTE)];
  uint32_t inst = (vc_u32("inst") & ~p.mask) | p.match, v = 0;
  DecRenIO::DecRenInst &d = dec_inst(inst);
  dest(d, inst); legal(d);
  vc_cover("a computational instruction");
  dispatch(d); ONLY(IQ_INT);
  ExuInst &u = P.u[IQ_INT];
  reads(u, isa::rs1(inst), isa::rs2(inst));
  vc_assert(u.dest_en == d.dest_en && IMPLIES(u.dest_en, u.dest_preg == DEST), "the operation writes the destination");
  vc_assert(d.type == ADD || d.type == MUL || d.type == DIV, "no side effect at commit");
  run(u);
  vc_assert(isa::compute(inst, PC, rval(isa::rs1(inst)), rval(isa::rs2(inst)), v), "defined");
  vc_assert(u.result == v, "computed value");
  vc_assert(!u.flush_pipe && !u.mispred && !u.page_fault_inst, "no flush");
}
VC_DRIVER(exec_control) {
  uint32_t k = vc_choose(8), inst = vc_u32("inst");
  static const uint32_t F3[] = {0, 1, 4, 5, 6, 7};
  if (k < 6) inst = (inst & ~0x707fu) | isa::BRANCH | (F3[k] << 12); else if (k == 6) inst = (inst & ~0x7fu) | isa::JAL; else inst = (inst & ~0x707fu) | isa::JALR;
  uint32_t a = rval(isa::rs1(inst)), b = rval(isa::rs2(inst));
  DecRenIO::DecRenInst &d = dec_inst(inst);
  legal(d);
  vc_cover("a control transfer");
  dispatch(d);
  bool taken = true; uint32_t target;
  if (k < 6) { ONLY(IQ_BR); isa::branch(isa::f3(inst), a, b, taken); target = PC + isa::imm_b(inst); vc_assert(!d.dest_en && d.type == BR, "a branch writes no register"); }
  else { ONLY(IQ_INT, IQ_BR); target = k == 6 ? PC + isa::imm_j(inst) : (a + isa::imm_i(inst)) & ~1u; dest(d, inst); vc_assert(d.type == (k == 6 ? JAL : JALR), "kind of jump"); }
  vc_assert(d.is_ret == (k == 7 && isa::rd(inst) == 0 && isa::rs1(inst) == 1 && isa::imm_i(inst) == 0), "return recognised");
  ExuInst &j = P.u[IQ_BR];
  vc_assert(!j.dest_en, "the jump itself writes no register");
  reads(j, isa::rs1(inst), isa::rs2(inst));
  j.ftq_resp_valid = true; j.ftq_pred_taken = vc_bool("pred_taken"); j.ftq_next_pc = vc_u32("pred_target");
  run(j);
  uint32_t next = taken ? target : PC + 4, pred = j.ftq_pred_taken ? j.ftq_next_pc : PC + 4;
  vc_assert(j.br_taken == taken, "branch direction");
  vc_assert(j.diag_val == next, "next instruction address");
  vc_assert(j.mispred || pred == next, "a wrong prediction is always detected");
  vc_assert(!j.mispred || j.ftq_pred_taken != taken || pred != next, "a right prediction is not flagged");
  if (k >= 6) {
    ExuInst &u = P.u[IQ_INT];
    run(u);
    vc_assert(u.dest_en == d.dest_en && IMPLIES(u.dest_en, u.dest_preg == DEST), "the link goes to rd");
    vc_assert(u.result == PC + 4, "link address");
    vc_assert(!u.src1_en && !u.src2_en, "the link waits for no register");
  }
}
VC_DRIVER(exec_memory) {
  uint32_t k = vc_choose(8), inst = vc_u32("inst");
  static const uint32_t F3[] = {0, 1, 2, 4, 5, 0, 1, 2};
  bool load = k < 5;
  inst = (inst & ~0x707fu) | (load ? isa::LOAD : isa::STORE) | (F3[k] << 12);
  uint32_t a = rval(isa::rs1(inst)), b = rval(isa::rs2(inst));
  DecRenIO::DecRenInst &d = dec_inst(inst);
  legal(d);
  vc_assert(d.type == (load ? LOAD : STORE) && !d.is_atomic, "kind of access");
  vc_cover("a load or store");
  dispatch(d);
  if (load) { ONLY(IQ_LD); dest(d, inst); } else { ONLY(IQ_STA, IQ_STD); vc_assert(!d.dest_en, "a store writes no register"); }
  ExuInst &u = P.u[load ? IQ_LD : IQ_STA];
  reads(u, isa::rs1(inst), isa::rs2(inst));
  vc_assert(!u.src2_en, "the address waits for the base register only");
  run(u);
  vc_assert(u.result == a + (load ? isa::imm_i(inst) : isa::imm_s(inst)), "effective address");
  vc_assert(u.func3 == isa::f3(inst) && !u.is_atomic, "access size");
  vc_assert(u.dest_en == d.dest_en && IMPLIES(u.dest_en, u.dest_preg == DEST), "destination");
  if (!load) {
    ExuInst &s = P.u[IQ_STD];
    vc_assert(!s.src1_en && !s.dest_en, "the data waits for rs2 only");
    run(s);
    vc_assert(s.result == b && s.func3 == isa::f3(inst) && !s.is_atomic, "store data");
  }
}
VC_DRIVER(exec_atomic) {
  static const uint32_t F5[] = {0, 1, 4, 8, 0xc, 0x10, 0x14, 0x18, 0x1c, 2, 3};
  uint32_t k = vc_choose(11), inst = (vc_u32("inst") & ~0xf800707fu) | isa::AMO | (2u << 12) | (F5[k] << 27);
  if (k == 9) vc_assume(isa::rs2(inst) == 0);
  uint32_t a = rval(isa::rs1(inst)), b = rval(isa::rs2(inst)), rd = isa::rd(inst), v = 0;
  DecRenIO::DecRenInst &d = dec_inst(inst);
  legal(d);
  vc_assert(d.type == AMO && d.is_atomic && (d.func7 >> 2) == F5[k], "kind of atomic");
  vc_assert(IMPLIES(d.dest_en && d.dest_areg < 32, d.dest_areg == rd && rd != 0) && IMPLIES(rd != 0, d.dest_en && d.dest_areg == rd) && d.dest_areg <= 32, "the old value goes to rd");
  vc_cover("an atomic");
  dispatch(d);
  bool rmw = k < 9, lr = k == 9;
  if (rmw) ONLY(IQ_LD, IQ_STA, IQ_STD); else if (lr) ONLY(IQ_LD); else ONLY(IQ_STA, IQ_STD);
  if (rmw) vc_assert(d.dest_en, "a read-modify-write always has a place for the old value");
  if (rmw || lr) {
    ExuInst &l = P.u[IQ_LD];
    run(l);
    vc_assert(l.result == a && l.func3 == 2 && l.is_atomic && !l.src2_en && (l.func7 >> 2) == F5[k], "load address");
    vc_assert(l.dest_en == d.dest_en && IMPLIES(l.dest_en, l.dest_preg == DEST), "the load writes the destination");
  }
  if (!lr) {
    ExuInst &s = P.u[IQ_STA], &t = P.u[IQ_STD];
    run(s);
    vc_assert(s.result == a && s.func3 == 2 && s.is_atomic && !s.src2_en && (s.func7 >> 2) == F5[k], "store address");
    vc_assert(!t.dest_en && IMPLIES(rmw, !s.dest_en) && IMPLIES(!rmw && rd != 0, s.dest_en && s.dest_preg == DEST), "the success flag goes to rd");
    vc_assert(IMPLIES(rmw && k != 1, dis2iss.req[IQ_STD][0].uop.src1_en && dis2iss.req[IQ_STD][0].uop.src1_busy), "the new value waits for the old one");
    run(t);
    if (rmw) isa::amo(F5[k], memold(), b, v); else v = b;
    vc_assert(t.result == v && t.func3 == 2 && t.is_atomic, "stored value");
  }
}
VC_DRIVER(exec_fp) {
  uint32_t k = vc_choose(18), mask = fps::FPS[k].mask, match = fps::FPS[k].match;
  bool has_rm = !(mask & 0x7000);
  static const uint32_t RMS[] = {0, 1, 2, 3, 4, 7};
  if (has_rm) { mask |= 0x7000; match |= RMS[vc_choose(6)] << 12; }
  uint32_t inst = (vc_u32("inst") & ~mask) | match;
  DecRenIO::DecRenInst &d = dec_inst(inst);
  dest(d, inst); legal(d);
  vc_assert(d.type == FP, "kind of instruction");
  vc_cover("a Zfinx instruction");
  dispatch(d); ONLY(IQ_INT);
  ExuInst &u = P.u[IQ_INT];
  reads(u, isa::rs1(inst), isa::rs2(inst));
  run(u);
  uint32_t v = fps::value(k, inst, rval(isa::rs1(inst)), rval(isa::rs2(inst)), 0);
  vc_assert(u.dest_en == d.dest_en && IMPLIES(u.dest_en, u.dest_preg == DEST), "the operation writes the destination");
  vc_assert(u.result == v, "floating-point result");
}
VC_DRIVER(exec_system) {
  struct S { uint32_t mask, match; InstType t; };
  static const S K[] = {{0xffffffff, 0x00000073, ECALL}, {0xffffffff, 0x00100073, EBREAK}, {0xffffffff, 0x30200073, MRET}, {0xffffffff, 0x10200073, SRET}, {0xffffffff, 0x10500073, WFI},
                        {0xfe007fff, 0x12000073, SFENCE_VMA}, {0x707f, 0x000f, FENCE}, {0x707f, 0x100f, FENCE_I}};
  const S &s = K[vc_choose(8)];
  uint32_t inst = (vc_u32("inst") & ~s.mask) | s.match;
  DecRenIO::DecRenInst &d = dec_inst(inst);
  legal(d);
  vc_assert(d.type == s.t, "the event reaches commit");
  vc_assert(!d.dest_en && !d.is_atomic && !d.is_ret, "no register is written");
  vc_cover("a system instruction");
  dispatch(d); ONLY(IQ_INT);
  ExuInst &u = P.u[IQ_INT];
  vc_assert((1ull << u.op) & (OP_MASK_ALU | OP_MASK_CSR), "executed by a unit of its queue");
  vc_assert(!u.dest_en && u.op != UOP_CSR, "no register or CSR is written");
  if (s.t == SFENCE_VMA) reads(u, isa::rs1(inst), isa::rs2(inst)); else vc_assert(!u.src1_en && !u.src2_en, "waits for nothing");
}
static const uint32_t CSRS[] = {0x300, 0x301, 0x302, 0x303, 0x304, 0x305, 0x340, 0x341, 0x342, 0x343, 0x344, 0x100, 0x104, 0x105, 0x140, 0x141, 0x142, 0x143, 0x144, 0x180, 0xf14};
VC_DRIVER(exec_csr) {
  static const uint32_t F3[] = {1, 2, 3, 5, 6, 7};
  uint32_t c = CSRS[vc_choose(21)], f3 = F3[vc_choose(6)];
  uint32_t inst = (vc_u32("inst") & 0x000f8f80u) | (c << 20) | (f3 << 12) | isa::SYSTEM;
  DecRenIO::DecRenInst &d = dec_inst(inst);
  legal(d); dest(d, inst);
  vc_assert(d.type == CSR && d.csr_idx == c, "CSR number");
  vc_cover("a CSR access");
  dispatch(d); ONLY(IQ_INT);
  ExuInst &u = P.u[IQ_INT];
  vc_assert(u.op == UOP_CSR && u.csr_idx == c && u.func3 == f3, "CSR operation");
  vc_assert(u.imm == isa::rs1(inst) && u.src2_is_imm == (f3 >= 4), "immediate operand");
  vc_assert(f3 >= 4 || (u.src1_en && u.src1_preg == isa::rs1(inst)), "register operand");
  vc_assert(u.dest_en == d.dest_en && IMPLIES(u.dest_en, u.dest_preg == DEST), "the old value goes to rd");
}
VC_DRIVER(exec_fault) {
  bool pf = vc_choose(2);
  uint32_t inst = vc_u32("inst"), op = inst & 0x7f;
  if (!pf) {
    static const uint32_t OPS[] = {0x37, 0x17, 0x6f, 0x67, 0x63, 0x03, 0x23, 0x13, 0x33, 0x0f, 0x73, 0x2f, 0x53};
    bool time_csr = op == 0x73 && ((inst >> 12) & 3) && ((inst >> 20) == 0xc01 || (inst >> 20) == 0xc81);
    for (uint32_t o : OPS) vc_assume(time_csr || op != o);
    vc_assume((op & 0x73) != 0x43); // fused multiply-add: not specified here
  }
  DecRenIO::DecRenInst &d = dec_inst(inst, pf);
  vc_assert(d.illegal_inst == !pf, "an undefined instruction is illegal");
  vc_assert(d.diag_val == inst, "the faulting word is recorded");
  vc_assert(d.type == NOP && !d.dest_en && !d.src1_en && !d.src2_en && !d.is_atomic && !d.is_ret, "a faulting instruction has no other effect");
  vc_cover("an illegal instruction or a fetch fault");
  dispatch(d); ONLY(IQ_INT);
  vc_assert(!P.u[IQ_INT].dest_en && P.u[IQ_INT].op != UOP_CSR, "no register or CSR is written");
  vc_assert(dis2rob.uop[0].page_fault_inst == pf && dis2rob.uop[0].illegal_inst == !pf && dis2rob.uop[0].type == NOP && dis2rob.uop[0].diag_val == inst, "the fault is recorded in the reorder buffer");
}
