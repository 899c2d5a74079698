// Contract of the physical register file (back-end/Prf.cpp): operand read with
// forwarding, write-back, load wake-up.
#include "vc.h"
#include "Prf.h"
#include "config.h"
#include "util.h"
long long sim_time;
static Raw<Prf> g_p;
#define R (g_p.v)
static IssPrfIO iss; static ExePrfIO exe; static DecBroadcastIO dbc; static RobBroadcastIO rbc; static FtqPrfPcRespIO fresp; static FtqPrfPcReqIO freq; static PrfExeIO out; static PrfAwakeIO awk;
static ExePrfIO::ExePrfEntry old_r[ISSUE_WIDTH];
static void setup() {
  R.in = {&iss, &exe, &dbc, &rbc, &fresp}; R.out = {&out, &awk, &freq}; R.ctx = nullptr;
  vc_havoc(R.reg_file, sizeof R.reg_file, "regs"); vc_havoc(R.inst_r, sizeof R.inst_r, "wb_stage");
  vc_havoc(&iss, sizeof iss, "iss"); vc_havoc(&exe, sizeof exe, "exe"); vc_havoc(&dbc, sizeof dbc, "dbc"); vc_havoc(&rbc, sizeof rbc, "rbc");
  vc_havoc(&out, sizeof out, "out"); vc_havoc(&awk, sizeof awk, "awk"); vc_havoc(&freq, sizeof freq, "freq"); vc_havoc(&fresp, sizeof fresp, "fresp");
  R.reg_file[0] = 0;
  for (int i = 0; i < ISSUE_WIDTH; i++) vc_assume(iss.iss_entry[i].uop.src1_preg < PRF_NUM && iss.iss_entry[i].uop.src2_preg < PRF_NUM && R.inst_r[i].uop.dest_preg < PRF_NUM && exe.entry[i].uop.dest_preg < PRF_NUM && iss.iss_entry[i].uop.op < MAX_UOP_TYPE);
  memcpy(old_r, R.inst_r, sizeof old_r);
}
static bool hit(const ExePrfIO::ExePrfEntry &e, uint32_t p) { return e.valid && e.uop.dest_en && e.uop.dest_preg == p; }
// current value of a physical register; at most one producer per stage holds it
static uint32_t current(uint32_t p) {
  uint32_t v = R.reg_file[p]; int n = 0, m = 0;
  for (int i = 0; i < ISSUE_WIDTH; i++) if (hit(R.inst_r[i], p)) { v = R.inst_r[i].uop.result; n++; }
  for (int i = 0; i < TOTAL_FU_COUNT; i++) if (hit(exe.bypass[i], p)) { v = exe.bypass[i].uop.result; m++; }
  vc_assume(p == 0 || (n <= 1 && m <= 1));
  return p == 0 ? 0 : v;
}
static bool killed(const ExePrfIO::ExePrfWbUop &u) { return dbc.mispred && (u.br_mask & dbc.br_mask); }

VC_DRIVER(prf_read) {
  setup();
  uint32_t p = vc_choose(ISSUE_WIDTH);
  const auto &u = iss.iss_entry[p].uop;
  R.comb_begin(); R.comb_req_ftq();
  for (int i = 0; i < FTQ_PRF_PC_PORT_NUM; i++) {
    auto &q = freq.req[i]; auto &r = fresp.resp[i];
    if (!q.valid) continue;
    r.valid = true; r.entry_valid = true; r.pc = vc_uf("ftq_pc", 2, q.ftq_idx, q.ftq_offset, 0, 0); r.pred_taken = vc_uf("ftq_taken", 2, q.ftq_idx, q.ftq_offset, 0, 0) & 1; r.next_pc = vc_uf("ftq_next", 1, q.ftq_idx, 0, 0, 0);
  }
  R.comb_awake(); R.comb_read(); R.comb_complete(); R.comb_write();
  const auto &o = out.iss_entry[p].uop;
  vc_assert(out.iss_entry[p].valid == iss.iss_entry[p].valid, "an issued operation is passed on");
  vc_assume(iss.iss_entry[p].valid);
  vc_cover("an operation reads its operands");
  vc_assert(o.src1_rdata == (u.src1_en ? current(u.src1_preg) : 0), "first operand is the current value of its register");
  vc_assert(o.src2_rdata == (u.src2_en ? current(u.src2_preg) : 0), "second operand is the current value of its register");
  vc_assert(o.dest_preg == u.dest_preg && o.dest_en == u.dest_en && o.src1_en == u.src1_en && o.src2_en == u.src2_en && o.src1_is_pc == u.src1_is_pc && o.src2_is_imm == u.src2_is_imm && o.imm == u.imm &&
            o.func3 == u.func3 && o.func7 == u.func7 && o.op == u.op && o.csr_idx == u.csr_idx && o.is_atomic == u.is_atomic && o.src1_preg == u.src1_preg && o.src2_preg == u.src2_preg, "the operation itself is unchanged");
  vc_assert(o.rob_idx == u.rob_idx && o.rob_flag == u.rob_flag && o.stq_idx == u.stq_idx && o.stq_flag == u.stq_flag && o.ldq_idx == u.ldq_idx && o.br_id == u.br_id && o.br_mask == u.br_mask && o.ftq_idx == u.ftq_idx && o.ftq_offset == u.ftq_offset, "it keeps its identity");
  uint64_t bit = 1ull << u.op;
  bool alu = (GLOBAL_ISSUE_PORT_CONFIG[p].support_mask & OP_MASK_ALU) && (bit & OP_MASK_ALU) && u.src1_is_pc, br = (GLOBAL_ISSUE_PORT_CONFIG[p].support_mask & OP_MASK_BR) && (bit & OP_MASK_BR);
  if (alu || br) {
    vc_cover("an operation reads its pc");
    vc_assert(o.pc == vc_uf("ftq_pc", 2, u.ftq_idx, u.ftq_offset, 0, 0), "pc-relative operations see their own pc");
    vc_assert(o.ftq_resp_valid && o.ftq_pred_taken == (vc_uf("ftq_taken", 2, u.ftq_idx, u.ftq_offset, 0, 0) & 1) && o.ftq_next_pc == vc_uf("ftq_next", 1, u.ftq_idx, 0, 0, 0), "branches see the prediction made for them");
  }
}
VC_DRIVER(prf_write) {
  setup();
  uint32_t p = vc_choose(PRF_NUM), n = 0;
  uint32_t v = R.reg_file[p];
  for (int i = 0; i < ISSUE_WIDTH; i++) if (hit(R.inst_r[i], p)) { v = R.inst_r[i].uop.result; n++; }
  vc_assume(p == 0 || n <= 1);
  R.comb_begin(); R.comb_awake(); R.comb_complete(); R.comb_req_ftq(); R.comb_read(); R.comb_write(); R.comb_pipeline(); R.seq();
  vc_cover("a cycle");
  vc_assert(R.reg_file[p] == (p ? v : 0), "exactly the written-back results change the file; x0 stays zero");
}
VC_DRIVER(prf_accept) {
  setup();
  uint32_t i = vc_choose(ISSUE_WIDTH);
  R.comb_begin(); R.comb_awake(); R.comb_complete(); R.comb_req_ftq(); R.comb_read(); R.comb_write(); R.comb_pipeline(); R.seq();
  vc_cover("a cycle");
  const auto &e = exe.entry[i];
  bool live = e.valid && !rbc.flush && !killed(e.uop);
  vc_assert(R.inst_r[i].valid == live, "a result is accepted unless it was cancelled");
  if (live) vc_assert(R.inst_r[i].uop.dest_en == e.uop.dest_en && R.inst_r[i].uop.dest_preg == e.uop.dest_preg && R.inst_r[i].uop.result == e.uop.result && R.inst_r[i].uop.op == e.uop.op && R.inst_r[i].uop.br_mask == (e.uop.br_mask & ~dbc.clear_mask), "with its value and register");
}
VC_DRIVER(prf_wake) {
  setup();
  uint32_t p = vc_u32("probe"); int n = 0; bool any = false; vc_assume(p < PRF_NUM);
  for (int i = 0; i < ISSUE_WIDTH; i++) {
    bool ld = R.inst_r[i].valid && R.inst_r[i].uop.dest_en && R.inst_r[i].uop.op == UOP_LOAD;
    vc_assume(!ld || (GLOBAL_ISSUE_PORT_CONFIG[i].support_mask & OP_MASK_LD)); // load results come back on load ports
    if (ld && !killed(R.inst_r[i].uop)) { n++; any |= R.inst_r[i].uop.dest_preg == p; }
  }
  R.comb_begin(); R.comb_awake();
  vc_cover("loads write back");
  bool woken = false;
  for (auto &w : awk.wake) woken |= w.valid && w.preg == p;
  vc_assert(woken == any, "exactly the registers loaded by live loads are announced");
}
VC_DRIVER(prf_init) {
  vc_havoc(&R, sizeof R, "prf");
  R.init();
  uint32_t p = vc_u32("p"); vc_assume(p < PRF_NUM);
  vc_cover("reset");
  vc_assert(R.reg_file[p] == 0, "registers are zero after reset");
  for (int i = 0; i < ISSUE_WIDTH; i++) vc_assert(!R.inst_r[i].valid, "no result is pending after reset");
}
