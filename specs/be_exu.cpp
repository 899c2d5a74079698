// Contract of the execution stage (Exu.cpp, AbstractFU.h): every micro-operation
// accepted by a port waits in a unit able to execute it, is delivered exactly once
// with its own result unless it is cancelled, and resolved branches are reported.
//
// The state of one unit is: nothing, an operation in its input slot, or (multi-cycle
// units) an operation in flight.  One cycle is verified from an arbitrary state that
// satisfies the invariant `setup` assumes and `check_unit` re-establishes.
#include "vc.h"
#include "Exu.h"
#define fadd_io_generator spec_fadd_gen
#define fmul_io_generator spec_fmul_gen
#define FADD_PI_WIDTH spec_fadd_pi // FPU.h defines these objects in every translation unit
#define FADD_PO_WIDTH spec_fadd_po
#define FMUL_PI_WIDTH spec_fmul_pi
#define FMUL_PO_WIDTH spec_fmul_po
#include "FPU.h"
#include "SimCpu.h"
#include "util.h"
#include "config.h"
long long sim_time;
static Raw<SimContext> g_ctx;
static PrfExeIO prf2exe; static DecBroadcastIO dbc; static RobBroadcastIO rbc; static CsrExeIO csr2exe; static LsuExeIO lsu2exe; static CsrStatusIO csrst;
static ExePrfIO exe2prf; static ExeIssIO exe2iss; static ExeCsrIO exe2csr; static ExeLsuIO exe2lsu; static ExuIdIO exu2id; static ExuRobIO exu2rob;
static Exu *X;

enum Kind { K_ONE, K_MUL, K_ITER };
static uint64_t unit_mask[TOTAL_FU_COUNT];   // operations unit k executes
static int unit_port[TOTAL_FU_COUNT];
static int unit_rank[TOTAL_FU_COUNT];        // position in its port's write-back order
static int unit_agu[TOTAL_FU_COUNT], unit_sdu[TOTAL_FU_COUNT];
static Kind unit_kind(int k) { return unit_mask[k] & OP_MASK_MUL ? K_MUL : unit_mask[k] & (OP_MASK_DIV | OP_MASK_FP) ? K_ITER : K_ONE; }
static FixedLatencyFU *mul_of(int k) { return static_cast<FixedLatencyFU *>(static_cast<MulUnit *>(X->units[k])); }
static IterativeFU *iter_of(int k) { return static_cast<IterativeFU *>(X->units[k]); }
// The result of an operation is what its unit computes for it (P01, P02 say what that is).
static ExuInst computed(int k, ExuInst u) {
  uint64_t m = unit_mask[k];
  if (m & OP_MASK_MUL) static_cast<MulUnit *>(X->units[k])->MulUnit::impl_compute(u);
  else if (m & OP_MASK_DIV) static_cast<DivUnit *>(X->units[k])->DivUnit::impl_compute(u);
  else if (m & OP_MASK_FP) static_cast<FPUSoftfloat *>(X->units[k])->FPUSoftfloat::impl_compute(u);
  else if (m & (OP_MASK_LD | OP_MASK_STA)) static_cast<AguUnit *>(X->units[k])->AguUnit::impl_compute(u);
  else if (m & OP_MASK_STD) static_cast<SduUnit *>(X->units[k])->SduUnit::impl_compute(u);
  else if (m & OP_MASK_BR) static_cast<BruUnit *>(X->units[k])->BruUnit::impl_compute(u);
  else if (m & OP_MASK_ALU) static_cast<AluUnit *>(X->units[k])->AluUnit::impl_compute(u);
  return u;
}

static void build() {
  X = new Exu(&g_ctx.v);
  X->in.prf2exe = &prf2exe; X->in.dec_bcast = &dbc; X->in.rob_bcast = &rbc; X->in.csr2exe = &csr2exe; X->in.lsu2exe = &lsu2exe; X->in.csr_status = &csrst;
  X->out.exe2prf = &exe2prf; X->out.exe2iss = &exe2iss; X->out.exe2csr = &exe2csr; X->out.exe2lsu = &exe2lsu; X->out.exu2id = &exu2id; X->out.exu2rob = &exu2rob;
  X->init();
  for (int k = 0; k < TOTAL_FU_COUNT; k++) unit_port[k] = -1;
  for (int p = 0; p < ISSUE_WIDTH; p++) {
    int r = 0;
    for (auto &e : X->port_mappings[p].entries) {
      unit_mask[e.fu_idx] = e.support_mask; unit_port[e.fu_idx] = p; unit_rank[e.fu_idx] = r++;
      unit_agu[e.fu_idx] = e.lsu_agu_port; unit_sdu[e.fu_idx] = e.lsu_sdu_port;
    }
  }
}
// State before the cycle.
static bool was_valid[TOTAL_FU_COUNT]; static ExuInst was[TOTAL_FU_COUNT];
static bool was_busy[TOTAL_FU_COUNT];  static ExuInst flying[TOTAL_FU_COUNT]; static int64_t due[TOTAL_FU_COUNT];
static bool legal_op(const ExuInst &u, uint64_t mask) { return u.op < MAX_UOP_TYPE && (mask >> u.op) & 1; }
static void setup(int nmul) {
  build();
  vc_havoc(&dbc, sizeof dbc, "dec_bcast"); vc_havoc(&rbc, sizeof rbc, "rob_bcast"); vc_havoc(&csr2exe, sizeof csr2exe, "csr2exe"); vc_havoc(&csrst, sizeof csrst, "csr_status");
  vc_havoc(&lsu2exe, sizeof lsu2exe, "lsu2exe"); vc_havoc(&prf2exe, sizeof prf2exe, "prf2exe");
  vc_havoc(&exe2prf, sizeof exe2prf, "exe2prf"); vc_havoc(&exe2iss, sizeof exe2iss, "exe2iss"); vc_havoc(&exe2csr, sizeof exe2csr, "exe2csr"); vc_havoc(&exe2lsu, sizeof exe2lsu, "exe2lsu"); vc_havoc(&exu2id, sizeof exu2id, "exu2id"); vc_havoc(&exu2rob, sizeof exu2rob, "exu2rob");
  sim_time = (long long)(vc_u64("sim_time") & 0xffffffffffffull);
  vc_havoc(X->fu_inst_r, sizeof X->fu_inst_r, "slots"); vc_havoc(X->fu_inst_r_1, sizeof X->fu_inst_r_1, "slots_1");
  for (int k = 0; k < TOTAL_FU_COUNT; k++) {
    auto &s = X->fu_inst_r[k];
    vc_assume(IMPLIES(s.valid, legal_op(s.uop, unit_mask[k])));
    was_valid[k] = s.valid; was[k] = s.uop; was_busy[k] = false;
    if (unit_kind(k) == K_MUL) {
      if (nmul) {
        ExuInst u; vc_havoc(&u, sizeof u, "mul_in_flight");
        vc_assume(legal_op(u, unit_mask[k]));
        FixedLatencyFU::PipeEntry e{}; e.uop = u; e.done_cycle = (int64_t)(vc_u64("mul_done") & 0xffffffffffffull);
        vc_assume(e.done_cycle <= sim_time);
        mul_of(k)->pipeline.push_back(e);
        was_busy[k] = true; flying[k] = u; due[k] = e.done_cycle;
      }
    } else if (unit_kind(k) == K_ITER) {
      IterativeFU *f = iter_of(k);
      f->busy = vc_bool("busy"); f->done_cycle = (int64_t)(vc_u64("done") & 0xffffffffffffull);
      vc_assume(IMPLIES(f->busy, s.valid));
      f->current_inst = computed(k, s.uop);
      was_busy[k] = f->busy; flying[k] = f->current_inst; due[k] = f->done_cycle;
    }
  }
}
// A misprediction cancels the instructions after one branch (P09).
static void cycle() {
  vc_assume(IMPLIES(dbc.mispred, dbc.br_mask != 0 && (dbc.br_mask & (dbc.br_mask - 1)) == 0));
  X->comb_begin(); X->comb_to_csr(); X->comb_exec(); X->comb_ready();
  // The issue stage sends an operation only to a port that declared itself ready for it.
  for (int p = 0; p < ISSUE_WIDTH; p++) {
    auto &e = prf2exe.iss_entry[p];
    vc_assume(IMPLIES(e.valid, e.uop.op < MAX_UOP_TYPE && (exe2iss.fu_ready_mask[p] >> e.uop.op) & 1));
  }
  X->comb_pipeline(); X->seq();
}
static bool killed(uint32_t br_mask) { return rbc.flush || (dbc.mispred && (br_mask & dbc.br_mask) != 0); }
static ExuInst cleared(ExuInst u) { u.br_mask &= (wire<BR_MASK_WIDTH>)~dbc.clear_mask; return u; }
// Operation unit k finishes in this cycle, if any.
static bool finishes(int k) {
  switch (unit_kind(k)) {
  case K_ONE: return was_valid[k] && !killed(was[k].br_mask);
  case K_MUL: return was_busy[k] && !killed(flying[k].br_mask);
  default: return was_busy[k] && due[k] <= sim_time && !killed(flying[k].br_mask);
  }
}
static ExuInst finished(int k) { return unit_kind(k) == K_ONE ? computed(k, cleared(was[k])) : cleared(flying[k]); }
// A port delivers one result per cycle.
static bool delivered(int k) {
  if (!finishes(k)) return false;
  for (int j = 0; j < TOTAL_FU_COUNT; j++) if (unit_port[j] == unit_port[k] && unit_rank[j] < unit_rank[k] && finishes(j)) return false;
  return true;
}
static bool same_op(const ExuInst &a, const ExuInst &b) {
  return a.pc == b.pc && a.ftq_resp_valid == b.ftq_resp_valid && a.ftq_pred_taken == b.ftq_pred_taken && a.ftq_next_pc == b.ftq_next_pc && a.dest_preg == b.dest_preg && a.src1_rdata == b.src1_rdata &&
         a.src2_rdata == b.src2_rdata && a.ftq_idx == b.ftq_idx && a.ftq_offset == b.ftq_offset && a.is_atomic == b.is_atomic && a.dest_en == b.dest_en && a.src1_en == b.src1_en && a.src2_en == b.src2_en &&
         a.src1_is_pc == b.src1_is_pc && a.src2_is_imm == b.src2_is_imm && a.func3 == b.func3 && a.func7 == b.func7 && a.imm == b.imm && a.br_id == b.br_id && a.br_mask == b.br_mask && a.csr_idx == b.csr_idx &&
         a.rob_idx == b.rob_idx && a.stq_idx == b.stq_idx && a.stq_flag == b.stq_flag && a.ldq_idx == b.ldq_idx && a.rob_flag == b.rob_flag && a.op == b.op && a.dbg.pc == b.dbg.pc && a.dbg.instruction == b.dbg.instruction;
}
static bool same_inst(const ExuInst &a, const ExuInst &b) { return same_op(a, b) && a.result == b.result && a.diag_val == b.diag_val && a.mispred == b.mispred && a.br_taken == b.br_taken && a.flush_pipe == b.flush_pipe && a.page_fault_inst == b.page_fault_inst; }

// The operations a unit holds after the cycle.
VC_DRIVER(exu_hold) {
  int nmul = vc_choose(2); int k = vc_choose(TOTAL_FU_COUNT);
  setup(nmul);
  vc_assert(unit_port[k] >= 0 && unit_mask[k] != 0, "every unit belongs to a port");
  cycle();
  int p = unit_port[k];
  auto &e = prf2exe.iss_entry[p];
  bool arrives = e.valid && ((unit_mask[k] >> e.uop.op) & 1) && !killed(e.uop.br_mask);
  bool waits = was_valid[k] && !killed(was[k].br_mask) && unit_kind(k) != K_MUL && !delivered(k);
  auto &s = X->fu_inst_r[k];
  vc_assert(!(arrives && waits), "an operation is accepted only by a unit with a free input slot");
  vc_assert(s.valid == (arrives || waits), "a unit holds exactly the operation that arrived or is still waiting; a finished or cancelled one is gone");
  vc_assert(IMPLIES(arrives, same_op(s.uop, cleared(ExuInst::from_prf_exe_uop(e.uop))) && s.uop.result == 0 && !s.uop.mispred && s.uop.diag_val == 0 && !s.uop.flush_pipe && !s.uop.page_fault_inst), "an accepted operation enters the unit unchanged");
  vc_assert(IMPLIES(waits, same_inst(s.uop, cleared(was[k]))), "a waiting operation is unchanged except for resolved branches");
  vc_assert(IMPLIES(s.valid, legal_op(s.uop, unit_mask[k])), "a unit only receives operations it executes");
  if (unit_kind(k) == K_ITER) {
    IterativeFU *f = iter_of(k);
    vc_assert(f->busy == waits, "a multi-cycle unit is busy exactly while it holds its operation");
    vc_assert(IMPLIES(f->busy, same_inst(f->current_inst, computed(k, s.uop))), "the operation in flight is the one in the slot");
    vc_assert(IMPLIES(f->busy && !was_busy[k], f->done_cycle >= sim_time && f->done_cycle <= sim_time + 18), "a started operation finishes within the latency of its unit");
    vc_assert(IMPLIES(f->busy && was_busy[k], f->done_cycle == due[k]), "the completion time of an operation does not move");
  } else if (unit_kind(k) == K_MUL) {
    auto &q = mul_of(k)->pipeline;
    bool entered = was_valid[k] && !killed(was[k].br_mask);
    vc_assert(q.size() == (entered ? 1u : 0u), "the multiplier holds exactly the operation that entered it in this cycle");
    if (q.size() == 1) vc_assert(same_inst(q.front().uop, computed(k, cleared(was[k]))) && q.front().done_cycle <= sim_time + 1, "the multiplication in flight keeps its identity and result and finishes in the next cycle");
  }
  vc_cover("hold");
}

// What a port delivers.
VC_DRIVER(exu_deliver) {
  int nmul = vc_choose(2); int k = vc_choose(TOTAL_FU_COUNT);
  setup(nmul);
  int p = unit_port[k];
  bool int_port = p >= IQ_ALU_PORT_BASE && p < IQ_ALU_PORT_BASE + ALU_NUM;
  bool ld_port = p >= IQ_LD_PORT_BASE && p < IQ_LD_PORT_BASE + LSU_LOAD_WB_WIDTH, sta_port = p >= IQ_STA_PORT_BASE && p < IQ_STA_PORT_BASE + LSU_STA_COUNT;
  cycle();
  bool d = delivered(k);
  ExuInst u; if (finishes(k)) u = finished(k);
  auto &by = exe2prf.bypass[k];
  vc_assert(by.valid == finishes(k), "the result of a finished operation is broadcast to the operands, no other");
  vc_assert(IMPLIES(by.valid && u.op != UOP_CSR, by.uop.result == u.result), "the broadcast value is the result of the operation");
  vc_assert(IMPLIES(by.valid, by.uop.dest_preg == u.dest_preg && by.uop.dest_en == u.dest_en && by.uop.br_mask == u.br_mask && by.uop.op == u.op), "the broadcast names the destination of the operation");
  if (u.op == UOP_CSR && exe2csr.re) u.result = csr2exe.rdata;
  if (d) {
    bool mem = u.op == UOP_LOAD || u.op == UOP_STA;
    auto &r = exu2rob.entry[p];
    if (!mem) vc_assert(r.valid && r.uop.rob_idx == u.rob_idx && r.uop.result == u.result && r.uop.diag_val == u.diag_val && r.uop.mispred == u.mispred && r.uop.br_taken == u.br_taken && r.uop.op == u.op && r.uop.flush_pipe == u.flush_pipe &&
                            r.uop.page_fault_inst == u.page_fault_inst && !r.uop.page_fault_load && !r.uop.page_fault_store, "a live finished operation completes in the reorder buffer with its own outcome");
    vc_assert(IMPLIES(int_port && u.dest_en, exe2prf.entry[p].valid && exe2prf.entry[p].uop.dest_preg == u.dest_preg && exe2prf.entry[p].uop.result == u.result && exe2prf.entry[p].uop.dest_en && exe2prf.entry[p].uop.br_mask == u.br_mask), "its result is written to its destination register");
    if (mem || u.op == UOP_STD) {
      auto &q = mem ? exe2lsu.agu_req[unit_agu[k]] : exe2lsu.sdu_req[unit_sdu[k]];
      vc_assert(q.valid && q.uop.result == u.result && q.uop.dest_preg == u.dest_preg && q.uop.func3 == u.func3 && q.uop.func7 == u.func7 && q.uop.is_atomic == u.is_atomic && q.uop.br_mask == u.br_mask && q.uop.rob_idx == u.rob_idx &&
                    q.uop.stq_idx == u.stq_idx && q.uop.stq_flag == u.stq_flag && q.uop.ldq_idx == u.ldq_idx && q.uop.rob_flag == u.rob_flag && q.uop.dest_en == u.dest_en && q.uop.op == u.op, "a memory operation is sent to the load/store unit with its address or data");
    }
    vc_cover("delivered");
  }
  // Nothing is reported on a port where no operation finished and no memory result returned.
  bool any = false;
  for (int j = 0; j < TOTAL_FU_COUNT; j++) if (unit_port[j] == p && delivered(j)) any = true;
  bool wb = (ld_port && lsu2exe.wb_req[ld_port ? p - IQ_LD_PORT_BASE : 0].valid) || (sta_port && lsu2exe.sta_wb_req[sta_port ? p - IQ_STA_PORT_BASE : 0].valid);
  if (!any) {
    vc_assert(IMPLIES(!wb, !exu2rob.entry[p].valid && !exe2prf.entry[p].valid), "a port without a finished operation reports nothing");
    if (unit_agu[k] >= 0) vc_assert(!exe2lsu.agu_req[unit_agu[k]].valid, "no address is sent without a finished operation");
    if (unit_sdu[k] >= 0) vc_assert(!exe2lsu.sdu_req[unit_sdu[k]].valid, "no store data is sent without a finished operation");
  }
  if (any && !int_port) vc_assert(IMPLIES(!wb, !exe2prf.entry[p].valid), "only integer and load results are written to registers");
}

// Results of loads, store addresses and atomics coming back from the load/store unit.
VC_DRIVER(exu_memory) {
  setup(0); int i = vc_choose(LSU_LOAD_WB_WIDTH + LSU_STA_COUNT);
  cycle();
  bool ld = i < LSU_LOAD_WB_WIDTH;
  auto &q = ld ? lsu2exe.wb_req[i] : lsu2exe.sta_wb_req[i - LSU_LOAD_WB_WIDTH];
  int p = ld ? IQ_LD_PORT_BASE + i : IQ_STA_PORT_BASE + i - LSU_LOAD_WB_WIDTH;
  auto &w = exe2prf.entry[p]; auto &r = exu2rob.entry[p];
  vc_assert(w.valid == q.valid, "a memory result is written back iff the load/store unit returned one");
  vc_assert(IMPLIES(q.valid, w.uop.dest_preg == q.uop.dest_preg && w.uop.result == q.uop.result && w.uop.dest_en == q.uop.dest_en && w.uop.br_mask == q.uop.br_mask), "the returned value goes to the destination of the access");
  vc_assert(r.valid == (q.valid && !killed(q.uop.br_mask)), "a live returned access completes in the reorder buffer, a cancelled one does not");
  vc_assert(IMPLIES(r.valid, r.uop.rob_idx == q.uop.rob_idx && r.uop.result == q.uop.result && r.uop.diag_val == q.uop.diag_val && r.uop.page_fault_load == q.uop.page_fault_load && r.uop.page_fault_store == q.uop.page_fault_store && r.uop.flush_pipe == q.uop.flush_pipe && !r.uop.mispred && !r.uop.page_fault_inst), "the completion carries the faults of the access");
  vc_cover("memory");
}

// Branch resolution.
static bool older(const ExuInst &a, const ExuInst &b) { return a.rob_flag == b.rob_flag ? a.rob_idx < b.rob_idx : a.rob_idx > b.rob_idx; }
VC_DRIVER(exu_branch) {
  setup(0);
  cycle();
  uint32_t clear = 0; bool mis = false, found = false; const bool no_flush = !rbc.flush;
  ExuInst done[TOTAL_FU_COUNT]; bool res[TOTAL_FU_COUNT];
  for (int k = 0; k < TOTAL_FU_COUNT; k++) {
    res[k] = (unit_mask[k] & OP_MASK_BR) && delivered(k);
    if (!res[k]) continue;
    done[k] = finished(k); vc_assume(done[k].br_id < MAX_BR_NUM);
    clear |= 1u << done[k].br_id; mis = mis || done[k].mispred;
  }
  for (int a = 0; a < TOTAL_FU_COUNT; a++) for (int b = 0; b < a; b++) if ((unit_mask[a] & OP_MASK_BR) && (unit_mask[b] & OP_MASK_BR)) vc_assume(IMPLIES(res[a] && res[b], done[a].rob_idx != done[b].rob_idx)); // one reorder-buffer entry each
  vc_assert(exu2id.clear_mask == clear, "exactly the branches resolved in this cycle are reported resolved");
  vc_assert(exu2id.mispred == mis, "a redirect is requested iff a live branch was mispredicted");
  vc_assert(IMPLIES(!no_flush, !mis && clear == 0), "no branch is reported during a flush");
  for (int k = 0; k < TOTAL_FU_COUNT; k++) {
    if (!(unit_mask[k] & OP_MASK_BR)) continue;
    bool oldest = res[k] && done[k].mispred;
    for (int j = 0; j < TOTAL_FU_COUNT; j++) if (j != k && (unit_mask[j] & OP_MASK_BR)) oldest = oldest && !(res[j] && done[j].mispred && older(done[j], done[k]));
    vc_assert(IMPLIES(oldest, exu2id.redirect_pc == done[k].diag_val && exu2id.redirect_rob_idx == done[k].rob_idx && exu2id.br_id == done[k].br_id && exu2id.ftq_idx == done[k].ftq_idx), "the redirect is the one of the oldest mispredicted branch");
    found = found || oldest;
  }
  vc_assert(IMPLIES(mis, found), "there is an oldest mispredicted branch");
  vc_cover("branch");
}

// Requests to the CSR unit.
VC_DRIVER(exu_csr) {
  setup(0); int c = -1;
  for (int k = 0; k < TOTAL_FU_COUNT; k++) if (unit_mask[k] & OP_MASK_CSR) c = k;
  vc_assert(c >= 0, "some unit executes CSR instructions");
  cycle();
  const ExuInst &u = was[c];
  bool live = was_valid[c] && !killed(u.br_mask);
  bool rw = u.func3 == 1 || u.func3 == 5;
  vc_assert(exe2csr.we == (live && (rw || u.imm != 0)), "a CSR is written by csrrw and by the set/clear forms with a source");
  vc_assert(exe2csr.re == (live && (!rw || u.dest_preg != 0)), "a CSR is read except by csrrw without a destination");
  vc_assert(IMPLIES(live, exe2csr.idx == u.csr_idx && exe2csr.wcmd == (u.func3 & 3)), "the request names the CSR and operation of the instruction");
  vc_assert(IMPLIES(exe2csr.we, exe2csr.wdata == (u.src2_is_imm ? (uint32_t)u.imm : (uint32_t)u.src1_rdata)), "the CSR operand is the immediate or the source register");
  vc_cover("csr");
}

// Readiness reported to the issue stage.
VC_DRIVER(exu_ready) {
  int nmul = vc_choose(2); int k = vc_choose(TOTAL_FU_COUNT);
  setup(nmul);
  cycle();
  bool waits = was_valid[k] && !killed(was[k].br_mask) && unit_kind(k) != K_MUL && !delivered(k);
  int p = unit_port[k];
  bool all = true, none = true;
  for (int o = 0; o < MAX_UOP_TYPE; o++) if ((unit_mask[k] >> o) & 1) { bool b = (exe2iss.fu_ready_mask[p] >> o) & 1; all = all && b; none = none && !b; }
  vc_assert(IMPLIES(!rbc.flush && !waits, all), "a unit that is free for the next cycle is offered to the issue stage");
  vc_assert(IMPLIES(rbc.flush || waits, none), "a unit that keeps its operation is not offered");
  for (int o = 0; o < MAX_UOP_TYPE; o++) {
    bool some = false;
    for (int j = 0; j < TOTAL_FU_COUNT; j++) if (unit_port[j] == p && ((unit_mask[j] >> o) & 1)) some = true;
    if (!some) vc_assert(!((exe2iss.fu_ready_mask[p] >> o) & 1), "a port is not offered for operations it cannot execute");
  }
  vc_cover("ready");
}

// Reset: no operation anywhere, and each operation of a port's configuration has exactly one unit there.
VC_DRIVER(exu_init) {
  build();
  for (int k = 0; k < TOTAL_FU_COUNT; k++) {
    vc_assert(unit_port[k] >= 0 && X->fu_to_port[k] == unit_port[k] && !X->fu_inst_r[k].valid, "units start empty and belong to one port");
    if (unit_kind(k) == K_ITER) vc_assert(!iter_of(k)->busy, "multi-cycle units start idle");
    if (unit_kind(k) == K_MUL) vc_assert(mul_of(k)->pipeline.empty(), "the multiplier starts empty");
  }
  vc_assert(X->units.size() == TOTAL_FU_COUNT, "the number of units is the configured one");
  for (int p = 0; p < ISSUE_WIDTH; p++) for (int o = 0; o < MAX_UOP_TYPE; o++) {
    int n = 0; for (int k = 0; k < TOTAL_FU_COUNT; k++) if (unit_port[k] == p && ((unit_mask[k] >> o) & 1)) n++;
    vc_assert(n == (int)((GLOBAL_ISSUE_PORT_CONFIG[p].support_mask >> o) & 1), "a port has one unit for each operation it is configured for");
  }
  for (int i = 0; i < LSU_AGU_COUNT; i++) { int n = 0; for (int k = 0; k < TOTAL_FU_COUNT; k++) n += unit_agu[k] == i; vc_assert(n == 1, "each address port of the load/store unit has one unit"); }
  for (int i = 0; i < LSU_SDU_COUNT; i++) { int n = 0; for (int k = 0; k < TOTAL_FU_COUNT; k++) n += unit_sdu[k] == i; vc_assert(n == 1, "each data port of the load/store unit has one unit"); }
  vc_cover("init");
}
