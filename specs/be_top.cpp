// Contract of the back-end top level (back-end/BackTop.cpp): wiring of the
// stages, order of evaluation within a cycle, redirect of the front end, and
// hand-over of architectural state.  The stages are represented by contracts:
// each requires the signals it reads to have been produced in this cycle.
#include "vc.h"
#include "BackTop.h"
#include "SimCpu.h"
#include "diff.h"
#include "config.h"
#include "util.h"
long long sim_time;
static Raw<SimContext> g_ctx;
static Raw<BackTop> g_b;
#define B (g_b.v)
enum S { pre_begin, pre_accept, pre_fire, pre_lprf, pre_lrob, pre_cinfo, idu_begin, idu_decode, idu_branch, idu_fire, ren_begin, ren_alloc, ren_rename, ren_fire, ren_pipe,
  dis_begin, dis_alloc, dis_disp, dis_wake, dis_fire, dis_pipe, isu_begin, isu_ready, isu_enq, isu_issue, isu_awake, isu_lat, isu_flush, prf_begin, prf_comp, prf_awk, prf_req, prf_read, prf_write, prf_pipe,
  exu_begin, exu_exec, exu_csr, exu_pipe, exu_ready, csr_begin, csr_read, csr_write, csr_intr, csr_inj, csr_exc, rob_begin, rob_ready, rob_req, rob_commit, rob_comp, rob_fire, rob_branch, rob_flush,
  l_cal, l_dis, l_rob, l_mout, l_min, l_tout, l_tldq, l_tstq, l_exe, l_alloc, l_dldq, l_rldq, l_dstq, l_rstq, l_l2e, l_scom, l_flush, l_stlf, l_check, mmu, NS };
static bool done[NS];
static bool tlb_flushed, tlb_cancelled; static int tlb_n;
static void need(S a) { vc_assert(done[a] || (a == mmu && (tlb_flushed || tlb_cancelled)), "a stage sees this cycle's inputs"); }
template <class... T> static void step(S s, T... before) { if (s == NS) return; (need(before), ...); vc_assert(!done[s], "each step happens once per cycle"); done[s] = true; }
static bool seqd[11];
#define AT(c, f, ...) void c::f() { step(__VA_ARGS__); }
AT(PreIduQueue, comb_begin, pre_begin) AT(PreIduQueue, comb_accept_front, pre_accept, pre_begin) AT(PreIduQueue, comb_ftq_lookup_prf, pre_lprf, prf_req) AT(PreIduQueue, comb_ftq_lookup_rob, pre_lrob, rob_req) AT(PreIduQueue, comb_commit_info, pre_cinfo, rob_commit)
AT(PreIduQueue, comb_fire, pre_fire, pre_accept, idu_fire, rob_commit)
AT(Idu, comb_begin, idu_begin) AT(Idu, comb_decode, idu_decode, idu_begin, pre_begin)
void Idu::comb_branch() { step(idu_branch, idu_begin); vc_havoc(&B.dec_bcast, sizeof B.dec_bcast, "dec_bcast"); }
AT(Idu, comb_fire, idu_fire, idu_decode, ren_fire, rob_commit)
AT(Ren, comb_begin, ren_begin) AT(Ren, comb_alloc, ren_alloc, ren_begin) AT(Ren, comb_rename, ren_rename, ren_alloc) AT(Ren, comb_pipeline, ren_pipe, ren_fire, idu_decode, idu_branch, rob_commit)
AT(Dispatch, comb_begin, dis_begin) AT(Dispatch, comb_alloc, dis_alloc, dis_begin, l_dis) AT(Dispatch, comb_wake, dis_wake, dis_begin, prf_awk, isu_awake) AT(Dispatch, comb_dispatch, dis_disp, dis_alloc, dis_wake, isu_ready) AT(Dispatch, comb_fire, dis_fire, dis_disp, rob_ready, rob_commit, idu_branch) AT(Dispatch, comb_pipeline, dis_pipe, dis_fire, ren_rename)
AT(Isu, comb_begin, isu_begin) AT(Isu, comb_ready, isu_ready, isu_begin) AT(Isu, comb_issue, isu_issue, isu_begin, exu_ready) AT(Isu, comb_awake, isu_awake, isu_issue, prf_awk) AT(Isu, comb_calc_latency_next, isu_lat, isu_issue) AT(Isu, comb_enq, isu_enq, isu_issue, dis_fire) AT(Isu, comb_flush, isu_flush, isu_enq, idu_branch, rob_commit)
AT(Prf, comb_begin, prf_begin) AT(Prf, comb_complete, prf_comp, prf_begin) AT(Prf, comb_awake, prf_awk, prf_begin) AT(Prf, comb_write, prf_write, prf_begin) AT(Prf, comb_req_ftq, prf_req, isu_issue) AT(Prf, comb_read, prf_read, isu_issue, exu_exec, pre_lprf) AT(Prf, comb_pipeline, prf_pipe, exu_exec, idu_branch, rob_commit)
AT(Exu, comb_begin, exu_begin) AT(Exu, comb_to_csr, exu_csr, exu_begin) AT(Exu, comb_exec, exu_exec, exu_begin, csr_read, l_l2e, idu_branch) AT(Exu, comb_ready, exu_ready, exu_exec) AT(Exu, comb_pipeline, exu_pipe, exu_exec, prf_read, idu_branch, rob_commit)
AT(Csr, comb_begin, csr_begin) AT(Csr, comb_csr_read, csr_read, exu_csr) AT(Csr, comb_csr_write, csr_write, csr_begin, exu_csr, rob_commit) AT(Csr, comb_interrupt, csr_intr, csr_begin) AT(Csr, comb_interrupt_inject, csr_inj, csr_exc, csr_write)
void Csr::comb_exception() { step(csr_exc, csr_begin, rob_commit); vc_havoc(&B.csr2front, sizeof B.csr2front, "csr2front"); }
AT(Rob, comb_begin, rob_begin) AT(Rob, comb_ready, rob_ready, rob_begin) AT(Rob, comb_ftq_pc_req, rob_req, rob_begin) AT(Rob, comb_complete, rob_comp, rob_begin, exu_exec) AT(Rob, comb_fire, rob_fire, rob_branch, dis_fire) AT(Rob, comb_branch, rob_branch, rob_comp, idu_branch) AT(Rob, comb_flush, rob_flush, rob_fire, rob_commit)
void Rob::comb_commit() { step(rob_commit, rob_begin, pre_lrob, csr_intr, l_rob, idu_branch); vc_havoc(&B.rob_bcast, sizeof B.rob_bcast, "rob_bcast"); vc_havoc(&B.rob_commit, sizeof B.rob_commit, "rob_commit"); }
AT(RealLsu, comb_cal, l_cal) AT(RealLsu, comb_lsu2dis, l_dis) AT(RealLsu, comb_lsu2rob, l_rob) AT(RealLsu, comb_mmio_out, l_mout, l_flush) AT(RealLsu, comb_mmio_in, l_min) AT(RealLsu, comb_tlb_out, l_tout) AT(RealLsu, comb_tlb_in_ldq, l_tldq, mmu) AT(RealLsu, comb_tlb_in_stq, l_tstq, mmu) AT(RealLsu, comb_exe2lsu, l_exe, exu_exec)
AT(RealLsu, comb_dis2lsu, l_alloc, dis_fire) AT(RealLsu, comb_lsu2dcache_ldq, l_dldq, l_flush) AT(RealLsu, comb_dcache2lsu_ldq, l_rldq) AT(RealLsu, comb_lsu2dcache_stq, l_dstq, l_flush) AT(RealLsu, comb_dcache2lsu_stq, l_rstq) AT(RealLsu, comb_lsureplay, NS) AT(RealLsu, comb_lsu2exe, l_l2e, l_rldq, l_min) AT(RealLsu, comb_stq_commit, l_scom, rob_commit) AT(RealLsu, comb_flush, l_flush, rob_commit, idu_branch, l_alloc) AT(RealLsu, comb_stlf, l_stlf, l_tldq) AT(RealLsu, comb_check, l_check)
void TlbMmu::flush() { tlb_flushed = true; }
void TlbMmu::cancel_pending_walk() { tlb_cancelled = true; }
void TlbMmu::translate_lsu_ports(const LsuMMUIO &rq, MMULsuIO &rs) { step(mmu, l_tout, rob_commit, idu_branch); vc_assert(&rq == B.lsu->out.lsu2mmu && &rs == B.lsu->in.mmu2lsu, "the data TLB serves the load/store unit"); tlb_n++; }
#define SEQ(c, i) void c::seq() { vc_assert(!seqd[i], "each stage is clocked once"); seqd[i] = true; }
SEQ(PreIduQueue, 0) SEQ(Idu, 1) SEQ(Ren, 2) SEQ(Dispatch, 3) SEQ(Isu, 4) SEQ(Prf, 5) SEQ(Exu, 6) SEQ(Csr, 7) SEQ(Rob, 8) SEQ(RealLsu, 9) SEQ(TlbMmu, 10)
static bool inited[10];
#define INI(c, i) void c::init() { inited[i] = true; }
INI(PreIduQueue, 0) INI(Idu, 1) INI(Ren, 2) INI(Dispatch, 3) INI(Isu, 4) INI(Prf, 5) INI(Exu, 6) INI(Csr, 7) INI(Rob, 8) INI(RealLsu, 9)
void Ren::comb_fire() {
  step(ren_fire, ren_rename, dis_fire, rob_commit, idu_branch);
  for (int i = 0; i < COMMIT_WIDTH; i++) vc_assert(IMPLIES(B.rob_commit.commit_entry[i].valid && B.rob_bcast.flush, B.rob_commit.commit_entry[i].uop.diag_val == B.out.redirect_pc), "the instruction that flushes is reported with the pc execution continues at");
}
static CPU_state ref_state; static uint8_t ref_priv;
CPU_state dut_cpu;
void get_state(CPU_state &s, uint8_t &p) { s = ref_state; p = ref_priv; }
RealLsu::RealLsu(SimContext *c) { ctx = c; }
Isu::Isu(SimContext *c) { ctx = c; }
Exu::Exu(SimContext *c) { ctx = c; }
PtwWalker::PtwWalker(PtwMemPort *) {}
TlbMmu::TlbMmu(SimContext *, PtwMemPort *, int n, Kind k) { vc_assert(n == DTLB_ENTRIES && k == Kind::DTLB, "data TLB"); }
static Raw<PreIduQueue> g_pre; static Raw<Idu> g_idu; static Raw<Ren> g_ren; static Raw<Dispatch> g_dis; static Raw<Isu> g_isu; static Raw<Prf> g_prf; static Raw<Exu> g_exu; static Raw<Csr> g_csr; static Raw<Rob> g_rob; static Raw<RealLsu> g_lsu; static Raw<TlbMmu> g_tlb;
static void wire_up() {
  B.pre = &g_pre.v; B.idu = &g_idu.v; B.rename = &g_ren.v; B.dis = &g_dis.v; B.isu = &g_isu.v; B.prf = &g_prf.v; B.exu = &g_exu.v; B.csr = &g_csr.v; B.rob = &g_rob.v; B.lsu = &g_lsu.v; B.ctx = &g_ctx.v;
  TlbMmu *t = &g_tlb.v; memcpy((void *)&B.dtlb_mmu, &t, sizeof t);
  g_rob.v.out.rob_bcast = &B.rob_bcast; g_rob.v.out.rob_commit = &B.rob_commit; g_idu.v.out.dec_bcast = &B.dec_bcast; g_csr.v.out.csr2front = &B.csr2front; g_csr.v.out.csr_status = &B.csr_status;
  g_lsu.v.out.lsu2mmu = &B.lsu2mmu_io; g_lsu.v.in.mmu2lsu = &B.mmu2lsu_io;
}
VC_DRIVER(top_cycle) {
  wire_up();
  vc_havoc(&g_idu.v.br_latch, sizeof g_idu.v.br_latch, "latch"); vc_havoc(&B.pre2front, sizeof B.pre2front, "pre2front"); vc_havoc(&B.csr_status, sizeof B.csr_status, "status");
  vc_havoc(&B.rob_bcast, sizeof B.rob_bcast, "old_rob_bcast"); vc_havoc(&B.dec_bcast, sizeof B.dec_bcast, "old_dec_bcast"); vc_havoc(&B.csr2front, sizeof B.csr2front, "old_csr2front"); vc_havoc(&B.out, sizeof B.out, "out"); vc_havoc(&B.mmu2lsu_io, sizeof B.mmu2lsu_io, "mmu2lsu");
  B.comb();
  const auto &r = B.rob_bcast;
  vc_cover("a cycle");
  for (int s = 0; s < NS; s++) vc_assert(done[s] || s == mmu, "every stage is evaluated");
  vc_assert(B.out.flush == r.flush && B.out.fence_i == r.fence_i && B.out.itlb_flush == r.fence, "flushes and fences reach the front end");
  vc_assert(B.out.mispred == (r.flush || B.dec_bcast.mispred), "the front end is redirected by every flush and misprediction");
  if (r.flush) {
    vc_cover("flush");
    vc_assert(B.out.redirect_pc == (r.mret || r.sret ? (uint32_t)B.csr2front.epc : r.exception ? (uint32_t)B.csr2front.trap_pc : (uint32_t)r.pc + 4), "after a flush fetch continues at the return address, the trap vector, or the next instruction");
  } else {
    vc_assert(B.out.stall == !B.pre2front.ready, "fetch waits when the queue is not ready");
    vc_assert(IMPLIES(B.dec_bcast.mispred, B.out.redirect_pc == g_idu.v.br_latch.redirect_pc), "after a misprediction fetch continues at the branch's real target");
  }
  vc_assert(tlb_flushed == r.fence, "a translation fence empties the data TLB, nothing else does");
  vc_assert(tlb_cancelled == (!r.fence && (r.flush || B.dec_bcast.mispred)), "a redirect cancels a page walk");
  vc_assert(done[mmu] == (!r.fence && !r.flush && !B.dec_bcast.mispred), "addresses are translated in every other cycle");
  for (int i = 0; i < COMMIT_WIDTH; i++) {
    const auto &c = B.rob_commit.commit_entry[i]; const auto &o = B.out.commit_entry[i];
    vc_assert(o.valid == c.valid, "commits are reported to the front end");
    if (c.valid) vc_assert(o.uop.ftq_idx == c.uop.ftq_idx && o.uop.ftq_offset == c.uop.ftq_offset && o.uop.type == c.uop.type && o.uop.br_taken == c.uop.br_taken && o.uop.mispred == c.uop.mispred && o.uop.diag_val == c.uop.diag_val && o.uop.dbg.pc == c.uop.dbg.pc && o.uop.dbg.instruction == c.uop.dbg.instruction && o.uop.dest_areg == c.uop.dest_areg && o.uop.dest_preg == c.uop.dest_preg, "with their own data");
  }
  B.seq();
  for (int i = 0; i < 11; i++) vc_assert(seqd[i], "every stage is clocked");
}
void Csr::comb_csr_status() { vc_havoc(&B.csr_status, sizeof B.csr_status, "new_status"); }
VC_DRIVER(top_status) {
  wire_up(); vc_havoc(&B.csr_status, sizeof B.csr_status, "status");
  B.comb_csr_status();
  vc_cover("status");
  vc_assert(B.out.sstatus == B.csr_status.sstatus && B.out.mstatus == B.csr_status.mstatus && B.out.satp == B.csr_status.satp && B.out.privilege == B.csr_status.privilege, "the front end sees the current status, satp and privilege");
}
VC_DRIVER(top_wiring) {
  B.ctx = &g_ctx.v;
  B.init();
  vc_cover("reset");
  for (int i = 0; i < 10; i++) vc_assert(inited[i], "every stage is reset");
#define LINK(a, b) vc_assert(B.a != nullptr && (const void *)B.a == (const void *)B.b, "stages are connected to each other")
  LINK(idu->in.issue, pre->out.issue); LINK(pre->in.idu_consume, idu->out.idu_consume); LINK(rename->in.dec2ren, idu->out.dec2ren); LINK(idu->in.ren2dec, rename->out.ren2dec);
  LINK(dis->in.ren2dis, rename->out.ren2dis); LINK(rename->in.dis2ren, dis->out.dis2ren); LINK(isu->in.dis2iss, dis->out.dis2iss); LINK(dis->in.iss2dis, isu->out.iss2dis); LINK(rob->in.dis2rob, dis->out.dis2rob); LINK(dis->in.rob2dis, rob->out.rob2dis);
  LINK(lsu->in.dis2lsu, dis->out.dis2lsu); LINK(dis->in.lsu2dis, lsu->out.lsu2dis); LINK(prf->in.iss2prf, isu->out.iss2prf); LINK(dis->in.iss_awake, isu->out.iss_awake); LINK(dis->in.prf_awake, prf->out.prf_awake); LINK(isu->in.prf_awake, prf->out.prf_awake);
  LINK(exu->in.prf2exe, prf->out.prf2exe); LINK(prf->in.exe2prf, exu->out.exe2prf); LINK(isu->in.exe2iss, exu->out.exe2iss); LINK(lsu->in.exe2lsu, exu->out.exe2lsu); LINK(exu->in.lsu2exe, lsu->out.lsu2exe); LINK(csr->in.exe2csr, exu->out.exe2csr); LINK(exu->in.csr2exe, csr->out.csr2exe);
  LINK(idu->in.exu2id, exu->out.exu2id); LINK(rob->in.exu2rob, exu->out.exu2rob); LINK(rob->in.lsu2rob, lsu->out.lsu2rob); LINK(rob->in.csr2rob, csr->out.csr2rob); LINK(csr->in.rob2csr, rob->out.rob2csr); LINK(rob->in.ftq_pc_resp, pre->out.ftq_rob_pc_resp); LINK(pre->in.ftq_rob_pc_req, rob->out.ftq_pc_req);
  LINK(pre->in.ftq_prf_pc_req, prf->out.ftq_prf_pc_req); LINK(prf->in.ftq_prf_pc_resp, pre->out.ftq_prf_pc_resp); LINK(exu->in.csr_status, csr->out.csr_status); LINK(lsu->in.csr_status, csr->out.csr_status);
  LINK(pre->in.rob_commit, rob->out.rob_commit); LINK(rename->in.rob_commit, rob->out.rob_commit); LINK(lsu->in.rob_commit, rob->out.rob_commit);
  LINK(pre->in.rob_bcast, rob->out.rob_bcast); LINK(idu->in.rob_bcast, rob->out.rob_bcast); LINK(rename->in.rob_bcast, rob->out.rob_bcast); LINK(dis->in.rob_bcast, rob->out.rob_bcast); LINK(isu->in.rob_bcast, rob->out.rob_bcast); LINK(prf->in.rob_bcast, rob->out.rob_bcast); LINK(exu->in.rob_bcast, rob->out.rob_bcast); LINK(csr->in.rob_bcast, rob->out.rob_bcast); LINK(lsu->in.rob_bcast, rob->out.rob_bcast);
  LINK(rename->in.dec_bcast, idu->out.dec_bcast); LINK(dis->in.dec_bcast, idu->out.dec_bcast); LINK(isu->in.dec_bcast, idu->out.dec_bcast); LINK(prf->in.dec_bcast, idu->out.dec_bcast); LINK(exu->in.dec_bcast, idu->out.dec_bcast); LINK(rob->in.dec_bcast, idu->out.dec_bcast); LINK(lsu->in.dec_bcast, idu->out.dec_bcast);
  vc_assert(B.pre->in.idu_br_latch == &B.idu->br_latch && B.pre->in.front2pre == &B.in && B.out.fire == B.pre->out.pre2front->fire && B.pre->out.pre2front == &B.pre2front && B.rob->in.front_stall == &B.in.front_stall && B.pre->out.ftq_commit_info == &B.ftq_commit_info, "the front end is connected");
  vc_assert(B.lsu->in.peripheral_resp == &B.in.peripheral_resp && B.lsu->in.dcache2lsu == &B.in.dcache2lsu && B.lsu->out.peripheral_req == &B.out.peripheral_req && B.lsu->out.lsu2dcache == &B.out.lsu2dcache && B.lsu->out.lsu2mmu == &B.lsu2mmu_io && B.lsu->in.mmu2lsu == &B.mmu2lsu_io && B.csr->in.interrupt_inject == &B.csr_interrupt_inject_io, "the memory system is connected");
  vc_assert(B.idu->max_br_per_cycle == MAX_BR_PER_CYCLE && B.csr->out.csr2front == &B.csr2front && B.rob->out.rob_bcast == &B.rob_bcast && B.rob->out.rob_commit == &B.rob_commit && B.idu->out.dec_bcast == &B.dec_bcast, "the top level sees the stages' outputs");
}
VC_DRIVER(top_restore) {
  wire_up();
  vc_havoc(&ref_state, sizeof ref_state, "ref"); ref_priv = vc_u8("priv"); vc_assume(ref_priv < 4);
  B.restore_from_ref();
  uint32_t a = vc_u32("reg"), c = vc_u32("csr"); vc_assume(a < ARF_NUM && c < CSR_NUM);
  vc_cover("restored");
  vc_assert(B.prf->reg_file[a] == ref_state.gpr[a] && B.prf->reg_file_1[a] == ref_state.gpr[a], "registers are handed over");
  vc_assert(B.csr->CSR_RegFile[c] == ref_state.csr[c] && B.csr->CSR_RegFile_1[c] == ref_state.csr[c] && B.csr->privilege == ref_priv && B.csr->privilege_1 == ref_priv, "CSRs and privilege are handed over");
  vc_assert(B.lsu->cur.lrsc_unit.reserve_valid == ref_state.reserve_valid && B.lsu->cur.lrsc_unit.reserve_addr == ref_state.reserve_addr && B.lsu->nxt.lrsc_unit.reserve_valid == ref_state.reserve_valid && B.lsu->nxt.lrsc_unit.reserve_addr == ref_state.reserve_addr, "the reservation is handed over");
  vc_assert(B.out.flush && B.out.redirect_pc == ref_state.pc && B.number_PC == ref_state.pc, "execution continues at the saved pc");
  vc_assert(dut_cpu.gpr[a] == ref_state.gpr[a] && dut_cpu.csr[c] == ref_state.csr[c] && dut_cpu.pc == ref_state.pc && dut_cpu.reserve_valid == ref_state.reserve_valid && dut_cpu.reserve_addr == ref_state.reserve_addr, "the lock-step copy agrees");
}
