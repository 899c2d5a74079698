// Contracts of the top level (rv_simu_mmu_v2.cpp): what happens outside the pipeline when an
// instruction commits, and what the front end is told.  Load/store unit, devices and comparer
// are represented by their contracts.
#include "vc.h"
#include "SimCpu.h"
#include "BackTop.h"
#include "Csr.h"
#include "Prf.h"
#include "Ren.h"
#include "Rob.h"
#include "RealLsu.h"
#include "diff.h"
#include "config.h"
#include "util.h"
#include "BPU/BPU_configs.h"
long long sim_time; CPU_state dut_cpu; uint32_t *p_memory;
static Raw<SimCpu> g_cpu; static Raw<Prf> g_prf; static Raw<Ren> g_ren; static Raw<Csr> g_csr; static Raw<Rob> g_rob; static Raw<RealLsu> g_lsu; static Raw<RobBroadcastIO> g_bcast;
static Raw<InstEntry> g_inst; static Raw<StqEntry> g_stq;
#define C (g_cpu.v)
#define I (g_inst.v.uop)
#define E (g_stq.v)
static unsigned writes, w_addr, w_data, w_func3, stepped, synced, with_check, with_priv;
// the store-queue entry of the committing instruction
StqEntry RealLsu::get_stq_entry(int idx, bool flag) { vc_assert(idx == (int)I.stq_idx && flag == (bool)I.stq_flag, "the store looked up is the instruction's own"); return E; }
void MemSubsystem::on_commit_store(uint32_t a, uint32_t d, uint8_t f) { writes++; w_addr = a; w_data = d; w_func3 = f; }
void difftest_step(bool c) { stepped++; with_check = c; }
void difftest_sync_from_dut(uint8_t p) { synced++; with_priv = p; }
#define BIT(x) (*(uint8_t *)&(x) &= 1)
static void setup() {
  vc_havoc(&g_inst, sizeof g_inst, "inst"); vc_havoc(&g_stq, sizeof g_stq, "stq_entry"); vc_havoc(&dut_cpu, sizeof dut_cpu, "dut_before");
  vc_havoc(g_prf.v.reg_file_1, sizeof g_prf.v.reg_file_1, "reg_file"); vc_havoc(g_ren.v.arch_RAT_1, sizeof g_ren.v.arch_RAT_1, "arch_rat"); vc_havoc(g_csr.v.CSR_RegFile_1, sizeof g_csr.v.CSR_RegFile_1, "csr_regs"); vc_havoc(&g_csr.v.privilege_1, sizeof g_csr.v.privilege_1, "privilege");
  vc_havoc(&g_bcast, sizeof g_bcast, "rob_bcast"); vc_havoc(&C.back.ftq_commit_info, sizeof C.back.ftq_commit_info, "ftq_info"); vc_havoc(&C.back.csr_interrupt_inject_io, sizeof C.back.csr_interrupt_inject_io, "irq_lines");
  for (int i = 0; i < ARF_NUM; i++) vc_assume(g_ren.v.arch_RAT_1[i] < PRF_NUM);
  BIT(I.page_fault_inst); BIT(I.page_fault_load); BIT(I.page_fault_store); BIT(I.tma.mem_commit_is_load); BIT(I.tma.mem_commit_is_store); BIT(I.dbg.is_mmio); BIT(I.dbg.difftest_skip); BIT(I.stq_flag); BIT(I.rob_flag); BIT(I.mispred); BIT(I.is_ret); BIT(I.br_taken);
  BIT(E.suppress_write); BIT(E.rob_flag); BIT(E.paddr_valid); BIT(E.data_valid); E.func3 &= 7; g_csr.v.privilege_1 &= 3;
  BIT(g_bcast.v.flush); BIT(g_bcast.v.interrupt);
  auto &q = C.back.csr_interrupt_inject_io; BIT(q.external_irq_pending_valid); BIT(q.external_irq_pending); BIT(q.timer_irq_pending_valid); BIT(q.timer_irq_pending);
  *(uint8_t *)&g_inst.v.valid = 1;
  g_rob.v.out.rob_bcast = &g_bcast.v;
  C.back.prf = &g_prf.v; C.back.rename = &g_ren.v; C.back.csr = &g_csr.v; C.back.rob = &g_rob.v; C.back.lsu = &g_lsu.v; C.back.ctx = &C.ctx; C.ctx.cpu = &C;
  writes = stepped = synced = 0;
}
static bool is_store() { return I.tma.mem_commit_is_store && !I.page_fault_store; }
static bool suppressed() { return E.suppress_write && E.rob_idx == I.rob_idx && E.rob_flag == I.rob_flag; }
static bool ready() { return E.paddr_valid && E.data_valid; }
// devices see a store when, and only when, it takes effect
VC_DRIVER(top_commit) {
  setup(); int slot = vc_choose(COMMIT_WIDTH);
  C.ctx.run_commit_inst(&g_inst.v, slot);
  bool effect = is_store() && !suppressed() && ready() && !g_bcast.v.interrupt;
  vc_assert(IMPLIES(effect, writes == 1 && w_addr == E.paddr && w_data == E.data && w_func3 == E.func3), "a committed store reaches the devices once");
  vc_assert(IMPLIES(!effect, writes == 0), "nothing else reaches the devices");
  vc_assert(stepped == 0 && synced == 0, "committing does not compare");
  vc_cover("commit");
}
static bool reads_pending() { uint32_t i = I.dbg.instruction; return (i & 0x7f) == 0x73 && (i >> 20 == 0x344 || i >> 20 == 0x144); }
static bool excused() {
  auto &q = C.back.csr_interrupt_inject_io;
  return (is_store() && !suppressed() && !ready()) || (I.dbg.is_mmio && (is_store() || (I.tma.mem_commit_is_load && !I.page_fault_load))) || (reads_pending() && (q.external_irq_pending_valid || q.timer_irq_pending_valid)) || I.dbg.difftest_skip || g_bcast.v.interrupt;
}
// the comparer gets the architectural state after the instruction
VC_DRIVER(top_compare) {
  setup(); BIT(C.ctx.enable_difftest); vc_havoc(&C.ctx.enable_difftest, 1, "enable"); BIT(C.ctx.enable_difftest);
  unsigned c = vc_u8("csr"); vc_assume(c < CSR_NUM);
  C.ctx.run_difftest_inst(&g_inst.v);
  vc_assert(writes == 0, "comparing has no effect on devices");
  if (!C.ctx.enable_difftest) { vc_assert(stepped == 0 && synced == 0, "no comparison when switched off"); return; }
  vc_assert(stepped + synced == 1 && (synced == 1) == excused(), "every instruction is compared unless its outcome depends on devices or timing");
  vc_assert(IMPLIES(stepped == 1, with_check) && IMPLIES(synced == 1, with_priv == g_csr.v.privilege_1), "checked step, or hand-over with the current privilege");
  for (int r = 0; r < ARF_NUM; r++) vc_assert(dut_cpu.gpr[r] == g_prf.v.reg_file_1[g_ren.v.arch_RAT_1[r]], "registers are the committed ones");
  if (c != csr_mip && c != csr_sip) vc_assert(dut_cpu.csr[c] == g_csr.v.CSR_RegFile_1[c], "CSRs are the current ones");
  uint32_t mip = g_csr.v.CSR_RegFile_1[csr_mip]; auto &q = C.back.csr_interrupt_inject_io;
  vc_assert(((mip ^ dut_cpu.csr[csr_mip]) & ~0x880u) == 0 && dut_cpu.csr[csr_sip] == (dut_cpu.csr[csr_mip] & 0x333u), "pending bits");
  if (q.external_irq_pending_valid) mip = (mip & ~0x800u) | (q.external_irq_pending ? 0x800u : 0);
  if (q.timer_irq_pending_valid) mip = (mip & ~0x80u) | (q.timer_irq_pending ? 0x80u : 0);
  vc_assert(IMPLIES(reads_pending(), dut_cpu.csr[csr_mip] == mip), "an instruction that reads pending bits sees the interrupt lines");
  bool st = is_store() && !suppressed() && ready();
  uint32_t d = E.func3 == 0 ? E.data & 0xff : E.func3 == 1 ? E.data & 0xffff : (uint32_t)E.data;
  vc_assert(dut_cpu.store == st && IMPLIES(st, dut_cpu.store_addr == E.paddr && dut_cpu.store_data == d << 8 * (E.paddr & 3)), "the store compared is the one performed");
  bool jumps = I.type == BR || I.type == JALR || I.type == JAL || g_bcast.v.flush;
  vc_assert(dut_cpu.pc == (jumps ? (uint32_t)I.diag_val : (uint32_t)I.dbg.pc + 4), "the next address is the instruction's");
  vc_assert(dut_cpu.instruction == I.dbg.instruction && dut_cpu.commit_pc == I.dbg.pc && dut_cpu.page_fault_inst == (bool)I.page_fault_inst && dut_cpu.page_fault_load == (bool)I.page_fault_load && dut_cpu.page_fault_store == (bool)I.page_fault_store, "instruction, address and faults are the instruction's");
  vc_cover("compare");
}
// ---- front end ----
static Raw<FrontTop> g_seen; static unsigned front_steps;
static struct { bool valid; uint32_t addr, total_size, id; } g_fetch;
static Raw<FrontTop> g_answer;
static void front_answer() {
  auto &out = g_answer.v.out; vc_havoc(&out, sizeof out, "front_out"); for (int j = 0; j < FETCH_WIDTH; j++) { BIT(out.predict_dir[j]); BIT(out.inst_valid[j]); BIT(out.page_fault_inst[j]); BIT(out.alt_pred[j]); } BIT(out.FIFO_valid); BIT(out.commit_stall);
  g_fetch.valid = vc_bool("fetch"); g_fetch.addr = vc_u32("fetch_addr"); g_fetch.total_size = vc_u8("fetch_size"); g_fetch.id = vc_u8("fetch_id"); front_steps = 0;
}
void FrontTop::step_bpu() {
  auto &q = C.axi_interconnect.read_ports[axi_interconnect::MASTER_ICACHE].req;
  q.valid = g_fetch.valid; q.addr = g_fetch.addr; q.total_size = g_fetch.total_size; q.id = g_fetch.id;
  g_seen.v.in = in; front_steps++; out = g_answer.v.out;
}
static Raw<Back_in> g_in;
static void back_out() { auto &o = C.back.out; vc_havoc(&o, sizeof o, "back_out"); BIT(o.mispred); BIT(o.stall); BIT(o.flush); BIT(o.fence_i); BIT(o.itlb_flush); }
// the group delivered is the group fetched, up to the first jump; a redirect is passed on at once
VC_DRIVER(top_front) {
  setup(); back_out(); vc_havoc(&C.front.in, sizeof C.front.in, "front_in"); vc_havoc((FrontPreIO *)&C.back.in, sizeof(FrontPreIO), "back_in");
  for (int j = 0; j < FETCH_WIDTH; j++) { BIT(C.back.in.valid[j]); BIT(C.back.in.page_fault_inst[j]); BIT(C.back.in.predict_dir[j]); }
  memcpy((void *)&g_in, (const void *)&C.back.in, sizeof(FrontPreIO)); front_answer();
  C.front_cycle();
  auto &o = C.back.out; auto &f = C.front.out; auto &b = C.back.in; const front_top_in &s = g_seen.v.in;
  bool redirect = o.mispred || o.flush, take = redirect || !o.stall;
  vc_assert(front_steps == 1 && (bool)s.FIFO_read_enable == take && (bool)s.refetch == redirect, "the front end makes one step, gives a group when there is room, and refetches on a redirect");
  vc_assert(IMPLIES(redirect, s.refetch_address == o.redirect_pc) && (bool)s.itlb_flush == o.itlb_flush && (bool)s.fence_i == o.fence_i, "redirect address and flushes reach the front end in the same cycle");
  vc_assert((bool)b.front_stall == (bool)f.commit_stall, "training back-pressure reaches commit");
  bool open = true;
  for (int j = 0; j < FETCH_WIDTH; j++) {
    bool v = open && f.FIFO_valid && f.inst_valid[j];
    if (take) {
      vc_assert((bool)b.valid[j] == v, "instructions up to the first predicted jump are delivered");
      vc_assert(IMPLIES(v, b.pc[j] == f.pc[j] && b.inst[j] == f.instructions[j] && (bool)b.page_fault_inst[j] == (bool)f.page_fault_inst[j] && (bool)b.predict_dir[j] == (bool)f.predict_dir[j] && b.predict_next_fetch_address[j] == f.predict_next_fetch_address), "with their addresses, faults and predictions");
      bool same = (bool)b.alt_pred[j] == (bool)f.alt_pred[j] && b.altpcpn[j] == f.altpcpn[j] && b.pcpn[j] == f.pcpn[j];
      for (int k = 0; k < 4; k++) same = same & (b.tage_idx[j][k] == f.tage_idx[j][k]) & (b.tage_tag[j][k] == f.tage_tag[j][k]);
      vc_assert(IMPLIES(v, same), "and the table entries the predictions came from");
    } else vc_assert(b.valid[j] == g_in.v.valid[j] && b.pc[j] == g_in.v.pc[j] && b.inst[j] == g_in.v.inst[j] && b.page_fault_inst[j] == g_in.v.page_fault_inst[j] && b.predict_dir[j] == g_in.v.predict_dir[j] && b.predict_next_fetch_address[j] == g_in.v.predict_next_fetch_address[j], "a group not yet taken is kept");
    if (v && f.predict_dir[j]) open = false;
  }
  vc_cover("front");
}
// the predictor is trained with what really happened
VC_DRIVER(top_feedback) {
  setup(); back_out(); vc_havoc(&C.front.in, sizeof C.front.in, "front_in");
  int i = vc_choose(COMMIT_WIDTH);
  auto &u = C.back.out.commit_entry[i].uop; auto &q = C.back.ftq_commit_info.resp[i]; BIT(C.back.out.commit_entry[i].valid); BIT(u.br_taken); BIT(u.is_ret); BIT(u.dest_en); BIT(q.pred_taken); BIT(q.alt_pred); BIT(q.sc_used); BIT(q.sc_pred); BIT(q.loop_used); BIT(q.loop_hit); BIT(q.loop_pred);
  C.back2front_comb();
  auto &f = C.front.in; bool v = C.back.out.commit_entry[i].valid;
  bool jump = u.type == JAL || u.type == JALR;
  int t = u.type == BR ? BR_DIRECT : u.type == JAL ? (u.dest_en && u.dest_areg == 1 ? BR_CALL : BR_JAL) : u.type == JALR ? (u.is_ret ? BR_RET : BR_IDIRECT) : BR_NONCTL;
  vc_assert((bool)f.back2front_valid[i] == v, "committed instructions, and only those, train the predictor");
  if (v) {
    vc_assert(f.predict_base_pc[i] == q.pc && (bool)f.actual_dir[i] == (jump || u.br_taken) && f.actual_br_type[i] == t && f.actual_target[i] == (jump || u.type == BR ? (uint32_t)u.diag_val : (uint32_t)q.pc + 4), "address, kind, direction and target are the instruction's");
    vc_assert((bool)f.predict_dir[i] == (bool)q.pred_taken && (bool)f.alt_pred[i] == (bool)q.alt_pred && f.altpcpn[i] == q.altpcpn && f.pcpn[i] == q.pcpn, "with the prediction made for it");
    for (int k = 0; k < 4; k++) vc_assert(f.tage_idx[i][k] == q.tage_idx[k] && f.tage_tag[i][k] == q.tage_tag[k], "and the table entries it came from");
    bool same = (bool)f.sc_used[i] == (bool)q.sc_used && (bool)f.sc_pred[i] == (bool)q.sc_pred && f.sc_sum[i] == q.sc_sum && (bool)f.loop_used[i] == (bool)q.loop_used && (bool)f.loop_hit[i] == (bool)q.loop_hit && (bool)f.loop_pred[i] == (bool)q.loop_pred && f.loop_idx[i] == q.loop_idx && f.loop_tag[i] == q.loop_tag;
    for (int k = 0; k < BPU_SCL_META_NTABLE; k++) same = same & (f.sc_idx[i][k] == q.sc_idx[k]);
    vc_assert(same, "and its corrections");
  }
  vc_assert(IMPLIES(C.back.out.mispred || C.back.out.flush, f.refetch_address == C.back.out.redirect_pc), "redirect address");
  vc_assert((bool)f.itlb_flush == C.back.out.itlb_flush && (bool)f.fence_i == C.back.out.fence_i && f.csr_status == g_csr.v.out.csr_status, "flushes and control state reach the front end");
  vc_cover("feedback");
}
void difftest_sync_ram_range_from_dut(uint32_t, size_t) {}
// ---- one cycle ----
enum { T_STATUS = 1, T_FRONT, T_BUS_OUT, T_MEM_OUT, T_BACK, T_MEM_IN, T_BUS_IN, T_BACK_SEQ, T_MEM_SEQ, T_BUS_SEQ, T_FAST, T_FAST_SEQ, T_N };
static unsigned cnt[T_N];
#define B (C.axi_interconnect)
#define M (C.mem_subsystem)
using namespace axi_interconnect;
static bool line_in(const uint32_t *a, const WideData &d) { bool ok = true; for (int i = 0; i < DCACHE_WORD_NUM && i < MAX_READ_TRANSACTION_WORDS; i++) ok = ok & (a[i] == d[i]); return ok; }
static bool line_out(const uint32_t *a, const WideData &d) { bool ok = true; for (int i = 0; i < DCACHE_WORD_NUM && i < CACHELINE_WORDS; i++) ok = ok & (a[i] == d[i]); return ok; }
static void dcache_in() {
  auto &r = B.read_ports[MASTER_DCACHE_R]; auto &w = B.write_ports[MASTER_DCACHE_W]; auto &m = M.mshr_axi_in; auto &b = M.wb_axi_in;
  vc_assert((bool)m.req_ready == r.req.ready && (bool)m.req_accepted == r.req.accepted && IMPLIES(r.req.accepted, m.req_accepted_id == (uint8_t)r.req.accepted_id) && (bool)m.resp_valid == r.resp.valid && IMPLIES(r.resp.valid, m.resp_id == (uint8_t)r.resp.id && line_in(m.resp_data, r.resp.data)), "the data cache sees its own read port");
  vc_assert((bool)b.req_ready == w.req.ready && (bool)b.req_accepted == w.req.accepted && (bool)b.resp_valid == w.resp.valid, "the write buffer sees its own write port");
}
static void dcache_out() {
  auto &r = B.read_ports[MASTER_DCACHE_R]; auto &w = B.write_ports[MASTER_DCACHE_W]; auto &m = M.mshr_axi_out; auto &b = M.wb_axi_out;
  vc_assert(r.req.valid == (bool)m.req_valid && IMPLIES(m.req_valid, r.req.addr == m.req_addr && r.req.total_size == m.req_total_size && r.req.id == m.req_id && !r.req.bypass) && r.resp.ready == (bool)m.resp_ready, "the data cache's reads reach its port");
  vc_assert(w.req.valid == (bool)b.req_valid && IMPLIES(b.req_valid, w.req.addr == b.req_addr && w.req.total_size == b.req_total_size && w.req.id == b.req_id && w.req.wstrb == b.req_wstrb && !w.req.bypass && line_out(b.req_wdata, w.req.wdata)) && w.resp.ready == (bool)b.resp_ready, "the write buffer's writes reach its port");
}
static void dcache_any() { vc_havoc(&M.mshr_axi_out, sizeof M.mshr_axi_out, "mshr_out"); vc_havoc(&M.wb_axi_out, sizeof M.wb_axi_out, "wb_out"); BIT(M.mshr_axi_out.req_valid); BIT(M.mshr_axi_out.resp_ready); BIT(M.wb_axi_out.req_valid); BIT(M.wb_axi_out.resp_ready); }
static void at(int t) { cnt[t]++; }
void BackTop::comb_csr_status() { at(T_STATUS); }
void BackTop::comb() { vc_assert(cnt[T_STATUS] == 1 && front_steps == 1 && cnt[T_MEM_OUT] == 1 && cnt[T_MEM_IN] == 0, "the back end sees this cycle's instructions and memory answers"); at(T_BACK); }
void BackTop::seq() { vc_assert(cnt[T_BACK] == 1 && cnt[T_MEM_IN] == 1, "registers are clocked after evaluation"); at(T_BACK_SEQ); }
void MemSubsystem::llc_comb_outputs() {}
void MemSubsystem::llc_seq(const AXI_LLC_TableOut_t &, const AXI_LLCPerfCounters_t &) {}
static AXI_LLC_LookupIn_t g_lookup; static AXI_LLC_TableOut_t g_table; static AXI_LLCPerfCounters_t g_perf;
const AXI_LLC_LookupIn_t &MemSubsystem::llc_lookup_in() const { return g_lookup; }
void MemSubsystem::comb_outputs() {
  vc_assert(cnt[T_BUS_OUT] == 1, "memory sees this cycle's bus answers"); dcache_in();
  auto &r = B.read_ports[MASTER_EXTRA_R]; auto &w = B.write_ports[MASTER_EXTRA_W]; auto &pr = peripheral_axi_read_in; auto &pw = peripheral_axi_write_in;
  vc_assert((bool)pr.req_ready == r.req.ready && (bool)pr.req_accepted == r.req.accepted && (bool)pr.resp_valid == r.resp.valid && IMPLIES(r.resp.valid, pr.resp_id == (uint8_t)r.resp.id && line_in(pr.resp_data, r.resp.data)), "device reads see their own port");
  vc_assert((bool)pw.req_ready == w.req.ready && (bool)pw.req_accepted == w.req.accepted && (bool)pw.resp_valid == w.resp.valid && IMPLIES(w.resp.valid, pw.resp_id == (uint8_t)w.resp.id), "device writes see their own port");
  at(T_MEM_OUT);
}
void MemSubsystem::comb_inputs() {
  vc_assert(cnt[T_BACK] == 1, "memory sees this cycle's requests"); dcache_any();
  auto &pr = peripheral_axi_read_out; auto &pw = peripheral_axi_write_out; vc_havoc(&pr, sizeof pr, "dev_read"); vc_havoc(&pw, sizeof pw, "dev_write"); BIT(pr.req_valid); BIT(pr.resp_ready); BIT(pw.req_valid); BIT(pw.resp_ready);
  at(T_MEM_IN);
}
void MemSubsystem::seq() { vc_assert(cnt[T_MEM_IN] == 1, "memory is clocked after evaluation"); at(T_MEM_SEQ); }
void MemSubsystem::dcache_fast_comb(bool) { vc_assert(cnt[T_BUS_OUT] == 2 + cnt[T_FAST], "a fast tick sees its own bus answers"); dcache_in(); dcache_any(); at(T_FAST); }
void MemSubsystem::dcache_fast_seq(bool) { vc_assert(cnt[T_FAST_SEQ] + 1 == cnt[T_FAST], "a fast tick is clocked once"); at(T_FAST_SEQ); }
void AXI_Interconnect::comb_outputs() {
  for (auto &p : read_ports) { p.req.ready = vc_bool("r_ready"); p.req.accepted = vc_bool("r_accepted"); p.req.accepted_id = vc_u8("r_accepted_id"); p.resp.valid = vc_bool("r_valid"); p.resp.id = vc_u8("r_id"); vc_havoc(&p.resp.data, sizeof p.resp.data, "r_data"); }
  for (auto &p : write_ports) { p.req.ready = vc_bool("w_ready"); p.req.accepted = vc_bool("w_accepted"); p.resp.valid = vc_bool("w_valid"); p.resp.id = vc_u8("w_id"); }
  at(T_BUS_OUT);
}
void AXI_Interconnect::comb_inputs() {
  dcache_out();
  if (cnt[T_BUS_IN] == 0) {
    vc_assert(cnt[T_MEM_IN] == 1, "the bus sees this cycle's requests");
    auto &r = read_ports[MASTER_EXTRA_R]; auto &w = write_ports[MASTER_EXTRA_W]; auto &pr = M.peripheral_axi_read_out; auto &pw = M.peripheral_axi_write_out;
    vc_assert(r.req.valid == (bool)pr.req_valid && IMPLIES(pr.req_valid, r.req.addr == pr.req_addr && r.req.total_size == pr.req_total_size && r.req.id == pr.req_id && r.req.bypass) && r.resp.ready == (bool)pr.resp_ready, "device reads reach their port, uncached");
    vc_assert(w.req.valid == (bool)pw.req_valid && IMPLIES(pw.req_valid, w.req.addr == pw.req_addr && w.req.total_size == pw.req_total_size && w.req.id == pw.req_id && w.req.wstrb == pw.req_wstrb && w.req.bypass && line_out(pw.req_wdata, w.req.wdata)) && w.resp.ready == (bool)pw.resp_ready, "device writes reach their port, uncached");
    auto &i = read_ports[MASTER_ICACHE];
    vc_assert(i.req.valid == g_fetch.valid && IMPLIES(i.req.valid, i.req.addr == g_fetch.addr && i.req.total_size == g_fetch.total_size && i.req.id == g_fetch.id), "the instruction cache's requests reach the bus");
  } else
    for (auto &p : read_ports) if (&p != &read_ports[MASTER_DCACHE_R]) vc_assert(!p.req.valid && !p.resp.ready, "a request is made and an answer taken once per cycle");
  at(T_BUS_IN);
}
void AXI_Interconnect::seq() { at(T_BUS_SEQ); vc_assert(cnt[T_BUS_SEQ] == cnt[T_BUS_IN] && cnt[T_BUS_SEQ] == cnt[T_BUS_OUT], "the bus is clocked once per tick, after evaluation"); }
void AXI_Interconnect::set_llc_lookup_in(const AXI_LLC_LookupIn_t &) {}
const AXI_LLC_TableOut_t &AXI_Interconnect::get_llc_table_out() const { return g_table; }
const AXI_LLCPerfCounters_t &AXI_Interconnect::get_llc_perf_counters() const { return g_perf; }
void sim_ddr::SimDDR::comb_outputs() {} void sim_ddr::SimDDR::comb_inputs() {} void sim_ddr::SimDDR::seq() {}
void mmio::MMIO_Bus_AXI4::comb_outputs() {} void mmio::MMIO_Bus_AXI4::comb_inputs() {} void mmio::MMIO_Bus_AXI4::seq() {}
static wire<1> g_fire[FETCH_WIDTH];
VC_DRIVER(top_cycle) {
  setup(); back_out(); vc_havoc(&C.front.in, sizeof C.front.in, "front_in"); vc_havoc((FrontPreIO *)&C.back.in, sizeof(FrontPreIO), "back_in"); vc_havoc(g_fire, sizeof g_fire, "fire"); C.back.out.fire = g_fire;
  for (int j = 0; j < FETCH_WIDTH; j++) { BIT(C.back.in.valid[j]); BIT(g_fire[j]); }
  vc_havoc(&C.back.number_PC, 4, "pc"); uint32_t pc = C.back.number_PC; C.ctx.exit_reason = ExitReason::NONE; front_answer();
  vc_havoc(&B, sizeof B, "bus"); bool held[FETCH_WIDTH]; for (int j = 0; j < FETCH_WIDTH; j++) held[j] = C.back.in.valid[j];
  for (auto &n : cnt) n = 0;
  C.cycle();
  auto &o = C.back.out;
  vc_assert(cnt[T_STATUS] == 1 && front_steps == 1 && cnt[T_BACK] == 1 && cnt[T_BACK_SEQ] == 1 && cnt[T_MEM_OUT] == 1 && cnt[T_MEM_IN] == 1 && cnt[T_MEM_SEQ] == 1, "every part is evaluated and clocked once");
  vc_assert(cnt[T_BUS_SEQ] == CONFIG_AXI_SUBSYSTEM_FREQ_DIV && cnt[T_FAST] == cnt[T_FAST_SEQ], "the bus makes its ticks");
  vc_assert(C.back.number_PC == (o.mispred || o.flush ? o.redirect_pc : pc), "a redirect sets the fetch address");
  for (int j = 0; j < FETCH_WIDTH; j++) vc_assert(IMPLIES(o.stall && !o.mispred && !o.flush, (bool)C.back.in.valid[j] == (held[j] && !g_fire[j])), "instructions taken from a stalled group are not offered again, the others are");
  vc_cover("cycle");
}
// ---- reset ----
static unsigned i_back, i_mem, i_front, i_bus; static PtwMemPort *lsu_mem; static PtwWalkPort *lsu_walk;
void BackTop::init() { i_back++; csr = &g_csr.v; lsu = &g_lsu.v; rob = &g_rob.v; }
void BackTop::set_lsu_ptw_mem_port(PtwMemPort *p) { lsu_mem = p; }
void BackTop::set_lsu_ptw_walk_port(PtwWalkPort *p) { lsu_walk = p; }
void MemSubsystem::init() {
  vc_assert(i_back == 1 && csr_interrupt_inject == &C.back.csr_interrupt_inject_io && memory == p_memory && peripheral_req == &C.back.out.peripheral_req && peripheral_resp == &C.back.in.peripheral_resp && lsu2dcache == &C.back.out.lsu2dcache && dcache2lsu == &C.back.in.dcache2lsu && ptw_coherent_source_ == &g_lsu.v, "the memory subsystem is connected to the back end before it is reset");
  i_mem++;
}
void MemSubsystem::set_internal_axi_runtime_active(bool) {}
void FrontTop::init() { i_front++; vc_assert(ctx == &C.ctx && in.csr_status == g_csr.v.out.csr_status && icache_mem_read_port == &B.read_ports[MASTER_ICACHE] && icache_ptw_walk_port == M.itlb_walk_port && icache_ptw_mem_port == M.itlb_ptw_port, "the front end is connected before it is reset"); }
void AXI_Interconnect::init() { i_bus++; } void AXI_Interconnect::set_llc_config(const AXI_LLCConfig &) {} void AXI_Router_AXI4::init() {}
void sim_ddr::SimDDR::init() {} void mmio::MMIO_Bus_AXI4::init() {} void mmio::MMIO_Bus_AXI4::add_device(uint32_t, uint32_t, UART16550_Device *) {}
VC_DRIVER(top_init) {
  static char a, b, c, d; static CsrStatusIO st; static uint32_t ram[1];
  M.itlb_walk_port = (PtwWalkPort *)&a; M.dtlb_walk_port = (PtwWalkPort *)&b; M.itlb_ptw_port = (PtwMemPort *)&c; M.dtlb_ptw_port = (PtwMemPort *)&d; p_memory = ram; g_csr.v.out.csr_status = &st;
  i_back = i_mem = i_front = i_bus = 0; vc_havoc(&C.oracle_pending_valid, 1, "pending"); BIT(C.oracle_pending_valid);
  C.init();
  vc_assert(i_back == 1 && i_mem == 1 && i_front == 1 && i_bus == 1 && C.ctx.cpu == &C, "every part is reset once");
  vc_assert(lsu_walk == M.dtlb_walk_port && lsu_mem == M.dtlb_ptw_port, "data translation walks through the data port");
  vc_cover("init");
}
VC_DRIVER(top_restore) {
  setup(); back_out(); vc_havoc(&C.front.in, sizeof C.front.in, "front_in"); uint32_t pc = vc_u32("pc"); cnt[T_STATUS] = 0;
  C.restore_pc(pc);
  auto &o = C.back.out;
  vc_assert(C.front.in.refetch && C.front.in.refetch_address == pc && (o.mispred || o.flush) && o.redirect_pc == pc && !C.front.in.reset, "execution restarts at the given address");
  vc_assert(cnt[T_STATUS] == 1, "under the restored control state");
  vc_cover("restore");
}
