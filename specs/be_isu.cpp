// Contract of the issue stage (Isu.cpp, IssueQueue.h): an operation leaves its queue
// only when its operands are (about to be) available and its unit can take it; it is
// sent once, to a port that executes it, and every waiting operand is woken.
//
// Queue contracts are stated per step of the cycle on the real IssueQueue of each
// configuration; the stage-level contract uses the queues through those contracts.
#include "vc.h"
#include "Isu.h"
#include "SimCpu.h"
#include "Exu.h"
#define fadd_io_generator spec_fadd_gen // FPU.h defines these objects in every translation unit
#define fmul_io_generator spec_fmul_gen
#define FADD_PI_WIDTH spec_fadd_pi
#define FADD_PO_WIDTH spec_fadd_po
#define FMUL_PI_WIDTH spec_fmul_pi
#define FMUL_PO_WIDTH spec_fmul_po
#include "FPU.h"
#include "util.h"
long long sim_time;
static Raw<SimContext> g_ctx;
static DisIssIO dis2iss; static PrfAwakeIO pawk; static ExeIssIO exe2iss; static RobBroadcastIO rbc; static DecBroadcastIO dbc;
static IssPrfIO iss2prf; static IssDisIO iss2dis; static IssAwakeIO iawk;
static Isu *S;
static void build() {
  S = new Isu(&g_ctx.v);
  S->in.dis2iss = &dis2iss; S->in.prf_awake = &pawk; S->in.exe2iss = &exe2iss; S->in.rob_bcast = &rbc; S->in.dec_bcast = &dbc;
  S->out.iss2prf = &iss2prf; S->out.iss2dis = &iss2dis; S->out.iss_awake = &iawk;
  S->init();
}
static bool same_uop(const IqStoredUop &a, const IqStoredUop &b) { // everything but busy flags and branch mask
  return a.dest_preg == b.dest_preg && a.src1_preg == b.src1_preg && a.src2_preg == b.src2_preg && a.ftq_idx == b.ftq_idx && a.ftq_offset == b.ftq_offset && a.is_atomic == b.is_atomic && a.dest_en == b.dest_en &&
         a.src1_en == b.src1_en && a.src2_en == b.src2_en && a.src1_is_pc == b.src1_is_pc && a.src2_is_imm == b.src2_is_imm && a.func3 == b.func3 && a.func7 == b.func7 && a.imm == b.imm && a.br_id == b.br_id &&
         a.csr_idx == b.csr_idx && a.rob_idx == b.rob_idx && a.stq_idx == b.stq_idx && a.stq_flag == b.stq_flag && a.ldq_idx == b.ldq_idx && a.rob_flag == b.rob_flag && a.op == b.op && a.dbg.pc == b.dbg.pc && a.dbg.instruction == b.dbg.instruction;
}
// ---- one queue -------------------------------------------------------------
static IssueQueue *Q; static int N;
static IqStoredEntry old[32]; static int old_count;
static uint64_t dep1(uint32_t preg) { return Q->wake_matrix_src1_1[preg]; }
static uint64_t dep2(uint32_t preg) { return Q->wake_matrix_src2_1[preg]; }
static bool waits1(const IqStoredUop &u) { return u.src1_en && u.src1_busy; }
static bool waits2(const IqStoredUop &u) { return u.src2_en && u.src2_busy; }
// Invariant: every operand a queued operation waits for is registered for wake-up.
static bool registered(const IqStoredEntry &e, int i) {
  return IMPLIES(e.valid && waits1(e.uop), (dep1(e.uop.src1_preg) >> i) & 1) && IMPLIES(e.valid && waits2(e.uop), (dep2(e.uop.src2_preg) >> i) & 1);
}
static int population(IqStoredEntry *e) { int n = 0; for (int i = 0; i < N; i++) n += e[i].valid ? 1 : 0; return n; }
static void assume_queue(int q, int size) {
  build();
  IssueQueueConfig cfg = S->configs[q]; cfg.size = size;
  Q = new IssueQueue(cfg); N = Q->size;
  for (int i = 0; i < N; i++) {
    vc_havoc(&Q->entry_1.d[i], sizeof(IqStoredEntry), "entry");
    auto &u = Q->entry_1.d[i].uop;
    vc_assume(u.src1_preg < PRF_NUM && u.src2_preg < PRF_NUM && u.dest_preg < PRF_NUM && u.op < MAX_UOP_TYPE);
  }
  uint64_t slots = N == 64 ? ~0ull : (1ull << N) - 1;
  for (int p = 0; p < PRF_NUM; p++) { Q->wake_matrix_src1_1.d[p] = vc_u64("wake1") & slots; Q->wake_matrix_src2_1.d[p] = vc_u64("wake2") & slots; } // only existing slots are registered
  for (int i = 0; i < N; i++) vc_assume(registered(Q->entry_1.d[i], i));
  Q->count_1 = population(Q->entry_1.d);
  Q->seq();
  for (int i = 0; i < N; i++) old[i] = Q->entry_1.d[i];
  old_count = Q->count_1;
}
static void check_slot(int i) { vc_assert(registered(Q->entry_1[i], i), "every operand still waited for stays registered for wake-up"); }
// The entry count is the number of occupied slots: it changes by one for every slot that changes.
static int expected_count() { int c = old_count; for (int i = 0; i < N; i++) { if (old[i].valid && !Q->entry_1[i].valid) c--; if (!old[i].valid && Q->entry_1[i].valid) c++; } return c; }
static bool queue_port(int q, int p) { for (auto &b : S->configs[q].ports) if (b.port_idx == p) return true; return false; }

static void issue(int q, int size) {
  assume_queue(q, size);
  Q->comb_begin();
  vc_assert(Q->out.free_slots == N - old_count, "the free space offered is the number of empty slots");
  Q->in.issue_block = vc_bool("block");
  for (int p = 0; p < ISSUE_WIDTH; p++) Q->in.port_fu_ready_mask[p] = vc_u32("fu_ready");
  Q->comb_issue();
  bool taken[32]; int from[ISSUE_WIDTH];
  for (int p = 0; p < ISSUE_WIDTH; p++) {
    auto &g = Q->out.issue_grants[p];
    if (!queue_port(q, p)) { vc_assert(!g.valid, "a queue uses only its own ports"); continue; }
    uint64_t cap = GLOBAL_ISSUE_PORT_CONFIG[p].support_mask, rdy = Q->in.port_fu_ready_mask[p];
    vc_assert(IMPLIES(g.valid, !Q->in.issue_block), "nothing is issued during a flush or recovery");
    vc_assert(IMPLIES(g.valid, (cap >> g.uop.op) & 1), "an operation is sent to a port that executes it");
    vc_assert(IMPLIES(g.valid, (rdy >> g.uop.op) & 1), "an operation is sent only to a unit that can take it");
    vc_assert(IMPLIES(g.valid, !waits1(g.uop) && !waits2(g.uop)), "an operation is sent only when its operands are available");
  }
  // Which slot went to which port: a slot is emptied iff its operation was sent.
  for (int i = 0; i < N; i++) {
    bool gone = old[i].valid && !Q->entry_1[i].valid; int ports = 0;
    for (int p = 0; p < ISSUE_WIDTH; p++) if (queue_port(q, p)) {
      auto &g = Q->out.issue_grants[p];
      bool it = g.valid && same_uop(g.uop, old[i].uop) && g.uop.br_mask == old[i].uop.br_mask;
      if (gone && it) ports++;
    }
    vc_assert(IMPLIES(gone, ports >= 1), "an operation leaves the queue only by being sent");
    vc_assert(IMPLIES(!old[i].valid, !Q->entry_1[i].valid), "issue adds nothing");
    vc_assert(IMPLIES(Q->entry_1[i].valid, same_uop(Q->entry_1[i].uop, old[i].uop) && Q->entry_1[i].uop.br_mask == old[i].uop.br_mask && Q->entry_1[i].uop.src1_busy == old[i].uop.src1_busy && Q->entry_1[i].uop.src2_busy == old[i].uop.src2_busy), "an operation that stays is unchanged");
  }
  // As many slots are emptied as operations were sent, and every sent operation was in an emptied slot.
  int sent = 0, gone = 0;
  for (int p = 0; p < ISSUE_WIDTH; p++) if (queue_port(q, p)) {
    auto &g = Q->out.issue_grants[p]; sent += g.valid ? 1 : 0; bool some = false;
    for (int i = 0; i < N; i++) some = some || (old[i].valid && !Q->entry_1[i].valid && same_uop(g.uop, old[i].uop) && g.uop.br_mask == old[i].uop.br_mask);
    vc_assert(IMPLIES(g.valid, some), "a sent operation leaves the queue");
  }
  for (int i = 0; i < N; i++) if (old[i].valid && !Q->entry_1[i].valid) gone++;
  vc_assert(sent == gone, "no operation is sent twice");
  vc_assert(Q->count_1 == expected_count() && Q->out.free_slots == N - Q->count_1, "the entry count follows");
  // With free units and no recovery, every port of the queue is used as long as an operation for it is ready.
  bool all_free = !Q->in.issue_block;
  for (int p = 0; p < ISSUE_WIDTH; p++) if (queue_port(q, p)) { uint64_t cap = GLOBAL_ISSUE_PORT_CONFIG[p].support_mask; all_free = all_free && (Q->in.port_fu_ready_mask[p] & cap) == cap; }
  for (int p = 0; p < ISSUE_WIDTH; p++) if (queue_port(q, p)) {
    uint64_t cap = GLOBAL_ISSUE_PORT_CONFIG[p].support_mask; bool some = false;
    for (int i = 0; i < N; i++) some = some || (Q->entry_1[i].valid && !waits1(old[i].uop) && !waits2(old[i].uop) && ((cap >> old[i].uop.op) & 1));
    vc_assert(IMPLIES(some && all_free, Q->out.issue_grants[p].valid), "a free port is not left idle while an operation for it is ready");
  }
  for (int i = 0; i < N; i++) check_slot(i);
  vc_cover("issue");
}
// The integer queue (several kinds of operations on shared ports) and one of the others,
// which differ only in their ports; the contracts are instantiated for queues of 8 (4) and, in the thorough tier, 16 slots.
static const int which[2] = {IQ_INT, IQ_LD};
VC_DRIVER(iq_issue) { int q = vc_choose(2); issue(which[q], q == 0 ? 8 : 4); }
VC_DRIVER(iq_issue16) { issue(which[vc_choose(2)], 16); }

static void wake(int q, int size, unsigned ports) {
  assume_queue(q, size);
  vc_loop_queries(0); // the row loops end when the row is exhausted
  for (int k = 0; k < MAX_WAKEUP_PORTS; k++) { Q->in.wake_valid[k] = (ports >> k) & 1 ? vc_bool("wake") : false; Q->in.wake_pregs[k] = vc_u8("wake_preg") & (PRF_NUM - 1); }
  Q->comb_wakeup();
  for (int i = 0; i < N; i++) {
    auto &e = Q->entry_1[i]; bool w1 = false, w2 = false;
    for (int k = 0; k < MAX_WAKEUP_PORTS; k++) if (Q->in.wake_valid[k]) { w1 = w1 || Q->in.wake_pregs[k] == old[i].uop.src1_preg; w2 = w2 || Q->in.wake_pregs[k] == old[i].uop.src2_preg; }
    vc_assert(e.valid == old[i].valid && same_uop(e.uop, old[i].uop) && e.uop.br_mask == old[i].uop.br_mask, "waking changes nothing else");
    vc_assert(IMPLIES(e.valid, waits1(e.uop) == (waits1(old[i].uop) && !w1)), "the first operand is woken iff its register is announced");
    vc_assert(IMPLIES(e.valid, waits2(e.uop) == (waits2(old[i].uop) && !w2)), "the second operand is woken iff its register is announced");
    check_slot(i);
  }
  vc_assert(Q->count_1 == old_count, "waking changes nothing else");
  vc_cover("wake");
}
// Quick: any two neighbouring wake-up channels at once; thorough: all channels at once.
VC_DRIVER(iq_wake) { int k = vc_choose(MAX_WAKEUP_PORTS); wake(IQ_LD, 8, 1u << k | 1u << (k + 1) % MAX_WAKEUP_PORTS); }
VC_DRIVER(iq_wake_all) { wake(IQ_LD, 8, ~0u); }

// Entering operations. Dispatch sends at most as many as there is room for (P06).
static void enter(int q, int size) {
  assume_queue(q, size);
  int W = Q->dispatch_width, want = 0;
  for (int w = 0; w < W; w++) {
    auto &r = Q->in.enq_reqs[w];
    vc_havoc(&r, sizeof r, "request"); r.uop.src1_preg &= PRF_NUM - 1; r.uop.src2_preg &= PRF_NUM - 1;
    want += r.valid ? 1 : 0;
  }
  vc_assume(old_count + want <= N);
  Q->comb_enq();
  bool placed[16]; for (int w = 0; w < W; w++) placed[w] = false;
  int filled = 0;
  for (int i = 0; i < N; i++) {
    auto &e = Q->entry_1[i]; bool fresh = e.valid && !old[i].valid, some = false;
    if (fresh) filled++;
    for (int w = 0; w < W; w++) {
      auto &r = Q->in.enq_reqs[w];
      bool it = fresh && r.valid && same_uop(e.uop, r.uop) && e.uop.br_mask == r.uop.br_mask && e.uop.src1_busy == r.uop.src1_busy && e.uop.src2_busy == r.uop.src2_busy;
      some = some || it; placed[w] = placed[w] || it;
    }
    vc_assert(IMPLIES(fresh, some), "only requested operations enter the queue, unchanged");
    vc_assert(IMPLIES(old[i].valid, e.valid && same_uop(e.uop, old[i].uop) && e.uop.br_mask == old[i].uop.br_mask && e.uop.src1_busy == old[i].uop.src1_busy && e.uop.src2_busy == old[i].uop.src2_busy), "entering operations overwrite no waiting one");
    check_slot(i);
  }
  for (int w = 0; w < W; w++) vc_assert(IMPLIES(Q->in.enq_reqs[w].valid, placed[w]), "every requested operation enters the queue");
  vc_assert(filled == want, "every operation enters once");
  vc_assert(Q->count_1 == expected_count(), "the entry count follows");
  vc_cover("enter");
}
VC_DRIVER(iq_enter) { enter(IQ_LD, 8); }
VC_DRIVER(iq_enter16) { enter(IQ_LD, 16); }

static void cancel(int q, int size) {
  assume_queue(q, size);
  Q->in.flush_all = vc_bool("flush"); Q->in.flush_br = vc_bool("mispred"); Q->in.flush_br_mask = vc_u16("br_mask"); Q->in.clear_mask = vc_u16("clear");
  Q->comb_flush();
  for (int i = 0; i < N; i++) {
    auto &e = Q->entry_1[i];
    bool dies = Q->in.flush_all || (Q->in.flush_br && (old[i].uop.br_mask & Q->in.flush_br_mask) != 0);
    vc_assert(e.valid == (old[i].valid && !dies), "exactly the cancelled operations leave the queue");
    vc_assert(IMPLIES(e.valid, same_uop(e.uop, old[i].uop) && e.uop.src1_busy == old[i].uop.src1_busy && e.uop.src2_busy == old[i].uop.src2_busy && e.uop.br_mask == (wire<BR_MASK_WIDTH>)(old[i].uop.br_mask & ~Q->in.clear_mask)), "a surviving operation only forgets resolved branches");
    check_slot(i);
  }
  vc_assert(Q->count_1 == expected_count(), "the entry count follows");
  vc_cover("cancel");
}
VC_DRIVER(iq_cancel) { cancel(IQ_LD, 8); }
VC_DRIVER(iq_cancel16) { cancel(IQ_LD, 16); }

// The registered state is the working copy; a fresh queue is empty.
VC_DRIVER(iq_clock) {
  assume_queue(IQ_LD, 8);
  auto keep = [](const char *) {
    for (int i = 0; i < N; i++) {
      auto &e = Q->entry_1[i];
      vc_assert(e.valid == old[i].valid && same_uop(e.uop, old[i].uop) && e.uop.br_mask == old[i].uop.br_mask && e.uop.src1_busy == old[i].uop.src1_busy && e.uop.src2_busy == old[i].uop.src2_busy, "the queue is carried over to the next cycle unchanged");
      check_slot(i);
    }
    vc_assert(Q->count_1 == old_count, "the queue is carried over to the next cycle unchanged");
  };
  for (int i = 0; i < N; i++) vc_havoc(&Q->entry_1.d[i], sizeof(IqStoredEntry), "stale");
  Q->count_1 = (int)(vc_u8("stale") & 15);
  for (int p = 0; p < PRF_NUM; p++) { Q->wake_matrix_src1_1.d[p] = vc_u64("stale"); Q->wake_matrix_src2_1.d[p] = vc_u64("stale"); }
  Q->comb_begin(); keep("begin");
  vc_assert(Q->out.free_slots == N - old_count, "the free space offered is the number of empty slots");
  vc_cover("clock");
}
VC_DRIVER(isu_init) {
  build();
  vc_assert(S->iqs.size() == IQ_NUM && S->configs.size() == IQ_NUM, "there is one queue of each kind");
  int owner[ISSUE_WIDTH]; for (int p = 0; p < ISSUE_WIDTH; p++) owner[p] = 0;
  for (int q = 0; q < IQ_NUM; q++) {
    IssueQueue &x = S->iqs[q];
    vc_assert(x.size == GLOBAL_IQ_CONFIG[q].size && x.dispatch_width == GLOBAL_IQ_CONFIG[q].dispatch_width && x.count == 0, "queues have their configured size and start empty");
    vc_assert(S->configs[q].dispatch_width <= MAX_IQ_DISPATCH_WIDTH, "queues have their configured width");
    for (int i = 0; i < x.size; i++) vc_assert(!x.entry[i].valid, "queues start empty");
    for (int p = 0; p < PRF_NUM; p++) vc_assert(x.wake_matrix_src1[p] == 0 && x.wake_matrix_src2[p] == 0, "queues start empty");
    for (auto &b : x.ports) { owner[b.port_idx]++; vc_assert(b.capability_mask == GLOBAL_ISSUE_PORT_CONFIG[b.port_idx].support_mask, "a queue knows what its ports execute"); }
  }
  for (int p = 0; p < ISSUE_WIDTH; p++) vc_assert(owner[p] == 1, "every port belongs to exactly one queue");
  for (auto &st : S->mul_wake_pipe) for (auto &e : st) vc_assert(!e.valid, "no wake-up is pending after reset");
  for (auto &e : S->div_wake_slots) vc_assert(!e.valid, "no wake-up is pending after reset");
  for (auto &e : S->fp_wake_slots) vc_assert(!e.valid, "no wake-up is pending after reset");
  vc_cover("init");
}

// ---- the stage, with the queues represented by their contracts ---------------
enum Step { S_NONE, S_BEGIN, S_ISSUE, S_WAKE, S_ENTER, S_CANCEL, S_SEQ };
static int step_of[IQ_NUM];
static bool in_order[IQ_NUM];
static int index_of(IssueQueue *q) { for (int i = 0; i < IQ_NUM; i++) if (q == &S->iqs[i]) return i; return 0; }
static void advance(IssueQueue *q, int to) { int i = index_of(q); in_order[i] = in_order[i] && step_of[i] == to - 1; step_of[i] = to; }
static bool expect_block; static uint32_t expect_ready[ISSUE_WIDTH];
static uint32_t offered[IQ_NUM];
static void q_begin(IssueQueue *q) { advance(q, S_BEGIN); offered[index_of(q)] = vc_u8("free_slots"); q->out.free_slots = offered[index_of(q)]; }
static void q_issue(IssueQueue *q) {
  advance(q, S_ISSUE); int i = index_of(q);
  vc_assert(q->in.issue_block == (rbc.flush || dbc.mispred), "issue stops exactly during a flush or recovery");
  for (int p = 0; p < ISSUE_WIDTH; p++) {
    auto &g = q->out.issue_grants[p]; g.valid = false;
    if (!queue_port(i, p)) continue;
    vc_assert(q->in.port_fu_ready_mask[p] == exe2iss.fu_ready_mask[p], "the queue sees which units are free");
    vc_havoc(&g.uop, sizeof g.uop, "issued"); bool v = vc_bool("issued");
    g.uop.dest_preg &= PRF_NUM - 1;
    vc_assume(g.uop.op < MAX_UOP_TYPE);
    g.valid = v && !q->in.issue_block && ((q->in.port_fu_ready_mask[p] & GLOBAL_ISSUE_PORT_CONFIG[p].support_mask) >> g.uop.op & 1); // iq_issue
  }
}
static bool announced_to[IQ_NUM]; static uint32_t probe_reg;
static void q_wake(IssueQueue *q) {
  advance(q, S_WAKE); bool a = false;
  for (int k = 0; k < MAX_WAKEUP_PORTS; k++) a = a || (q->in.wake_valid[k] && q->in.wake_pregs[k] == probe_reg);
  announced_to[index_of(q)] = a;
}
static IqStoredEntry entered[IQ_NUM][MAX_IQ_DISPATCH_WIDTH];
static void q_enter(IssueQueue *q) { advance(q, S_ENTER); int i = index_of(q); for (int w = 0; w < MAX_IQ_DISPATCH_WIDTH && w < q->dispatch_width; w++) entered[i][w] = q->in.enq_reqs[w]; }
static void q_cancel(IssueQueue *q) {
  advance(q, S_CANCEL);
  vc_assert(q->in.flush_all == rbc.flush && IMPLIES(!rbc.flush, q->in.flush_br == dbc.mispred && IMPLIES(dbc.mispred, q->in.flush_br_mask == dbc.br_mask) && q->in.clear_mask == dbc.clear_mask), "the queues learn of flushes, mispredictions and resolved branches");
}
static void q_seq(IssueQueue *q) { advance(q, S_SEQ); }

struct Pending { bool valid; int left; uint32_t preg, br; };
static bool has(const Pending &p, bool valid, int left, uint32_t preg, uint32_t br) { return p.valid == valid && IMPLIES(valid, p.left == left && p.preg == preg && p.br == br); }
static Pending div_slot(int i) { auto &e = S->div_wake_slots[i]; return {(bool)e.valid, e.countdown, e.dest_preg, e.br_mask}; }
static Pending fp_slot(int i) { auto &e = S->fp_wake_slots[i]; return {(bool)e.valid, e.countdown, e.dest_preg, e.br_mask}; }
static Pending mul_slot(int d, int i) { auto &e = S->mul_wake_pipe[d][i]; return {(bool)e.valid, ISU_MUL_WAKE_DEPTH - 1 - d, e.dest_preg, e.br_mask}; }
static bool cancelled(uint32_t br) { return rbc.flush || (dbc.mispred && (br & dbc.br_mask)); }
static int latency_of(int op, uint32_t f7) { return S->get_latency((UopType)op, f7); }

VC_DRIVER(isu_cycle) {
  build();
  vc_havoc(&dis2iss, sizeof dis2iss, "dis2iss"); vc_havoc(&pawk, sizeof pawk, "prf_awake"); vc_havoc(&exe2iss, sizeof exe2iss, "exe2iss"); vc_havoc(&rbc, sizeof rbc, "rob_bcast"); vc_havoc(&dbc, sizeof dbc, "dec_bcast");
  vc_havoc(&iss2prf, sizeof iss2prf, "iss2prf"); vc_havoc(&iss2dis, sizeof iss2dis, "iss2dis"); vc_havoc(&iawk, sizeof iawk, "iss_awake");
  vc_havoc(S->mul_wake_pipe, sizeof S->mul_wake_pipe, "mul"); vc_havoc(S->mul_wake_pipe_1, sizeof S->mul_wake_pipe_1, "mul_1");
  vc_havoc(S->div_wake_slots, sizeof S->div_wake_slots, "div"); vc_havoc(S->div_wake_slots_1, sizeof S->div_wake_slots_1, "div_1");
  vc_havoc(S->fp_wake_slots, sizeof S->fp_wake_slots, "fp"); vc_havoc(S->fp_wake_slots_1, sizeof S->fp_wake_slots_1, "fp_1");
  // One unit of each multi-cycle kind: a unit still busy offers no room, and its wake-up is
  // given at the latest when it becomes free (isu_latency).
  static_assert(ISU_MUL_WAKE_UNIT_NUM == 1 && ISU_DIV_WAKE_UNIT_NUM == 1 && ISU_FP_WAKE_UNIT_NUM == 1, "one unit of each multi-cycle kind");
  Pending dv = div_slot(0), fv = fp_slot(0), mv = mul_slot(ISU_MUL_WAKE_DEPTH - 1, 0);
  vc_assume(dv.left >= 0 && dv.left < 64 && fv.left >= 0 && fv.left < 64);
  for (int p = 0; p < ISSUE_WIDTH; p++) {
    vc_assume(IMPLIES(dv.valid && dv.left > 0, !((exe2iss.fu_ready_mask[p] >> UOP_DIV) & 1)));
    vc_assume(IMPLIES(fv.valid && fv.left > 0, !((exe2iss.fu_ready_mask[p] >> UOP_FP) & 1)));
  }
  for (int i = 0; i < IQ_NUM; i++) { step_of[i] = S_NONE; in_order[i] = true; }
  vc_replace(vc_fn(&IssueQueue::comb_begin), (const void *)q_begin); vc_replace(vc_fn(&IssueQueue::comb_issue), (const void *)q_issue);
  vc_replace(vc_fn(&IssueQueue::comb_wakeup), (const void *)q_wake); vc_replace(vc_fn(&IssueQueue::comb_enq), (const void *)q_enter);
  vc_replace(vc_fn(&IssueQueue::comb_flush), (const void *)q_cancel); vc_replace(vc_fn(&IssueQueue::seq), (const void *)q_seq);
  probe_reg = vc_u8("probe") & (PRF_NUM - 1);
  S->comb_begin(); S->comb_ready();
  for (int i = 0; i < IQ_NUM; i++) vc_assert(iss2dis.ready_num[i] == offered[i], "dispatch sees the free space of every queue");
  S->comb_issue();
  for (int i = 0; i < IQ_NUM; i++) for (int p = 0; p < ISSUE_WIDTH; p++) if (queue_port(i, p)) {
    auto &g = S->iqs[i].out.issue_grants[p]; auto &o = iss2prf.iss_entry[p]; auto &a = g.uop; auto &b = o.uop;
    vc_assert(o.valid == g.valid, "a port carries an operation iff its queue sent one");
    vc_assert(IMPLIES(g.valid, a.dest_preg == b.dest_preg && a.src1_preg == b.src1_preg && a.src2_preg == b.src2_preg && a.ftq_idx == b.ftq_idx && a.ftq_offset == b.ftq_offset && a.is_atomic == b.is_atomic && a.dest_en == b.dest_en &&
         a.src1_en == b.src1_en && a.src2_en == b.src2_en && a.src1_is_pc == b.src1_is_pc && a.src2_is_imm == b.src2_is_imm && a.func3 == b.func3 && a.func7 == b.func7 && a.imm == b.imm && a.br_id == b.br_id && a.br_mask == b.br_mask &&
         a.csr_idx == b.csr_idx && a.rob_idx == b.rob_idx && a.stq_idx == b.stq_idx && a.stq_flag == b.stq_flag && a.ldq_idx == b.ldq_idx && a.rob_flag == b.rob_flag && a.op == b.op && a.dbg.pc == b.dbg.pc && a.dbg.instruction == b.dbg.instruction), "an issued operation is passed on unchanged");
  }
  S->comb_awake();
  // Registers announced: loads delivered, multi-cycle results about to be available, and results of operations issued now on integer ports.
  bool want = (dv.valid && dv.left == 0 && dv.preg == probe_reg) || (fv.valid && fv.left == 0 && fv.preg == probe_reg) || (mv.valid && mv.preg == probe_reg);
  for (int k = 0; k < LSU_LOAD_WB_WIDTH; k++) want = want || (pawk.wake[k].valid && pawk.wake[k].preg == probe_reg);
  for (int p = 0; p < ISSUE_WIDTH; p++) {
    auto &o = iss2prf.iss_entry[p];
    bool integer = GLOBAL_ISSUE_PORT_CONFIG[p].support_mask & OP_MASK_ALU;
    want = want || (integer && o.valid && o.uop.dest_en && o.uop.op != UOP_MUL && o.uop.op != UOP_DIV && o.uop.op != UOP_FP && o.uop.dest_preg == probe_reg);
  }
  bool got = false;
  for (int k = 0; k < MAX_WAKEUP_PORTS; k++) got = got || (iawk.wake[k].valid && iawk.wake[k].preg == probe_reg);
  vc_assert(IMPLIES(want, got), "every result that becomes available is announced to dispatch");
  vc_assert(IMPLIES(got, want), "nothing else is announced to dispatch");
  for (int i = 0; i < IQ_NUM; i++) vc_assert(announced_to[i] == want, "every queue is told exactly the registers that become available");
  S->comb_calc_latency_next(); S->comb_enq();
  for (int i = 0; i < IQ_NUM; i++) for (int w = 0; w < MAX_IQ_DISPATCH_WIDTH && w < S->configs[i].dispatch_width; w++) {
    auto &r = dis2iss.req[i][w]; auto &e = entered[i][w]; IqStoredUop u = IqStoredUop::from_dis_iss_uop(r.uop);
    bool w1 = false, w2 = false;
    for (int k = 0; k < MAX_WAKEUP_PORTS; k++) if (iawk.wake[k].valid) { w1 = w1 || iawk.wake[k].preg == u.src1_preg; w2 = w2 || iawk.wake[k].preg == u.src2_preg; }
    vc_assert((bool)e.valid == (bool)r.valid, "exactly the dispatched operations enter their queue");
    vc_assert(IMPLIES(r.valid, same_uop(e.uop, u) && e.uop.br_mask == u.br_mask && e.uop.dest_preg == r.uop.dest_preg && e.uop.rob_idx == r.uop.rob_idx && e.uop.imm == r.uop.imm && e.uop.op == r.uop.op), "a dispatched operation enters its queue unchanged");
    vc_assert(IMPLIES(r.valid, waits1(e.uop) == (r.uop.src1_en && r.uop.src1_busy && !w1) && waits2(e.uop) == (r.uop.src2_en && r.uop.src2_busy && !w2)), "an entering operation does not miss a register announced in the same cycle");
  }
  S->comb_flush(); S->seq();
  for (int i = 0; i < IQ_NUM; i++) vc_assert(in_order[i] && step_of[i] == S_SEQ, "every queue goes through every step of the cycle once, in order");
  // Pending wake-ups after the cycle.
  Pending nd = {dv.valid && dv.left > 0, dv.left - 1, dv.preg, dv.br}, nf = {fv.valid && fv.left > 0, fv.left - 1, fv.preg, fv.br}, nm = {false, ISU_MUL_WAKE_DEPTH - 1, 0, 0};
  for (int p = 0; p < ISSUE_WIDTH; p++) {
    auto &o = iss2prf.iss_entry[p]; if (!(o.valid && o.uop.dest_en)) continue;
    uint64_t cap = GLOBAL_ISSUE_PORT_CONFIG[p].support_mask;
    if ((cap & OP_MASK_DIV) && o.uop.op == UOP_DIV) nd = {true, latency_of(UOP_DIV, o.uop.func7) - 1, o.uop.dest_preg, o.uop.br_mask};
    if ((cap & OP_MASK_FP) && o.uop.op == UOP_FP) nf = {true, latency_of(UOP_FP, o.uop.func7) - 1, o.uop.dest_preg, o.uop.br_mask};
    if ((cap & OP_MASK_MUL) && o.uop.op == UOP_MUL) nm = {true, ISU_MUL_WAKE_DEPTH - 1, o.uop.dest_preg, o.uop.br_mask};
  }
  uint32_t keep = (uint32_t)(wire<BR_MASK_WIDTH>)~dbc.clear_mask;
  vc_assert(has(div_slot(0), nd.valid && !cancelled(nd.br), nd.left, nd.preg, nd.br & keep), "the result of a division is announced when its latency has passed, unless it is cancelled");
  vc_assert(has(fp_slot(0), nf.valid && !cancelled(nf.br), nf.left, nf.preg, nf.br & keep), "the result of a floating-point operation is announced when its latency has passed, unless it is cancelled");
  vc_assert(has(mul_slot(0, 0), nm.valid && !cancelled(nm.br), nm.left, nm.preg, nm.br & keep), "the result of a multiplication is announced when its latency has passed, unless it is cancelled");
  vc_cover("cycle");
}

// A consumer woken for a multi-cycle result is issued no earlier than the unit delivers it, and
// the wake-up is over when the unit can take the next operation.
VC_DRIVER(isu_latency) {
  build();
  int kind = vc_choose(3); ExuInst u; vc_havoc(&u, sizeof u, "op");
  int64_t t = 1000; sim_time = t + 1; // issued at t, in the unit from t+1
  u.op = kind == 0 ? UOP_DIV : kind == 1 ? UOP_FP : UOP_MUL;
  int64_t done; bool busy;
  if (kind == 2) {
    MulUnit *m = new MulUnit(std::string(), 0); FixedLatencyFU *f = m;
    f->comb_begin(); f->in.en = true; f->in.inst = u; f->comb_issue();
    done = f->pipeline_1.front().done_cycle; busy = f->pipeline_1.size() == 1;
  } else {
    IterativeFU *f = kind == 0 ? (IterativeFU *)new DivUnit(std::string(), 0, DIV_MAX_LATENCY) : (IterativeFU *)new FPUSoftfloat();
    f->comb_begin(); f->in.en = true; f->in.inst = u; f->comb_issue();
    done = f->done_cycle_1; busy = f->busy_1;
  }
  int lat = S->get_latency((UopType)(int)u.op, u.func7);
  int64_t told = kind == 2 ? t + ISU_MUL_WAKE_DEPTH : t + lat; // cycle of the announcement
  vc_assert(busy && lat > 1, "multi-cycle operations are announced after their latency");
  vc_assert(done <= told + 1, "a woken consumer is issued no earlier than the result is available");
  if (kind != 2) vc_assert(told <= done, "the announcement is over when the unit takes the next operation");
  vc_cover("latency");
}
