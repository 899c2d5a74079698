// Contract of the queue between fetch and decode and of the fetch target queue
// (back-end/PreIduQueue.cpp, InstructionBuffer.cpp).
//
// Abstract state: a sequence of instructions (ring ibuf from head_r, count_r) and
// a sequence of fetch blocks (ring from ftq_head, ftq_count); a block is valid
// exactly when it is in the sequence.
#include "vc.h"
#include "PreIduQueue.h"
#include "SimCpu.h"
#include "config.h"
#include "util.h"
long long sim_time;
static const int NB = IDU_INST_BUFFER_SIZE, NF = FTQ_SIZE;
static Raw<SimContext> g_ctx;
static Raw<PreIduQueue> g_q;
#define Q (g_q.v)
static FrontPreIO front; static IduConsumeIO consume; static RobBroadcastIO rbc; static RobCommitIO com; static ExuIdIO latch; static FtqPrfPcReqIO prq; static FtqRobPcReqIO rrq;
static PreFrontIO p2f; static PreIssueIO issue; static FtqPrfPcRespIO prs; static FtqRobPcRespIO rrs; static FtqCommitInfoIO cinfo;
static int head, cnt;
static int fh, fc; static uint32_t tail;
static bool within(int i, int h, int n) { return (i - h + NF) % NF < n; }
static void setup() {
  Q.ctx = &g_ctx.v; memset(&g_ctx.v.perf, 0, sizeof g_ctx.v.perf);
  Q.in = {&front, &consume, &rbc, &com, &latch, &prq, &rrq}; Q.out = {&p2f, &issue, &prs, &rrs, &cinfo};
  vc_havoc(&front, sizeof front, "front"); vc_havoc(&consume, sizeof consume, "consume"); vc_havoc(&rbc, sizeof rbc, "rbc"); vc_havoc(&com, sizeof com, "com"); vc_havoc(&latch, sizeof latch, "latch"); vc_havoc(&prq, sizeof prq, "prq"); vc_havoc(&rrq, sizeof rrq, "rrq");
  vc_havoc(&p2f, sizeof p2f, "p2f"); vc_havoc(&issue, sizeof issue, "issue"); vc_havoc(&prs, sizeof prs, "prs"); vc_havoc(&rrs, sizeof rrs, "rrs"); vc_havoc(&cinfo, sizeof cinfo, "cinfo");
  vc_havoc(Q.ibuf.entries, sizeof Q.ibuf.entries, "ibuf"); vc_havoc(Q.ftq_lookup_entries, sizeof Q.ftq_lookup_entries, "ftq"); vc_havoc(Q.ftq_train_meta_fifo, sizeof Q.ftq_train_meta_fifo, "meta"); vc_havoc(Q.ftq_valid, sizeof Q.ftq_valid, "ftq_valid");
}
static void instructions(int h) {
  head = h; cnt = vc_u32("count"); vc_assume(cnt >= 0 && cnt <= NB);
  Q.ibuf.head_r = head; Q.ibuf.count_r = cnt; Q.ibuf.tail_r = (head + cnt) % NB;
  for (int k = 0; k < NB; k++) vc_assume((bool)Q.ibuf.entries[(head + k) % NB].valid == (k < cnt) || k >= cnt);
}
static void blocks(int h, int n) {
  fh = h; fc = n; tail = (h + n) % NF; Q.ftq_head = h; Q.ftq_count = n; Q.ftq_tail = tail;
  for (int i = 0; i < NF; i++) vc_assume(Q.ftq_valid[i] == within(i, h, n));
}
static bool same(const InstructionBufferEntry &a, const InstructionBufferEntry &b) {
  return a.valid == b.valid && a.inst == b.inst && a.pc == b.pc && a.page_fault_inst == b.page_fault_inst && a.ftq_idx == b.ftq_idx && a.ftq_offset == b.ftq_offset && a.ftq_is_last == b.ftq_is_last;
}
// inputs of the rest of the cycle; the flush is decided after fetch was accepted
static int pops, ends;
static void later_inputs() {
  rbc.flush = vc_bool("flush_now");
  pops = 0; ends = 0; bool run = true;
  for (int i = 0; i < DECODE_WIDTH; i++) {
    vc_assume(IMPLIES(consume.fire[i], issue.entries[i].valid && run && !latch.mispred && !rbc.flush)); // decode takes a prefix of what is offered (P09)
    run &= consume.fire[i]; if (run) pops++;
  }
  for (int i = 0; i < COMMIT_WIDTH; i++) if (com.commit_entry[i].valid && com.commit_entry[i].uop.ftq_is_last) ends++;
  vc_assume(ends <= fc); // a block ends after it began (P04)
  vc_assume(IMPLIES(latch.mispred, latch.ftq_idx < NF && within(latch.ftq_idx, fh, fc) && ends == 0)); // the branch's block is in flight, nothing commits (P04)
}
static int incoming() { int n = 0; for (int i = 0; i < FETCH_WIDTH; i++) n += front.valid[i] ? 1 : 0; return n; }
static bool accepted; static InstructionBufferEntry in_e[FETCH_WIDTH]; static int in_n;
static void accept() {
  bool f0 = rbc.flush;
  Q.comb_begin();
  Q.comb_accept_front();
  bool ready = !latch.mispred && !f0 && fc < NF && incoming() <= NB - cnt;
  vc_assert(p2f.ready == ready, "fetch is accepted exactly when there is room and no redirect");
  for (int i = 0; i < FETCH_WIDTH; i++) vc_assert(p2f.fire[i] == (ready && front.valid[i]), "an accepted block is accepted whole");
  accepted = ready && incoming() > 0; in_n = 0;
  int last = -1; for (int i = 0; i < FETCH_WIDTH; i++) if (front.valid[i]) last = i;
  for (int i = 0; i < FETCH_WIDTH; i++) if (accepted && front.valid[i]) {
    auto &e = in_e[in_n++]; e.valid = 1; e.inst = front.inst[i]; e.pc = front.pc[i]; e.page_fault_inst = front.page_fault_inst[i]; e.ftq_idx = tail; e.ftq_offset = i; e.ftq_is_last = i == last;
  }
}
VC_DRIVER(pre_issue) {
  setup(); instructions(vc_choose(NB)); blocks(0, 0);
  Q.comb_begin();
  vc_cover("instructions offered");
  for (int i = 0; i < DECODE_WIDTH; i++) {
    if (i < cnt) vc_assert(same(issue.entries[i], Q.ibuf.entries[(head + i) % NB]), "the oldest instructions are offered to decode, in order");
    else vc_assert(!issue.entries[i].valid, "nothing else is offered");
  }
}
VC_DRIVER(pre_order) {
  setup(); uint32_t n = vc_u32("blocks"); vc_assume(n <= (uint32_t)NF);
  int j = vc_choose(NB); uint32_t h = vc_u32("head"); vc_assume(h < (uint32_t)NB);
  instructions(h); blocks(0, n);
  InstructionBufferEntry was = Q.ibuf.entries[j];
  accept(); later_inputs(); Q.comb_fire(); Q.seq();
  vc_cover("a cycle");
  bool kill = rbc.flush || latch.mispred;
  int n1 = kill ? 0 : cnt - pops + in_n;
  const auto &b = Q.ibuf;
  vc_assert(b.count_r == n1 && b.count_r <= NB && b.head_r >= 0 && b.head_r < NB && b.tail_r == (b.head_r + b.count_r) % NB, "no instruction is lost or invented");
  if (kill) return;
  vc_cover("instructions move on");
  vc_assert(b.head_r == (head + pops) % NB, "the oldest instructions leave first");
  int at = (j - head + NB) % NB; // place of slot j in the sequence
  if (at >= pops && at < cnt) vc_assert(same(b.entries[j], was), "waiting instructions keep their place");
  for (int i = 0; i < in_n && i < FETCH_WIDTH; i++) if (at == (cnt + i) % NB) vc_assert(same(b.entries[j], in_e[i]), "new instructions follow in program order with their word, pc, fault and block");
}
VC_DRIVER(pre_blocks) {
  setup(); uint32_t h = vc_u32("fhead"), n = vc_u32("blocks"); vc_assume(h < (uint32_t)NF && n <= (uint32_t)NF);
  instructions(0); blocks(h, n);
  uint32_t p = vc_choose(NF), o = vc_u32("offset"); vc_assume(o < FETCH_WIDTH);
  FTQEntry e = Q.ftq_lookup_entries[p]; FTQTrainMetaEntry m = Q.ftq_train_meta_fifo[p];
  accept(); later_inputs(); Q.comb_fire(); Q.seq();
  vc_cover("a cycle");
  int h1 = h, n1;
  if (rbc.flush) { n1 = 0; h1 = Q.ftq_head; }
  else if (latch.mispred) n1 = (latch.ftq_idx - h + NF) % NF + 1;   // up to and including the branch's block
  else { h1 = (h + ends) % NF; n1 = (int)n - ends + (accepted ? 1 : 0); }
  vc_assert(Q.ftq_head == (uint32_t)h1 && Q.ftq_head < NF && Q.ftq_count == (uint32_t)n1 && Q.ftq_tail == (uint32_t)((h1 + n1) % NF), "blocks leave when their last instruction commits and are dropped after a redirect");
  vc_assert(Q.ftq_valid[p] == within(p, h1, n1), "exactly the blocks in flight are valid");
  if (!Q.ftq_valid[p]) return;
  bool fresh = accepted && !rbc.flush && !latch.mispred && p == tail;
  const auto &a = Q.ftq_lookup_entries[p]; const auto &b = Q.ftq_train_meta_fifo[p];
  vc_assert(a.slot_pc[o] == (fresh ? front.pc[o] : e.slot_pc[o]) && a.pred_taken_mask[o] == (fresh ? front.predict_dir[o] : e.pred_taken_mask[o]) && a.next_pc == (fresh ? front.predict_next_fetch_address[0] : e.next_pc), "a block keeps the pcs and prediction it was fetched with");
#define KEEP(f, g) (b.f == (fresh ? front.g : m.f))
  vc_assert(KEEP(alt_pred[o], alt_pred[o]) && KEEP(altpcpn[o], altpcpn[o]) && KEEP(pcpn[o], pcpn[o]) && KEEP(sc_used[o], sc_used[o]) && KEEP(sc_pred[o], sc_pred[o]) && KEEP(sc_sum[o], sc_sum[o]) && KEEP(loop_used[o], loop_used[o]) && KEEP(loop_hit[o], loop_hit[o]) && KEEP(loop_pred[o], loop_pred[o]) && KEEP(loop_idx[o], loop_idx[o]) && KEEP(loop_tag[o], loop_tag[o]), "and its prediction metadata");
  for (int t = 0; t < BPU_SCL_META_NTABLE; t++) vc_assert(KEEP(sc_idx[o][t], sc_idx[o][t]), "and its corrector indices");
  for (int t = 0; t < 4; t++) vc_assert(KEEP(tage_idx[o][t], tage_idx[o][t]) && KEEP(tage_tag[o][t], tage_tag[o][t]), "and its table indices and tags");
}
VC_DRIVER(pre_lookup) {
  setup(); uint32_t h = vc_u32("fhead"), n = vc_u32("blocks"); vc_assume(h < (uint32_t)NF && n <= (uint32_t)NF);
  instructions(0); blocks(h, n);
  for (auto &q : prq.req) vc_assume(q.ftq_idx < NF && q.ftq_offset < FETCH_WIDTH);
  for (auto &q : rrq.req) vc_assume(q.ftq_idx < NF && q.ftq_offset < FETCH_WIDTH);
  uint32_t blk = h; int left = n;
  for (auto &c : com.commit_entry) if (c.valid) { // commits come from the oldest blocks in order (P04)
    vc_assume(left > 0 && c.uop.ftq_idx == blk && c.uop.ftq_offset < FETCH_WIDTH);
    if (c.uop.ftq_is_last) { blk = (blk + 1) % NF; left--; }
  }
  Q.comb_begin(); Q.comb_ftq_lookup_rob(); Q.comb_commit_info(); Q.comb_ftq_lookup_prf();
  vc_cover("lookups");
  uint32_t i = vc_choose(FTQ_PRF_PC_PORT_NUM + FTQ_ROB_PC_PORT_NUM + COMMIT_WIDTH);
  if (i < FTQ_PRF_PC_PORT_NUM + FTQ_ROB_PC_PORT_NUM) {
    bool pr = i < FTQ_PRF_PC_PORT_NUM;
    const auto &q = pr ? prq.req[i] : rrq.req[i - FTQ_PRF_PC_PORT_NUM]; const auto &r = pr ? prs.resp[i] : rrs.resp[i - FTQ_PRF_PC_PORT_NUM];
    vc_assert(r.valid == q.valid, "a lookup is answered in the same cycle");
    if (q.valid) vc_assert(r.entry_valid == within(q.ftq_idx, h, n) && r.pc == Q.ftq_lookup_entries[q.ftq_idx].slot_pc[q.ftq_offset] && r.pred_taken == Q.ftq_lookup_entries[q.ftq_idx].pred_taken_mask[q.ftq_offset] && r.next_pc == Q.ftq_lookup_entries[q.ftq_idx].next_pc, "with the pc and prediction of that instruction");
  } else {
    const auto &c = com.commit_entry[i - FTQ_PRF_PC_PORT_NUM - FTQ_ROB_PC_PORT_NUM]; const auto &r = cinfo.resp[i - FTQ_PRF_PC_PORT_NUM - FTQ_ROB_PC_PORT_NUM];
    if (!c.valid) return;
    vc_cover("a committed instruction is reported");
    uint32_t f = c.uop.ftq_idx, o = c.uop.ftq_offset; const auto &m = Q.ftq_train_meta_fifo[f];
    vc_assert(r.pc == Q.ftq_lookup_entries[f].slot_pc[o] && r.pred_taken == Q.ftq_lookup_entries[f].pred_taken_mask[o], "a committed instruction reports its own pc and prediction");
    vc_assert(r.alt_pred == m.alt_pred[o] && r.altpcpn == m.altpcpn[o] && r.pcpn == m.pcpn[o] && r.sc_used == m.sc_used[o] && r.sc_pred == m.sc_pred[o] && r.sc_sum == m.sc_sum[o] && r.loop_used == m.loop_used[o] && r.loop_hit == m.loop_hit[o] && r.loop_pred == m.loop_pred[o] && r.loop_idx == m.loop_idx[o] && r.loop_tag == m.loop_tag[o], "and the metadata of its own prediction");
    for (int t = 0; t < BPU_SCL_META_NTABLE; t++) vc_assert(r.sc_idx[t] == m.sc_idx[o][t], "corrector indices of its prediction");
    for (int t = 0; t < 4; t++) vc_assert(r.tage_idx[t] == m.tage_idx[o][t] && r.tage_tag[t] == m.tage_tag[o][t], "table indices and tags of its prediction");
  }
}
VC_DRIVER(pre_init) {
  setup(); Q.ftq_head = vc_u32("h"); Q.ftq_tail = vc_u32("t"); Q.ftq_count = 3; Q.ibuf.head_r = vc_u32("bh"); Q.ibuf.tail_r = vc_u32("bt"); Q.ibuf.count_r = 7;
  Q.init();
  vc_cover("reset");
  vc_assert(Q.ibuf.count_r == 0 && Q.ibuf.head_r >= 0 && Q.ibuf.head_r < NB && Q.ibuf.tail_r == Q.ibuf.head_r, "no instruction is queued after reset");
  vc_assert(Q.ftq_count == 0 && Q.ftq_head < NF && Q.ftq_tail == Q.ftq_head, "no block is in flight after reset");
  for (int i = 0; i < NF; i++) vc_assert(!Q.ftq_valid[i], "no block is valid after reset");
}
