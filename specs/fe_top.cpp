// Contract of one front-end cycle (front_top.cpp): what is fetched, what is delivered to the back
// end, and what every queue holds afterwards, for arbitrary queue contents, predictor and
// instruction-cache answers. The branch predictor is replaced by its contract (any prediction), the
// instruction cache by any cache that answers requests in order.
#include "vc.h"
#include "train_IO.h"
#include <cstring>
long long sim_time;
void front_comb_calc(const struct front_top_in &inp, const FrontReadData &rd, struct front_top_out &out, FrontUpdateRequest &req);
void front_top(struct front_top_in *in, struct front_top_out *out);
static const uint32_t PM = (1u << pcpn_t_BITS) - 1, IM = (1u << tage_idx_t_BITS) - 1, TM = (1u << tage_tag_t_BITS) - 1;
static front_top_in in; static front_top_out out; static FrontReadData rd; static FrontUpdateRequest req;
static BPU_TOP::OutputPayload bo; static BPU_TOP::InputPayload bi; static int bpu_calls;
static icache_in ii, iinv; static icache_out io; static int ic_calls, inv_calls, peeks; static bool ready, complete; static int inflight;
static Raw<CsrStatusIO *> csr;

void icache_peek_ready(struct icache_in *i, struct icache_out *o) { peeks++; (void)i; o->icache_read_ready = ready; }
void icache_comb_calc(struct icache_in *i, struct icache_out *o) {
  if (i->invalidate_req) { iinv = *i; inv_calls++; vc_havoc(o, sizeof *o, "icache_out2"); return; }
  ii = *i; ic_calls++;
  // answers in request order: only something asked for, and nothing in a cycle that cancels requests
  complete = complete && !i->refetch && !i->reset && (inflight > 0 || i->icache_read_valid);
  io.icache_read_complete = complete; io.icache_read_complete_2 = false; io.icache_read_ready = ready;
  *o = io;
}
static int ic_reads, ic_writes;
void icache_seq_read(struct icache_in *, struct icache_out *) { ic_reads++; }
void icache_seq_write() { ic_writes++; }
extern "C" void bpu_read_stub(const BPU_TOP *, const BPU_TOP::InputPayload &, BPU_TOP::ReadData &) {}
extern "C" void bpu_comb_stub(BPU_TOP *, const BPU_TOP::InputPayload &i, BPU_TOP::ReadData &, BPU_TOP::OutputPayload &o, BPU_TOP::UpdateRequest &) {
  bi = i; bpu_calls++;
  // contract of the predictor: no new group in a redirect cycle; a group is recorded exactly when it is issued and accepted
  bo.icache_read_valid = bo.icache_read_valid && !i.refetch;
  bo.PTAB_write_enable = bo.icache_read_valid && i.icache_read_ready;
  bo.out_pred_base_pc = bo.fetch_address; bo.mini_flush_req = bo.mini_flush_correct = bo.two_ahead_valid = false;
  o = bo;
}
template <class A, class B> static bool meta_eq(const A &a, const B &b) {
  bool r = true;
  for (int i = 0; i < FETCH_WIDTH; i++) {
    r = r & (a.alt_pred[i] == b.alt_pred[i]) & (a.altpcpn[i] == b.altpcpn[i]) & (a.pcpn[i] == b.pcpn[i]) & (a.sc_used[i] == b.sc_used[i]) & (a.sc_pred[i] == b.sc_pred[i]) & (a.sc_sum[i] == b.sc_sum[i]) & (a.loop_used[i] == b.loop_used[i]) & (a.loop_hit[i] == b.loop_hit[i]) & (a.loop_pred[i] == b.loop_pred[i]) & (a.loop_idx[i] == b.loop_idx[i]) & (a.loop_tag[i] == b.loop_tag[i]);
    for (int j = 0; j < TN_MAX; j++) r = r & (a.tage_idx[i][j] == b.tage_idx[i][j]) & (a.tage_tag[i][j] == b.tage_tag[i][j]);
    for (int j = 0; j < BPU_SCL_META_NTABLE; j++) r = r & (a.sc_idx[i][j] == b.sc_idx[i][j]);
  }
  return r;
}
template <class A> static void meta_mask(A &a) {
  for (int i = 0; i < FETCH_WIDTH; i++) {
    a.altpcpn[i] &= PM; a.pcpn[i] &= PM;
    for (int j = 0; j < TN_MAX; j++) { a.tage_idx[i][j] &= IM; a.tage_tag[i][j] &= TM; }
  }
}
static int kind(uint32_t i) { return (i & 0x7f) == 0x6f ? PREDECODE_JAL : (i & 0x7f) == 0x63 ? PREDECODE_DIRECT_JUMP_NO_JAL : (i & 0x7f) == 0x67 ? PREDECODE_JALR : PREDECODE_NON_BRANCH; }
static uint32_t target(uint32_t i, uint32_t pc) {
  if (kind(i) == PREDECODE_JAL) return pc + ((uint32_t)((int32_t)(i & 0x80000000u) >> 11) | (i & 0xff000u) | ((i >> 9) & 0x800u) | ((i >> 20) & 0x7feu));
  return pc + ((uint32_t)((int32_t)(i & 0x80000000u) >> 19) | ((i << 4) & 0x800u) | ((i >> 20) & 0x7e0u) | ((i >> 7) & 0x1eu));
}
// address after the group at pc when nothing in it is taken: a group does not cross a cache line
static uint32_t after(uint32_t pc) { uint32_t n = pc + FETCH_WIDTH * 4, m = ~(uint32_t)(ICACHE_LINE_SIZE - 1); return (n & m) != (pc & m) ? n & m : n; }
// what the instruction queue may hold: instructions with their decoded kinds
static bool group_ok(const instruction_FIFO_entry &e) {
  bool r = e.seq_next_pc == after(e.pc[0]);
  for (int k = 0; k < FETCH_WIDTH; k++) {
    int t = e.inst_valid[k] ? kind(e.instructions[k]) : PREDECODE_NON_BRANCH;
    r = r & (e.pc[k] == e.pc[0] + 4 * k) & (e.predecode_type[k] == t) & IMPLIES(t == PREDECODE_JAL || t == PREDECODE_DIRECT_JUMP_NO_JAL, e.predecode_target_address[k] == target(e.instructions[k], e.pc[k]));
  }
  return r;
}
static bool bpu_in_ok(const BPU_TOP::InputPayload &b) {
  bool r = true;
  for (int i = 0; i < COMMIT_WIDTH; i++) {
    r = r & (b.in_update_base_pc[i] == in.predict_base_pc[i]) & (b.in_upd_valid[i] == in.back2front_valid[i]) & (b.in_actual_dir[i] == in.actual_dir[i]) & (b.in_actual_br_type[i] == in.actual_br_type[i]) & (b.in_actual_targets[i] == in.actual_target[i]) & (b.in_pred_dir[i] == in.predict_dir[i]) & (b.in_alt_pred[i] == in.alt_pred[i]) & (b.in_pcpn[i] == in.pcpn[i]) & (b.in_altpcpn[i] == in.altpcpn[i]) & (b.in_sc_used[i] == in.sc_used[i]) & (b.in_sc_pred[i] == in.sc_pred[i]) & (b.in_sc_sum[i] == in.sc_sum[i]) & (b.in_loop_used[i] == in.loop_used[i]) & (b.in_loop_hit[i] == in.loop_hit[i]) & (b.in_loop_pred[i] == in.loop_pred[i]) & (b.in_loop_idx[i] == in.loop_idx[i]) & (b.in_loop_tag[i] == in.loop_tag[i]);
    for (int j = 0; j < TN_MAX; j++) r = r & (b.in_tage_idxs[i][j] == in.tage_idx[i][j]) & (b.in_tage_tags[i][j] == in.tage_tag[i][j]);
    for (int j = 0; j < BPU_SCL_META_NTABLE; j++) r = r & (b.in_sc_idx[i][j] == in.sc_idx[i][j]);
  }
  return r;
}
static void replace_bpu() {
  vc_replace(vc_fn(&BPU_TOP::bpu_seq_read), (const void *)&bpu_read_stub);
  vc_replace(vc_fn(&BPU_TOP::bpu_comb_calc), (const void *)&bpu_comb_stub);
}
static int fa, fi, fp, fb; // queue lengths before the cycle
static PTAB_entry P; static instruction_FIFO_entry I; static front2back_FIFO_entry B; static fetch_addr_t A;
static void state() {
  vc_havoc(&in, sizeof in, "in"); vc_havoc(&rd, sizeof rd, "rd"); vc_havoc(&bo, sizeof bo, "bpu"); vc_havoc(&io, sizeof io, "icache"); ready = vc_bool("ready"); complete = vc_bool("complete"); inflight = vc_u8("inflight") & 15;
  in.csr_status = (CsrStatusIO *)&csr;
  auto &a = rd.fetch_addr_fifo_rd_snapshot; auto &i = rd.fifo_rd_snapshot; auto &p = rd.ptab_rd_snapshot; auto &b = rd.front2back_fifo_rd_snapshot;
  fa = a.size; fi = i.size; fp = p.size; fb = b.size;
  vc_assume(fa < FETCH_ADDR_FIFO_SIZE && fi <= INSTRUCTION_FIFO_SIZE && fp < PTAB_SIZE && fb <= FRONT2BACK_FIFO_SIZE);
  a.head_valid = fa > 0; i.head_valid = fi > 0; p.head_valid = fp > 0; b.head_valid = fb > 0;
  rd.fetch_addr_fifo_full_latch_snapshot = fa >= FETCH_ADDR_FIFO_SIZE - 1; rd.fetch_addr_fifo_empty_latch_snapshot = fa == 0;
  rd.fifo_full_latch_snapshot = fi == INSTRUCTION_FIFO_SIZE; rd.fifo_empty_latch_snapshot = fi == 0;
  rd.ptab_full_latch_snapshot = fp >= PTAB_SIZE - 1; rd.ptab_empty_latch_snapshot = fp == 0;
  rd.front2back_fifo_full_latch_snapshot = fb == FRONT2BACK_FIFO_SIZE; rd.front2back_fifo_empty_latch_snapshot = fb == 0;
  meta_mask(p.head_entry); meta_mask(b.head_entry); p.head_entry.need_mini_flush = p.head_entry.dummy_entry = false;
  for (int k = 0; k < FETCH_WIDTH; k++) { bo.out_pcpn[k] &= PM; bo.out_altpcpn[k] &= PM; for (int j = 0; j < TN_MAX; j++) { bo.out_tage_idxs[k][j] &= IM; bo.out_tage_tags[k][j] &= TM; } }
  // every recorded prediction is waiting for, or has, its group; once a redirect is pending nothing is claimed
  vc_assume(rd.predecode_refetch_snapshot || fp == fa + inflight + fi);
  vc_assume(fi == 0 || group_ok(i.head_entry));
  for (int k = 0; k < FETCH_WIDTH; k++) { vc_assume(fp == 0 || p.head_entry.predict_base_pc[k] == p.head_entry.predict_base_pc[0] + 4 * k); vc_assume(fi == 0 || fp == 0 || p.head_entry.predict_base_pc[k] == i.head_entry.pc[k]); }
  P = p.head_entry; I = i.head_entry; B = b.head_entry; A = a.head_entry;
  replace_bpu();
}
VC_DRIVER(fe_cycle) {
#ifndef VC_NATIVE
  state();
  front_top_in in0 = in; fetch_addr_t back = in.refetch_address, pre = rd.predecode_refetch_address_snapshot; bool pr = rd.predecode_refetch_snapshot, rs = in.reset, bre = in.refetch;
  bool redirect = bre || pr, gone = redirect || rs;
  front_comb_calc(in, rd, out, req);
  // 1. requests to the predictor
  bool full = fa >= FETCH_ADDR_FIFO_SIZE - 1 || fp >= PTAB_SIZE - 1;
  vc_assert(req.bpu_seq_txn.valid && req.bpu_seq_txn.reset == rs && bpu_calls == (rs ? 0 : 1), "predictor_runs_every_cycle");
  vc_assert(bpu_in_ok(req.bpu_seq_txn.inp) && req.bpu_seq_txn.inp.refetch == redirect, "predictor_learns_from_the_committed_branches");
  if (!rs) {
    vc_assert(bpu_in_ok(bi) && bi.refetch == redirect, "predictor_sees_the_committed_branches");
    vc_assert(IMPLIES(redirect, bi.refetch_address == (bre ? back : pre) && req.bpu_seq_txn.inp.refetch_address == bi.refetch_address), "redirect_address_back_end_first");
    vc_assert(IMPLIES(!redirect, bi.icache_read_ready == !full && req.bpu_seq_txn.inp.icache_read_ready == !full), "predictor_waits_for_room");
  }
  // 2. fetch addresses: taken from the queue in order, new ones go to its end
  auto &qa = req.fetch_addr_fifo_req; auto &qi = req.fifo_req; auto &qp = req.ptab_req; auto &qb = req.front2back_fifo_req;
  bool issue = !rs && !redirect && !full && bo.icache_read_valid, send = ready && fa > 0 && !gone;
  vc_assert(ic_calls == 1 && ii.refetch == redirect && ii.reset == rs && ii.itlb_flush == in.itlb_flush && ii.fence_i == in.fence_i && ii.csr_status == in.csr_status && !ii.icache_read_valid_2, "cache_sees_redirects_and_flushes");
  vc_assert(qa.clear_fifo == gone && qi.clear_fifo == gone && qp.clear_ptab == gone, "redirect_empties_the_fetch_queues");
  vc_assert(qb.clear_fifo == (bre || rs), "back_end_redirect_empties_the_delivery_queue");
  vc_assert(ii.icache_read_valid == send && IMPLIES(send, ii.fetch_address == A) && qa.pop_en == send, "oldest_address_is_fetched");
  vc_assert(qa.push_en == issue && IMPLIES(issue, qa.push_data == bo.fetch_address), "predicted_address_is_queued");
  // 3. one record per issued group
  vc_assert(qp.push_write_en == issue && !qp.push_dummy_en, "prediction_recorded_with_its_address");
  if (issue) {
    auto &e = qp.push_write_entry; bool ok = e.predict_next_fetch_address == bo.predict_next_fetch_address && !e.dummy_entry && !e.need_mini_flush;
    for (int k = 0; k < FETCH_WIDTH; k++) {
      ok = ok & (e.predict_dir[k] == bo.out_pred_dir[k]) & (e.predict_base_pc[k] == bo.fetch_address + 4 * k) & (e.alt_pred[k] == bo.out_alt_pred[k]) & (e.pcpn[k] == bo.out_pcpn[k]) & (e.altpcpn[k] == bo.out_altpcpn[k]) & (e.sc_used[k] == bo.out_sc_used[k]) & (e.sc_pred[k] == bo.out_sc_pred[k]) & (e.sc_sum[k] == bo.out_sc_sum[k]) & (e.loop_used[k] == bo.out_loop_used[k]) & (e.loop_hit[k] == bo.out_loop_hit[k]) & (e.loop_pred[k] == bo.out_loop_pred[k]) & (e.loop_idx[k] == bo.out_loop_idx[k]) & (e.loop_tag[k] == bo.out_loop_tag[k]);
      for (int j = 0; j < TN_MAX; j++) ok = ok & (e.tage_idx[k][j] == bo.out_tage_idxs[k][j]) & (e.tage_tag[k][j] == bo.out_tage_tags[k][j]);
      for (int j = 0; j < BPU_SCL_META_NTABLE; j++) ok = ok & (e.sc_idx[k][j] == bo.out_sc_idx[k][j]);
    }
    vc_assert(ok, "prediction_recorded_unchanged");
  }
  // 4. fetched groups
  vc_assert(qi.push_en == complete, "no_fetched_group_is_lost");
  if (complete) {
    auto &e = qi.push_entry; bool ok = true;
    for (int k = 0; k < FETCH_WIDTH; k++) ok = ok & (e.instructions[k] == io.fetch_group[k]) & (e.pc[k] == io.fetch_pc + 4 * k) & (e.page_fault_inst[k] == io.page_fault_inst[k]) & (e.inst_valid[k] == io.inst_valid[k]);
    vc_assert(ok, "fetched_group_queued_unchanged");
    vc_assert(group_ok(e), "fetched_group_is_predecoded");
  }
  // 5. checking the prediction and handing the group on
  bool run = fi > 0 && fp > 0 && fb < FRONT2BACK_FIFO_SIZE && !gone, want = in.FIFO_read_enable;
  vc_assert(qi.pop_en == run && qp.pop_en == run, "group_and_prediction_leave_together");
  bool dir[FETCH_WIDTH]; uint32_t next = after(I.pc[0]); bool seen = false;
  for (int k = 0; k < FETCH_WIDTH; k++) {
    int t = I.inst_valid[k] ? kind(I.instructions[k]) : PREDECODE_NON_BRANCH;
    dir[k] = t == PREDECODE_JAL || t == PREDECODE_JALR || (t == PREDECODE_DIRECT_JUMP_NO_JAL && P.predict_dir[k]);
    if (dir[k] && !seen) { next = t == PREDECODE_JALR ? P.predict_next_fetch_address : target(I.instructions[k], I.pc[k]); seen = true; }
  }
  bool through = run && want && fb == 0, old = want && fb > 0 && !bre && !rs;
  vc_assert(qb.push_en == (run && !through) && qb.pop_en == old, "checked_group_is_queued_or_delivered");
  auto head = [&](auto &e) { bool ok = true; for (int k = 0; k < FETCH_WIDTH; k++) ok = ok & (e.inst_valid[k] == I.inst_valid[k]) & (e.page_fault_inst[k] == I.page_fault_inst[k]); return ok; };
  if (qb.push_en) {
    auto &e = qb.push_entry; bool ok = head(e) && meta_eq(e, P) && e.predict_next_fetch_address_corrected == next;
    for (int k = 0; k < FETCH_WIDTH; k++) ok = ok & (e.fetch_group[k] == I.instructions[k]) & (e.predict_base_pc[k] == I.pc[k]) & (e.predict_dir_corrected[k] == dir[k]);
    vc_assert(ok, "queued_group_is_the_checked_one");
  }
  vc_assert(out.FIFO_valid == (through || old), "something_delivered_iff_available");
  if (through) {
    bool ok = head(out) && meta_eq(out, P) && out.predict_next_fetch_address == next;
    for (int k = 0; k < FETCH_WIDTH; k++) ok = ok & (out.instructions[k] == I.instructions[k]) & (out.pc[k] == I.pc[k]) & (out.predict_dir[k] == dir[k]);
    vc_assert(ok, "delivered_group_is_the_checked_one");
  }
  if (old) {
    bool ok = meta_eq(out, B) && out.predict_next_fetch_address == B.predict_next_fetch_address_corrected;
    for (int k = 0; k < FETCH_WIDTH; k++) ok = ok & (out.instructions[k] == B.fetch_group[k]) & (out.pc[k] == B.predict_base_pc[k]) & (out.predict_dir[k] == B.predict_dir_corrected[k]) & (out.inst_valid[k] == B.inst_valid[k]) & (out.page_fault_inst[k] == B.page_fault_inst[k]);
    vc_assert(ok, "delivered_group_is_the_oldest_queued");
  }
  vc_assert(IMPLIES(!rs, out.commit_stall == bo.update_queue_full), "commit_waits_for_the_update_queue");
  // 6. a wrong prediction redirects the fetch in the next cycle and cancels the requests under way
  auto &f = req.front_state; bool wrong = run && next != P.predict_next_fetch_address;
  vc_assert(f.valid && f.next_predecode_refetch == wrong && IMPLIES(wrong, f.next_predecode_refetch_address == next), "wrong_prediction_redirects");
  vc_assert(inv_calls == (wrong ? 1 : 0), "wrong_prediction_cancels_requests");
  // 7. the queue lengths and their latches
  int a1 = (gone ? 0 : fa) + issue - send, i1 = (gone ? 0 : fi) + complete - run, p1 = (gone ? 0 : fp) + issue - run, b1 = (bre || rs ? 0 : fb) + (run && !through) - old;
  vc_assert(f.next_fetch_addr_fifo_full == (a1 >= FETCH_ADDR_FIFO_SIZE - 1) && f.next_fetch_addr_fifo_empty == (a1 == 0), "address_queue_latches");
  vc_assert(f.next_fifo_full == (i1 == INSTRUCTION_FIFO_SIZE) && f.next_fifo_empty == (i1 == 0), "instruction_queue_latches");
  vc_assert(f.next_ptab_full == (p1 >= PTAB_SIZE - 1) && f.next_ptab_empty == (p1 == 0), "prediction_queue_latches");
  vc_assert(f.next_front2back_fifo_full == (b1 == FRONT2BACK_FIFO_SIZE) && f.next_front2back_fifo_empty == (b1 == 0), "delivery_queue_latches");
  int g1 = (gone ? 0 : inflight) + send - complete;
  vc_assert(a1 >= 0 && a1 < FETCH_ADDR_FIFO_SIZE && i1 >= 0 && i1 <= INSTRUCTION_FIFO_SIZE && p1 >= 0 && p1 < PTAB_SIZE && b1 >= 0 && b1 <= FRONT2BACK_FIFO_SIZE, "queues_never_overflow");
  vc_assert(g1 >= 0 && (wrong || p1 == a1 + g1 + i1), "every_prediction_has_its_group");
  vc_cover("fe_cycle");
#endif
}
// front_top: what the cycle decides is what the next cycle starts from.
static FrontUpdateRequest r1; static FrontReadData seen; static int cyc; static front_top_out o1;
static void copy_state(FrontUpdateRequest &d, const FrontUpdateRequest &s) { memcpy((void *)&d, (const void *)&s, sizeof d); }
void comb_stub(const struct front_top_in &, const FrontReadData &r, struct front_top_out &o, FrontUpdateRequest &q) { memcpy((void *)&seen, (const void *)&r, sizeof seen); copy_state(q, r1); o = o1; cyc++; }
static int bw; static bool bw_reset, bw_ok;
extern "C" void bpu_write_stub(BPU_TOP *, const BPU_TOP::InputPayload &i, const BPU_TOP::UpdateRequest &, bool reset) { bw++; bw_reset = reset; bw_ok = bpu_in_ok(i) && i.refetch == r1.bpu_seq_txn.inp.refetch && i.refetch_address == r1.bpu_seq_txn.inp.refetch_address; }
VC_DRIVER(fe_commit) {
#ifndef VC_NATIVE
  vc_replace((const void *)&front_comb_calc, (const void *)&comb_stub); vc_replace(vc_fn(&BPU_TOP::bpu_seq_write), (const void *)&bpu_write_stub);
  vc_havoc(&in, sizeof in, "in"); vc_havoc(&r1.front_state, sizeof r1.front_state, "st"); vc_havoc(&r1.bpu_seq_txn.inp, sizeof r1.bpu_seq_txn.inp, "bi"); vc_havoc(&o1, sizeof o1, "o1");
  r1.bpu_seq_txn.valid = true; r1.bpu_seq_txn.reset = vc_bool("breset"); r1.front_state.valid = true;
  vc_assume(bpu_in_ok(r1.bpu_seq_txn.inp));
  auto &qa = r1.fetch_addr_fifo_req; auto &qi = r1.fifo_req; auto &qp = r1.ptab_req; auto &qb = r1.front2back_fifo_req;
  qa.push_en = vc_bool("pa"); qa.push_data = vc_u32("a"); qi.push_en = vc_bool("pi"); vc_havoc(&qi.push_entry, sizeof qi.push_entry, "i"); qp.push_write_en = vc_bool("pp"); vc_havoc(&qp.push_write_entry, sizeof qp.push_write_entry, "p"); qb.push_en = vc_bool("pb"); vc_havoc(&qb.push_entry, sizeof qb.push_entry, "b");
  meta_mask(qp.push_write_entry); meta_mask(qb.push_entry);
  bool pa = qa.push_en, pi = qi.push_en, pp = qp.push_write_en, pb = qb.push_en;
  front_top(&in, &out);
  vc_assert(cyc == 1 && !seen.predecode_refetch_snapshot && seen.fetch_addr_fifo_rd_snapshot.size == 0 && seen.fifo_rd_snapshot.size == 0 && seen.ptab_rd_snapshot.size == 0 && seen.front2back_fifo_rd_snapshot.size == 0, "starts_empty");
  vc_assert(!seen.fetch_addr_fifo_full_latch_snapshot && seen.fetch_addr_fifo_empty_latch_snapshot && !seen.fifo_full_latch_snapshot && seen.fifo_empty_latch_snapshot && !seen.ptab_full_latch_snapshot && seen.ptab_empty_latch_snapshot && !seen.front2back_fifo_full_latch_snapshot && seen.front2back_fifo_empty_latch_snapshot, "starts_empty_latches");
  vc_assert(bw == 1 && bw_reset == r1.bpu_seq_txn.reset && bw_ok, "predictor_is_updated_once");
  vc_assert(ic_writes == 1 && ic_reads == 1, "cache_advances_once");
  { bool ok = out.FIFO_valid == o1.FIFO_valid && out.commit_stall == o1.commit_stall && out.predict_next_fetch_address == o1.predict_next_fetch_address && meta_eq(out, o1); for (int k = 0; k < FETCH_WIDTH; k++) ok = ok & (out.instructions[k] == o1.instructions[k]) & (out.pc[k] == o1.pc[k]) & (out.inst_valid[k] == o1.inst_valid[k]) & (out.predict_dir[k] == o1.predict_dir[k]) & (out.page_fault_inst[k] == o1.page_fault_inst[k]); vc_assert(ok, "result_is_handed_out"); }
  PendingFrontState s; memcpy((void *)&s, (const void *)&r1.front_state, sizeof s);
  fetch_addr_t a = qa.push_data; instruction_FIFO_entry i = qi.push_entry; PTAB_entry p = qp.push_write_entry; front2back_FIFO_entry b = qb.push_entry;
  qa.push_en = qi.push_en = qp.push_write_en = qb.push_en = false; r1.front_state.valid = false;
  front_top(&in, &out);
  vc_assert(seen.predecode_refetch_snapshot == s.next_predecode_refetch && seen.predecode_refetch_address_snapshot == s.next_predecode_refetch_address, "redirect_is_remembered");
  vc_assert(seen.fetch_addr_fifo_full_latch_snapshot == s.next_fetch_addr_fifo_full && seen.fetch_addr_fifo_empty_latch_snapshot == s.next_fetch_addr_fifo_empty && seen.fifo_full_latch_snapshot == s.next_fifo_full && seen.fifo_empty_latch_snapshot == s.next_fifo_empty, "fetch_latches_are_kept");
  vc_assert(seen.ptab_full_latch_snapshot == s.next_ptab_full && seen.ptab_empty_latch_snapshot == s.next_ptab_empty && seen.front2back_fifo_full_latch_snapshot == s.next_front2back_fifo_full && seen.front2back_fifo_empty_latch_snapshot == s.next_front2back_fifo_empty, "delivery_latches_are_kept");
  auto &ra = seen.fetch_addr_fifo_rd_snapshot; auto &ri = seen.fifo_rd_snapshot; auto &rp = seen.ptab_rd_snapshot; auto &rb = seen.front2back_fifo_rd_snapshot;
  vc_assert(ra.size == pa && ra.head_valid == pa && IMPLIES(pa, ra.head_entry == a), "address_queued");
  vc_assert(ri.size == pi && IMPLIES(pi, ri.head_entry.seq_next_pc == i.seq_next_pc && ri.head_entry.pc[0] == i.pc[0] && ri.head_entry.instructions[0] == i.instructions[0]), "group_queued");
  vc_assert(rp.size == pp && IMPLIES(pp, meta_eq(rp.head_entry, p) && rp.head_entry.predict_base_pc[0] == p.predict_base_pc[0]), "prediction_queued");
  vc_assert(rb.size == pb && IMPLIES(pb, meta_eq(rb.head_entry, b) && rb.head_entry.fetch_group[0] == b.fetch_group[0]), "delivery_queued");
  vc_cover("fe_commit");
#endif
}
