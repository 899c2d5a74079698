// Contract of the branch predictor's control (BPU.h): whatever the direction, target and type tables
// answer, the predictor emits a connected stream of fetch groups, restores its speculative history
// on a redirect and keeps every committed branch it is told about until it has been trained.
#include "vc.h"
#include "train_IO.h"
#include <cstring>
long long sim_time;
void icache_peek_ready(struct icache_in *, struct icache_out *) {}
void icache_comb_calc(struct icache_in *, struct icache_out *) {}
void icache_seq_read(struct icache_in *, struct icache_out *) {}
void icache_seq_write() {}
static Raw<BPU_TOP> raw;
static Raw<BPU_TOP::ReadData> rrd; static Raw<BPU_TOP::UpdateRequest> rrq; static Raw<BPU_TOP::UpdateRequest> rrq2;
static BPU_TOP::InputPayload in; static BPU_TOP::OutputPayload out;
static TypePredictor::OutputPayload to; static TAGE_TOP::OutputPayload ta[BPU_BANK_NUM]; static BTB_TOP::OutputPayload bt[BPU_BANK_NUM];
static int nta, nbt, nty, wta, wbt, wty;
static BTB_TOP::InputPayload bti[BPU_BANK_NUM]; static TypePredictor::InputPayload tyi;
static bool tup[BPU_BANK_NUM]; static uint32_t tupc[BPU_BANK_NUM]; static bool tdir[BPU_BANK_NUM];
extern "C" void tage_read(const TAGE_TOP *, const TAGE_TOP::InputPayload &, TAGE_TOP::ReadData &) {}
extern "C" void tage_comb(const TAGE_TOP *, const TAGE_TOP::InputPayload &i, TAGE_TOP::ReadData &, TAGE_TOP::OutputPayload &o, TAGE_TOP::CombResult &) {
  int b = nta++ % BPU_BANK_NUM; tup[b] = i.update_en; tupc[b] = i.pc_update_in; tdir[b] = i.real_dir; o = ta[b];
}
extern "C" void tage_write(TAGE_TOP *, const TAGE_TOP::InputPayload &, const TAGE_TOP::CombResult &, bool) { wta++; }
extern "C" void btb_read(const BTB_TOP *, const BTB_TOP::InputPayload &, BTB_TOP::ReadData &) {}
extern "C" void btb_comb(const BTB_TOP *, const BTB_TOP::InputPayload &i, BTB_TOP::ReadData &, BTB_TOP::OutputPayload &o, BTB_TOP::CombResult &) { int b = nbt++ % BPU_BANK_NUM; bti[b] = i; o = bt[b]; }
extern "C" void btb_write(BTB_TOP *, const BTB_TOP::InputPayload &, const BTB_TOP::CombResult &, bool) { wbt++; }
extern "C" void type_read(const TypePredictor *, const TypePredictor::InputPayload &, TypePredictor::ReadData &) {}
extern "C" void type_comb(const TypePredictor *, const TypePredictor::InputPayload &i, TypePredictor::ReadData &, TypePredictor::OutputPayload &o, TypePredictor::CombResult &) { nty++; tyi = i; o = to; }
extern "C" void type_write(TypePredictor *, const TypePredictor::InputPayload &, const TypePredictor::CombResult &, bool) { wty++; }
#define B raw.v
static void replace_tables() {
  vc_replace(vc_fn(&TAGE_TOP::tage_seq_read), (const void *)&tage_read); vc_replace(vc_fn(&TAGE_TOP::tage_comb_calc), (const void *)&tage_comb); vc_replace(vc_fn(&TAGE_TOP::tage_seq_write), (const void *)&tage_write);
  vc_replace(vc_fn(&BTB_TOP::btb_seq_read), (const void *)&btb_read); vc_replace(vc_fn(&BTB_TOP::btb_comb_calc), (const void *)&btb_comb); vc_replace(vc_fn(&BTB_TOP::btb_seq_write), (const void *)&btb_write);
  vc_replace(vc_fn(&TypePredictor::type_pred_seq_read), (const void *)&type_read); vc_replace(vc_fn(&TypePredictor::type_pred_comb_calc), (const void *)&type_comb); vc_replace(vc_fn(&TypePredictor::type_pred_seq_write), (const void *)&type_write);
}
static uint32_t after(uint32_t pc) { uint32_t n = pc + FETCH_WIDTH * 4, m = ~(uint32_t)(ICACHE_LINE_SIZE - 1); return (n & m) != (pc & m) ? n & m : n; }
static void tables() {
  // lengths of the folded histories (constants of the class)
  static const uint32_t gl[TN_MAX] = {8, 13, 32, 119}, fl[FH_N_MAX][TN_MAX] = {{8, 11, 11, 11}, {8, 8, 8, 8}, {7, 7, 7, 7}};
  memcpy((void *)B.ghr_length, gl, sizeof gl); memcpy((void *)B.fh_length, fl, sizeof fl);
  vc_havoc(&to, sizeof to, "type"); vc_havoc(ta, sizeof ta, "tage"); vc_havoc(bt, sizeof bt, "btb");
  for (int i = 0; i < FETCH_WIDTH; i++) to.pred_type[i] &= 7;
}
static void state() {
  vc_havoc(&in, sizeof in, "in"); tables();
  vc_havoc(B.Arch_GHR, sizeof B.Arch_GHR, "aghr"); vc_havoc(B.Spec_GHR, sizeof B.Spec_GHR, "sghr"); vc_havoc(B.Arch_FH, sizeof B.Arch_FH, "afh"); vc_havoc(B.Spec_FH, sizeof B.Spec_FH, "sfh");
  vc_havoc(B.Arch_ras_stack, sizeof B.Arch_ras_stack, "aras"); vc_havoc(B.Spec_ras_stack, sizeof B.Spec_ras_stack, "sras");
  B.Arch_PATH = vc_u32("apath"); B.Spec_PATH = vc_u32("spath");
  B.Arch_ras_count = vc_u8("arc") % (RAS_DEPTH + 1); B.Spec_ras_count = vc_u8("src") % (RAS_DEPTH + 1);
  B.pc_reg = vc_u32("pc") & ~3u; in.refetch_address &= ~3u; B.pc_can_send_to_icache = true;
  vc_assume(B.pc_reg < 0xffffff00u && in.refetch_address < 0xffffff00u);
  replace_tables();
}
// return stack: a push onto a full stack forgets the oldest address
static void push(target_addr_t *st, int &n, target_addr_t v) {
  bool full = n == RAS_DEPTH;
  for (int j = 0; j < RAS_DEPTH; j++) st[j] = full ? (j + 1 < RAS_DEPTH ? st[j + 1] : v) : j == n ? v : st[j];
  n = full ? n : n + 1;
}
static bool ras_is(const target_addr_t *a, const target_addr_t *b, int n) { bool r = true; for (int j = 0; j < RAS_DEPTH; j++) r = r & IMPLIES(j < n, a[j] == b[j]); return r; }
VC_DRIVER(bpu_cycle) {
#ifndef VC_NATIVE
  state();
  bool re = in.refetch, rdy = in.icache_read_ready; uint32_t base = re ? in.refetch_address : B.pc_reg;
  static target_addr_t sst[RAS_DEPTH]; memcpy(sst, B.Spec_ras_stack, sizeof sst); int sc = B.Spec_ras_count, ac = B.Arch_ras_count; static target_addr_t ast[RAS_DEPTH]; memcpy(ast, B.Arch_ras_stack, sizeof ast); static wire1_t agh[GHR_LENGTH]; memcpy(agh, B.Arch_GHR, sizeof agh);
  uint32_t stop = sc ? B.Spec_ras_stack[sc - 1] : 0;
  B.bpu_seq_read(in, rrd.v);
  B.bpu_comb_calc(in, rrd.v, out, rrq.v);
  bool rec = !re && rdy;
  vc_assert(out.icache_read_valid == !re, "a_group_is_offered_unless_redirected");
  vc_assert(out.PTAB_write_enable == rec, "a_prediction_is_recorded_exactly_when_its_group_is_taken");
  vc_assert(out.fetch_address == base && out.out_pred_base_pc == base, "the_group_starts_at_the_current_address");
  vc_assert(!out.mini_flush_req && !out.mini_flush_correct && !out.two_ahead_valid, "no_second_group");
  // lanes inside the line, their direction, and the first one taken with a known target
  bool hit = false, first = false, dirs = true; uint32_t nxt = after(base), callpc = 0; int ft = BR_NONCTL;
  bool meta = true;
  for (int i = 0; i < FETCH_WIDTH; i++) {
    uint32_t pc = base + 4 * i; bool on = pc < after(base); int b = (pc >> 2) % BPU_BANK_NUM, t = to.pred_type[i];
    bool tk = on && (t == BR_DIRECT ? ta[b].tage_pred_out_valid && ta[b].pred_out : t == BR_CALL || t == BR_RET || t == BR_IDIRECT || t == BR_JAL);
    if (t > BR_JAL && t != BR_DIRECT) tk = out.out_pred_dir[i]; // not a branch kind: no claim
    dirs = dirs & IMPLIES(rec, out.out_pred_dir[i] == tk);
    meta = meta & IMPLIES(rec && on && ta[b].tage_pred_out_valid, out.out_alt_pred[i] == ta[b].alt_pred_out && out.out_pcpn[i] == ta[b].pcpn_out && out.out_altpcpn[i] == ta[b].altpcpn_out && out.out_tage_idxs[i][0] == ta[b].tage_idx_flat_out[0] && out.out_tage_tags[i][TN_MAX - 1] == ta[b].tage_tag_flat_out[TN_MAX - 1]);
    bool v = bt[b].btb_pred_out_valid;
    if (tk && v && !hit) nxt = t == BR_RET && sc ? stop : bt[b].pred_target;
    hit = hit || (tk && v);
    if (tk && !first) { ft = t; callpc = pc; }
    first = first || tk;
  }
  vc_assert(dirs, "direction_of_each_lane"); vc_assert(meta, "what_a_branch_must_bring_back_to_train");
  vc_assert(IMPLIES(rec, out.predict_next_fetch_address == nxt), "predicted_next_address");
  uint32_t pn = out.predict_next_fetch_address;
  uint32_t pc0 = B.pc_reg;
  B.bpu_seq_write(in, rrq.v, false);
  vc_assert(nta == BPU_BANK_NUM && nbt == BPU_BANK_NUM && nty == 1 && wta == nta && wbt == nbt && wty == 1, "tables_are_consulted_and_written_once");
  // the next group starts where this one said
  vc_assert(B.pc_can_send_to_icache, "predictor_keeps_going");
  vc_assert(IMPLIES(rec, B.pc_reg == pn), "the_stream_is_connected");
  vc_assert(IMPLIES(re, B.pc_reg == base), "a_redirect_restarts_at_its_address");
  vc_assert(IMPLIES(!re && !rdy, B.pc_reg == pc0), "a_refused_group_is_offered_again");
  // speculative history and return stack
  vc_assert(B.Spec_ras_count <= RAS_DEPTH && B.Arch_ras_count <= RAS_DEPTH, "return_stack_depth");
  if (re) {
    bool g = true; for (int i = 0; i < GHR_LENGTH; i++) g = g & (B.Spec_GHR[i] == B.Arch_GHR[i]);
    vc_assert(g && vc_eq(B.Spec_FH, B.Arch_FH, sizeof B.Spec_FH) && B.Spec_PATH == B.Arch_PATH, "a_redirect_restores_the_committed_history");
    vc_assert(B.Spec_ras_count == B.Arch_ras_count && vc_eq(B.Spec_ras_stack, B.Arch_ras_stack, sizeof B.Spec_ras_stack), "a_redirect_restores_the_committed_return_stack");
    vc_cover("redirect");
  } else {
    vc_assert(IMPLIES(!rec || ft != BR_CALL && ft != BR_RET, B.Spec_ras_count == sc && vc_eq(B.Spec_ras_stack, sst, sizeof sst)), "return_stack_untouched_without_call_or_return");
    vc_assert(IMPLIES(rec && ft == BR_RET, B.Spec_ras_count == (sc ? sc - 1 : 0) && vc_eq(B.Spec_ras_stack, sst, sizeof sst)), "a_return_pops");
    int c = B.Spec_ras_count, sc2 = sc; static target_addr_t sst2[RAS_DEPTH]; memcpy(sst2, sst, sizeof sst); push(sst2, sc2, callpc + 4);
    vc_assert(IMPLIES(rec && ft == BR_CALL, c == sc2 && ras_is(B.Spec_ras_stack, sst2, c)), "a_call_pushes_its_return_address");
    if (rec) vc_cover("group");
  }
  bool ghs = true;
  for (int i = 0; i < COMMIT_WIDTH; i++) if (in.in_upd_valid[i]) {
    if (in.in_actual_br_type[i] == BR_CALL) push(ast, ac, in.in_update_base_pc[i] + 4);
    else if (in.in_actual_br_type[i] == BR_RET) ac = ac ? ac - 1 : 0;
    else if (in.in_actual_br_type[i] == BR_DIRECT) { for (int j = GHR_LENGTH - 1; j > 0; j--) agh[j] = agh[j - 1]; agh[0] = in.in_actual_dir[i]; }
  }
  vc_assert(B.Arch_ras_count == ac && ras_is(B.Arch_ras_stack, ast, ac), "committed_calls_and_returns");
  for (int j = 0; j < GHR_LENGTH; j++) ghs = ghs & (B.Arch_GHR[j] == agh[j]);
  vc_assert(ghs, "committed_directions_enter_the_history");
#endif
}
// The queue of committed branches waiting to be trained, in each bank.
VC_DRIVER(bpu_queue) {
#ifndef VC_NATIVE
  vc_havoc(&in, sizeof in, "in"); tables(); replace_tables(); in.refetch = false; in.icache_read_ready = false; B.pc_reg = 0x80000000u; B.pc_can_send_to_icache = true;
  static const int RD[4] = {0, Q_DEPTH - 2, 3, Q_DEPTH - 1}, CN[5] = {0, 1, 4, Q_DEPTH - 3, Q_DEPTH - 2};
  int q = vc_choose(20), rp = RD[q % 4], n = CN[q / 4]; int bk = vc_u8("bank") & (BPU_BANK_NUM - 1);
  for (int b = 0; b < BPU_BANK_NUM; b++) {
    B.q_rd_ptr[b] = rp; B.q_count[b] = n; B.q_wr_ptr[b] = (rp + n) % Q_DEPTH;
    for (int j = 0; j < 3; j++) vc_havoc(&B.update_queue[(rp + j) % Q_DEPTH][b], sizeof B.update_queue[0][0], "queued");
  }
  auto h0 = B.update_queue[rp][bk];
  B.bpu_seq_read(in, rrd.v); B.bpu_comb_calc(in, rrd.v, out, rrq.v); B.bpu_seq_write(in, rrq.v, false);
  // the oldest one is given to the tables of its bank
  if (n > 0) {
    vc_assert(bti[bk].upd_valid == h0.valid_mask && bti[bk].upd_actual_addr == h0.targets && bti[bk].upd_br_type_in == h0.br_type && bti[bk].upd_actual_dir == h0.actual_dir, "oldest_branch_trains_the_target_table");
    vc_assert(tup[bk] == (h0.br_type == BR_DIRECT && h0.valid_mask) && IMPLIES(tup[bk], tdir[bk] == h0.actual_dir), "oldest_conditional_branch_trains_the_direction_table");
  } else vc_assert(!bti[bk].upd_valid && !tup[bk], "nothing_to_train");
  bool ty = true; for (int i = 0; i < COMMIT_WIDTH; i++) ty = ty & (tyi.upd_valid[i] == in.in_upd_valid[i]) & IMPLIES(in.in_upd_valid[i], tyi.upd_pc[i] == in.in_update_base_pc[i] && tyi.upd_br_type[i] == in.in_actual_br_type[i]);
  vc_assert(ty, "committed_branches_train_the_type_table");
  // every committed branch is queued behind the others, in order
  int m = n > 0 ? n - 1 : 0, r2 = n > 0 ? (rp + 1) % Q_DEPTH : rp, w = (rp + n) % Q_DEPTH, k = 0; bool put = true;
  for (int i = 0; i < COMMIT_WIDTH; i++) {
    bool mine = in.in_upd_valid[i] && (int)((in.in_update_base_pc[i] >> 2) % BPU_BANK_NUM) == bk;
    for (int j = 0; j <= i; j++) {
      auto &e = B.update_queue[(w + j) % Q_DEPTH][bk];
      put = put & IMPLIES(mine && k == j, e.base_pc == in.in_update_base_pc[i] && e.valid_mask && e.actual_dir == in.in_actual_dir[i] && e.br_type == in.in_actual_br_type[i] && e.targets == in.in_actual_targets[i] && e.pred_dir == in.in_pred_dir[i] && e.alt_pred == in.in_alt_pred[i] && e.pcpn == in.in_pcpn[i] && e.altpcpn == in.in_altpcpn[i] && vc_eq(e.tage_tags, in.in_tage_tags[i], sizeof e.tage_tags) && vc_eq(e.tage_idxs, in.in_tage_idxs[i], sizeof e.tage_idxs) && e.sc_used == in.in_sc_used[i] && e.sc_pred == in.in_sc_pred[i] && e.sc_sum == in.in_sc_sum[i] && e.loop_hit == in.in_loop_hit[i] && e.loop_idx == in.in_loop_idx[i] && e.loop_tag == in.in_loop_tag[i]);
    }
    k += mine;
  }
  vc_assert(put, "committed_branches_are_queued_in_order");
  vc_assert(B.q_count[bk] == m + k && B.q_rd_ptr[bk] == r2 && B.q_wr_ptr[bk] == (w + k) % Q_DEPTH, "queue_bookkeeping");
  bool full = false; for (int b = 0; b < BPU_BANK_NUM; b++) full = full || Q_DEPTH - (int)B.q_count[b] < COMMIT_WIDTH;
  vc_assert(out.update_queue_full == full, "says_full_while_a_cycle_of_commits_might_not_fit");
  vc_cover("queue");
#endif
}
