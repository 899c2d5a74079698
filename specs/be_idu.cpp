// Contract of branch-tag management and branch recovery broadcast (back-end/Idu.cpp).
//
// Invariant:
//   free     tag 0 is never used; tag t is free exactly when t is not in now_br_mask
//   elders   br_mask_cp[t] of a live t is a set of live tags holding t itself, and
//            "u in br_mask_cp[t]" is a total order of the live tags (program order)
// A result arriving from execution names live, uncancelled branches only (P10).
#include "vc.h"
#include "Idu.h"
#include "SimCpu.h"
#include "config.h"
#include "util.h"
long long sim_time;
static Raw<SimContext> g_ctx;
static Raw<Idu> g_i;
#define D (g_i.v)
static PreIssueIO issue; static RenDecIO ren2dec; static RobBroadcastIO rbc; static ExuIdIO exu; static DecRenIO d2r; static DecBroadcastIO dbc; static IduConsumeIO consume;
static uint32_t live, clr; static bool mis; static uint32_t mbr;
static bool has(uint32_t m, uint32_t t) { return (m >> t) & 1; }
static uint32_t elder[MAX_BR_NUM]; // before the cycle
static bool ordered(uint32_t set, uint32_t t) {
  bool ok = has(D.br_mask_cp[t], t) && (D.br_mask_cp[t] & ~set) == 0;
  for (uint32_t u = 1; u < MAX_BR_NUM; u++) {
    bool o = has(D.br_mask_cp[t], u);
    ok &= !has(set, u) || u == t || ((o != (bool)has(D.br_mask_cp[u], t)) && (!o || (D.br_mask_cp[u] & ~D.br_mask_cp[t]) == 0));
  }
  return !has(set, t) || ok;
}
static bool isbr(uint32_t t) { return t == BR || t == JALR; }
static void decode_contract(Idu *, DecRenIO::DecRenInst &u, uint32_t inst) { u.type = static_cast<InstType>(vc_uf("type", 1, inst, 0, 0, 0) & 31); }
static void wire_up() {
  D.ctx = &g_ctx.v; memset(&g_ctx.v.perf, 0, sizeof g_ctx.v.perf); D.max_br_per_cycle = MAX_BR_PER_CYCLE;
  D.in = {&issue, &ren2dec, &rbc, &exu}; D.out = {&d2r, &dbc, &consume};
  vc_havoc(&issue, sizeof issue, "issue"); vc_havoc(&ren2dec, sizeof ren2dec, "ren2dec"); vc_havoc(&rbc, sizeof rbc, "rbc"); vc_havoc(&exu, sizeof exu, "exu");
  vc_havoc(&d2r, sizeof d2r, "dec"); vc_havoc(&dbc, sizeof dbc, "dbc"); vc_havoc(&consume, sizeof consume, "consume");
  vc_havoc(&D.now_br_mask, sizeof D.now_br_mask, "now"); vc_havoc(D.br_mask_cp, sizeof D.br_mask_cp, "cp"); vc_havoc(D.tag_vec, sizeof D.tag_vec, "tags"); vc_havoc(&D.br_latch, sizeof D.br_latch, "latch");
  live = D.now_br_mask; vc_assume((live & 1) == 0 && !D.tag_vec[0]);
  for (uint32_t t = 1; t < MAX_BR_NUM; t++) {
    elder[t] = D.br_mask_cp[t];
    vc_assume(D.tag_vec[t] == !has(live, t) && ordered(live, t));
  }
  mis = D.br_latch.mispred; mbr = D.br_latch.br_id; clr = D.br_latch.clear_mask;
  vc_assume((clr & ~live) == 0 && IMPLIES(mis, mbr < MAX_BR_NUM && has(live, mbr) && has(clr, mbr)));
}
// branches still unresolved when this cycle ends, before new ones are added
static uint32_t remaining() { return rbc.flush ? 0 : (mis ? elder[mbr] : live) & ~clr; }

VC_DRIVER(idu_tags) {
  wire_up();
  vc_replace(vc_fn(&Idu::decode), (const void *)decode_contract);
  InstructionBufferEntry e[DECODE_WIDTH]; for (int i = 0; i < DECODE_WIDTH; i++) e[i] = issue.entries[i];
  D.comb_begin(); D.comb_decode(); D.comb_branch();
  uint32_t free = 0, run = live & ~clr, nb = 0; for (int t = 1; t < MAX_BR_NUM; t++) free += D.tag_vec[t];
  bool stop = false;
  for (int i = 0; i < DECODE_WIDTH; i++) {
    const auto &u = d2r.uop[i];
    bool br = !e[i].page_fault_inst && isbr(vc_uf("type", 1, e[i].inst, 0, 0, 0) & 31);
    if (e[i].valid && br && (nb >= free || nb >= (uint32_t)MAX_BR_PER_CYCLE)) stop = true;
    vc_assert(d2r.valid[i] == (e[i].valid && !stop), "an instruction is decoded unless a branch tag is lacking for it or an elder");
    if (!d2r.valid[i]) continue;
    vc_cover("decoded");
    vc_assert(u.br_mask == run, "it depends on exactly the unresolved older branches");
    vc_assert(u.dbg.pc == e[i].pc && u.ftq_idx == e[i].ftq_idx && u.ftq_offset == e[i].ftq_offset && u.ftq_is_last == e[i].ftq_is_last, "it keeps its fetch identity");
    vc_assert(u.page_fault_inst == e[i].page_fault_inst, "a fetch fault is kept");
    if (br) {
      vc_cover("a branch gets a tag");
      vc_assert(u.br_id != 0 && u.br_id < MAX_BR_NUM && !has(live, u.br_id) && !has(run, u.br_id), "a branch gets a tag no live branch holds");
      run |= 1u << u.br_id; nb++;
    } else vc_assert(u.br_id == 0, "other instructions hold no tag");
  }
  vc_assert(dbc.mispred == mis && dbc.clear_mask == clr && dbc.br_mask == (mis ? 1u << mbr : 0), "resolution is announced once, with the resolved tags");
  vc_assert(IMPLIES(mis, dbc.br_id == mbr && dbc.redirect_rob_idx == D.br_latch.redirect_rob_idx), "a misprediction names its branch");
  // end of cycle
  bool br[DECODE_WIDTH]; for (int i = 0; i < DECODE_WIDTH; i++) br[i] = isbr(d2r.uop[i].type);
  D.comb_fire(); D.seq();
  uint32_t now = remaining(), keep = now;
  for (int i = 0; i < DECODE_WIDTH; i++) {
    bool go = d2r.valid[i] && ren2dec.ready && !rbc.flush && !mis;
    vc_assert(consume.fire[i] == go, "an instruction leaves the queue exactly when it is taken");
    if (go && br[i]) { uint32_t t = d2r.uop[i].br_id; now |= 1u << t; elder[t] = now; }
  }
  vc_cover("a cycle");
  vc_assert(D.now_br_mask == now, "exactly the surviving and new branches are live");
  uint32_t t = vc_choose(MAX_BR_NUM);
  vc_assert(D.tag_vec[t] == (t != 0 && !has(now, t)), "a tag is free exactly when no live branch holds it");
  vc_assert(IMPLIES(has(now, t), D.br_mask_cp[t] == (has(keep, t) ? elder[t] & keep : elder[t])), "each live branch knows its live elders");
  vc_assert(t == 0 || ordered(now, t), "live branches stay in program order");
  vc_assert(D.br_latch.mispred == (rbc.flush ? false : (bool)exu.mispred) && D.br_latch.clear_mask == (rbc.flush ? 0 : exu.clear_mask), "a resolution is taken over unless flushed");
  if (!rbc.flush) vc_assert(D.br_latch.br_id == exu.br_id && D.br_latch.redirect_pc == exu.redirect_pc && D.br_latch.redirect_rob_idx == exu.redirect_rob_idx && D.br_latch.ftq_idx == exu.ftq_idx, "with its branch, target and position");
}
VC_DRIVER(idu_init) {
  vc_havoc(&D, sizeof D, "idu");
  D.init();
  vc_cover("reset");
  vc_assert(D.now_br_mask == 0 && !D.br_latch.mispred && D.br_latch.clear_mask == 0, "no branch is live after reset");
  for (int t = 0; t < MAX_BR_NUM; t++) vc_assert(D.tag_vec[t] == (t != 0), "all tags but 0 are free after reset");
}
