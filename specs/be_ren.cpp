// Contract of register renaming (back-end/Ren.cpp).
//
// Abstract state (ghost): the free ring from free_head_commit holds, in program
// order, the destination registers of the in-flight instructions, followed by
// the free registers.  areg[] records which architectural register each
// in-flight position renames.
//   pool   every physical register is either the committed home of one
//          architectural register or in the ring, exactly once
//   names  spec_RAT[a] is the newest in-flight register for a, else arch_RAT[a]
//   ckpt   the same for each live branch checkpoint, up to the branch
#include "vc.h"
#include "Ren.h"
#include "SimCpu.h"
#include "config.h"
#include "util.h"
long long sim_time;
static const uint32_t NA = ARF_NUM + 1, RING = PRF_NUM - NA;
static Raw<Ren> g_r;
#define R (g_r.v)
static Raw<SimContext> g_ctx;
static DecRenIO dec2ren; static DecBroadcastIO dbc; static DisRenIO dis2ren; static RobBroadcastIO rbc; static RobCommitIO com; static RenDecIO ren2dec; static RenDisIO ren2dis;
static InstEntry log_c[COMMIT_WIDTH], log_d[COMMIT_WIDTH]; static int n_c, n_d;
void SimContext::run_commit_inst(InstEntry *e, int slot) { if (n_c < COMMIT_WIDTH) log_c[n_c] = *e; vc_assert(slot < COMMIT_WIDTH && com.commit_entry[slot].valid, "commit slot"); n_c++; }
void SimContext::run_difftest_inst(InstEntry *e) { if (n_d < COMMIT_WIDTH) log_d[n_d] = *e; n_d++; }

static uint8_t areg[PRF_NUM];              // ghost
static uint32_t ch, pend;                  // committed head, in-flight count
static uint32_t wrap(uint32_t x) { return x % PRF_NUM; }
static void wire_up() {
  R.ctx = &g_ctx.v; R.in = {&dec2ren, &dbc, &dis2ren, &rbc, &com}; R.out = {&ren2dec, &ren2dis};
  memset(&g_ctx.v.perf, 0, sizeof g_ctx.v.perf); g_ctx.v.is_ckpt = false; g_ctx.v.cpu = nullptr;
  vc_havoc(&dec2ren, sizeof dec2ren, "dec2ren"); vc_havoc(&dbc, sizeof dbc, "dbc"); vc_havoc(&dis2ren, sizeof dis2ren, "dis2ren"); vc_havoc(&rbc, sizeof rbc, "rbc"); vc_havoc(&com, sizeof com, "com");
  vc_havoc(&ren2dec, sizeof ren2dec, "ren2dec"); vc_havoc(&ren2dis, sizeof ren2dis, "ren2dis");
  vc_havoc(R.inst_r, sizeof R.inst_r, "inst_r"); vc_havoc(R.inst_valid, sizeof R.inst_valid, "inst_valid");
  vc_havoc(R.arch_RAT, sizeof R.arch_RAT, "arch_RAT"); vc_havoc(R.spec_RAT, sizeof R.spec_RAT, "spec_RAT"); vc_havoc(R.RAT_checkpoint, sizeof R.RAT_checkpoint, "ckpt"); vc_havoc(R.free_list, sizeof R.free_list, "free_list");
  vc_havoc(R.alloc_checkpoint_head, sizeof R.alloc_checkpoint_head, "ckpt_head");
  vc_havoc(areg, sizeof areg, "areg");
  n_c = n_d = 0;
  for (int i = 0; i < DECODE_WIDTH; i++) {
    auto &u = R.inst_r[i];
    vc_assume(u.dest_areg < NA && u.src1_areg < NA && u.src2_areg < NA && IMPLIES(u.dest_en, u.dest_areg != 0)); // P01
    vc_assume(u.br_id < MAX_BR_NUM);
  }
  for (int i = 0; i < COMMIT_WIDTH; i++) vc_assume(com.commit_entry[i].uop.dest_areg < NA);
  vc_assume(dbc.br_id < MAX_BR_NUM);
}
static void pointers(uint32_t head) {
  ch = head; pend = vc_u32("pending"); vc_assume(pend <= RING);
  R.free_head_commit = ch; R.free_head = wrap(ch + pend); R.free_tail = wrap(ch + RING);
}
static bool isbr(uint32_t t) { return t == BR || t == JALR; }
static bool retires(int i) { const auto &c = com.commit_entry[i].uop; return com.commit_entry[i].valid && c.dest_en && !(c.page_fault_inst || c.page_fault_load || c.page_fault_store || c.illegal_inst || c.type == ECALL) && !rbc.interrupt; }
// what the reorder buffer may commit: the oldest in-flight destinations, in order
static uint32_t commits(reg<PRF_IDX_WIDTH> *arch) {
  uint32_t n = 0, which = vc_choose(1 << COMMIT_WIDTH); // the slots that retire a destination
  for (int i = 0; i < COMMIT_WIDTH; i++) {
    const auto &c = com.commit_entry[i].uop;
    vc_assume(!(com.commit_entry[i].valid && dbc.mispred));               // P04: no commit on a misprediction
    vc_assume(retires(i) == ((which >> i) & 1));
    if (!((which >> i) & 1)) continue;
    vc_assume(n < pend && c.dest_preg == R.free_list[wrap(ch + n)] && c.dest_areg == areg[wrap(ch + n)] && c.dest_areg != 0 && c.old_dest_preg == arch[c.dest_areg]);
    arch[c.dest_areg] = c.dest_preg; n++;
  }
  return n;
}
static void cycle() { R.comb_begin(); R.comb_alloc(); R.comb_rename(); R.comb_fire(); R.comb_pipeline(); R.seq(); }
static bool fired[DECODE_WIDTH];
static uint32_t allocated() { uint32_t n = 0; for (int i = 0; i < DECODE_WIDTH; i++) { fired[i] = ren2dis.valid[i] && dis2ren.ready; if (fired[i] && ren2dis.uop[i].dest_en) n++; } return n; }

// names handed to dispatch
VC_DRIVER(ren_names) {
  wire_up(); pointers(vc_choose(PRF_NUM));
  DecRenIO::DecRenInst in[DECODE_WIDTH]; bool inv[DECODE_WIDTH];
  for (int i = 0; i < DECODE_WIDTH; i++) { in[i] = R.inst_r[i]; inv[i] = R.inst_valid[i]; }
  reg<PRF_IDX_WIDTH> rat[NA]; memcpy(rat, R.spec_RAT, sizeof rat);
  R.comb_begin(); R.comb_alloc(); R.comb_rename(); R.comb_fire();
  uint32_t c = 0; bool stop = false;
  for (int i = 0; i < DECODE_WIDTH; i++) {
    const auto &u = in[i]; const auto &o = ren2dis.uop[i];
    bool ok = inv[i] && !stop && (!u.dest_en || pend + c < RING);
    if (inv[i] && !ok) stop = true;
    vc_assert(ren2dis.valid[i] == ok, "an instruction proceeds exactly when it and its elders have a register");
    if (!ok) continue;
    vc_cover("an instruction is renamed");
    vc_assert(o.src1_preg == rat[u.src1_areg] && o.src2_preg == rat[u.src2_areg], "sources name the newest earlier writer");
    vc_assert(IMPLIES(u.dest_en, o.old_dest_preg == rat[u.dest_areg]), "the previous mapping is remembered");
    vc_assert(IMPLIES(u.dest_en, o.dest_preg == R.free_list[wrap(ch + pend + c)]), "the destination is a fresh register");
    vc_assert(IMPLIES(!u.dest_en, o.dest_preg == 0), "no register without a destination");
    vc_assert(o.type == u.type && o.dest_en == u.dest_en && o.src1_en == u.src1_en && o.src2_en == u.src2_en && o.dest_areg == u.dest_areg && o.src1_areg == u.src1_areg && o.src2_areg == u.src2_areg && o.imm == u.imm && o.func3 == u.func3 && o.func7 == u.func7 && o.csr_idx == u.csr_idx && o.src1_is_pc == u.src1_is_pc && o.src2_is_imm == u.src2_is_imm && o.is_atomic == u.is_atomic, "the instruction is unchanged");
    vc_assert(o.br_id == u.br_id && o.br_mask == u.br_mask && o.ftq_idx == u.ftq_idx && o.ftq_offset == u.ftq_offset && o.ftq_is_last == u.ftq_is_last && o.diag_val == u.diag_val && o.page_fault_inst == u.page_fault_inst && o.illegal_inst == u.illegal_inst && o.is_ret == u.is_ret && o.dbg.pc == u.dbg.pc, "it keeps its identity and faults");
    if (u.dest_en) { rat[u.dest_areg] = o.dest_preg; c++; }
  }
}
// pipeline register: nothing lost, nothing repeated, nothing survives a flush
VC_DRIVER(ren_flow) {
  wire_up(); pointers(0);
  DecRenIO::DecRenInst in[DECODE_WIDTH]; bool inv[DECODE_WIDTH];
  for (int i = 0; i < DECODE_WIDTH; i++) { in[i] = R.inst_r[i]; inv[i] = R.inst_valid[i]; }
  cycle(); allocated();
  vc_cover("a cycle");
  bool kill = rbc.flush || dbc.mispred, free = true;
  for (int i = 0; i < DECODE_WIDTH; i++) free &= fired[i] || !inv[i];
  vc_assert(ren2dec.ready == (free && !kill), "new instructions are taken exactly when all earlier ones have left");
  int k = vc_choose(DECODE_WIDTH);
  const auto &n = R.inst_r[k];
  const DecRenIO::DecRenInst &s = ren2dec.ready ? dec2ren.uop[k] : in[k];
  vc_assert(R.inst_valid[k] == (kill ? false : ren2dec.ready ? (bool)dec2ren.valid[k] : inv[k] && !fired[k]), "no instruction is lost, repeated or kept across a flush");
  if (R.inst_valid[k]) {
    vc_assert(n.br_mask == (s.br_mask & ~dbc.clear_mask), "resolved branches are forgotten");
    vc_assert(n.type == s.type && n.dest_en == s.dest_en && n.dest_areg == s.dest_areg && n.src1_en == s.src1_en && n.src2_en == s.src2_en && n.src1_areg == s.src1_areg && n.src2_areg == s.src2_areg && n.imm == s.imm && n.func3 == s.func3 && n.func7 == s.func7 && n.csr_idx == s.csr_idx && n.src1_is_pc == s.src1_is_pc && n.src2_is_imm == s.src2_is_imm && n.is_atomic == s.is_atomic && n.br_id == s.br_id && n.ftq_idx == s.ftq_idx && n.ftq_offset == s.ftq_offset && n.ftq_is_last == s.ftq_is_last && n.diag_val == s.diag_val && n.page_fault_inst == s.page_fault_inst && n.illegal_inst == s.illegal_inst && n.is_ret == s.is_ret, "instructions are carried unchanged");
  }
  // every commit is handed on once, in order
  int c = 0;
  for (int i = 0; i < COMMIT_WIDTH; i++) {
    if (!com.commit_entry[i].valid) continue;
    const auto &u = com.commit_entry[i].uop;
    vc_assert(c < n_c && c < n_d, "every commit is reported");
    vc_assert(log_c[c].valid && log_d[c].valid && log_d[c].uop.dest_areg == u.dest_areg && log_d[c].uop.dest_preg == u.dest_preg && log_d[c].uop.dest_en == u.dest_en && log_d[c].uop.type == u.type && log_d[c].uop.dbg.pc == u.dbg.pc && log_d[c].uop.dbg.instruction == u.dbg.instruction && log_c[c].uop.ftq_idx == u.ftq_idx && log_c[c].uop.stq_idx == u.stq_idx && log_c[c].uop.rob_idx == u.rob_idx, "with its own data, in order");
    c++;
  }
  vc_assert(n_c == c && n_d == c, "and nothing else is");
}
// effect of a cycle on mappings, ring and checkpoints
VC_DRIVER(ren_update) {
  uint32_t c0 = vc_u32("head"); vc_assume(c0 < PRF_NUM);
  wire_up(); pointers(c0);
  reg<PRF_IDX_WIDTH> arch[NA]; memcpy(arch, R.arch_RAT, sizeof arch);
  uint32_t a = vc_u32("probe"); vc_assume(a < NA);
  uint32_t spec = R.spec_RAT[a], ck = R.RAT_checkpoint[dbc.br_id][a], ckh = R.alloc_checkpoint_head[dbc.br_id];
  uint32_t n = commits(arch);
  DecRenIO::DecRenInst in[DECODE_WIDTH]; for (int i = 0; i < DECODE_WIDTH; i++) in[i] = R.inst_r[i];
  cycle();
  uint32_t m = allocated();
  vc_cover("a cycle");
  for (int i = 0; i < DECODE_WIDTH; i++) if (fired[i] && in[i].dest_en && in[i].dest_areg == a) spec = ren2dis.uop[i].dest_preg;
  bool br = dbc.mispred && !rbc.flush;
  vc_assert(R.free_head_commit == wrap(ch + n), "each commit retires one in-flight register");
  vc_assert(R.free_tail == wrap(ch + n + RING), "each commit returns one register");
  vc_assert(rbc.flush ? R.free_head == wrap(ch + n) : br ? R.free_head == ckh : R.free_head == wrap(ch + pend + m), "in-flight registers after the cycle");
  vc_assert(R.arch_RAT[a] == arch[a], "committed mapping");
  vc_assert(R.spec_RAT[a] == (rbc.flush ? (uint32_t)arch[a] : br ? ck : spec), "speculative mapping: new names, or those of the flush or branch");
}
VC_DRIVER(ren_ckpt) {
  uint32_t tag = vc_choose(MAX_BR_NUM), c0 = vc_u32("head"); vc_assume(c0 < PRF_NUM);
  wire_up(); pointers(c0);
  uint32_t a = vc_u32("probe"), b = vc_choose(DECODE_WIDTH); vc_assume(a < NA && !rbc.flush && !dbc.mispred);
  uint32_t spec = R.spec_RAT[a], c = 0;
  DecRenIO::DecRenInst in[DECODE_WIDTH]; for (int i = 0; i < DECODE_WIDTH; i++) in[i] = R.inst_r[i];
  cycle(); allocated();
  vc_assume(fired[b] && isbr(in[b].type) && in[b].br_id == tag);
  for (int i = 0; i < DECODE_WIDTH; i++) vc_assume(i == (int)b || !(fired[i] && isbr(in[i].type) && in[i].br_id == in[b].br_id)); // distinct tags (P09)
  vc_cover("a branch takes its checkpoint");
  for (int i = 0; i <= (int)b; i++) if (fired[i] && in[i].dest_en) { c++; if (in[i].dest_areg == a) spec = ren2dis.uop[i].dest_preg; }
  vc_assert(R.alloc_checkpoint_head[tag] == wrap(ch + pend + c), "the checkpoint marks the branch");
  vc_assert(R.RAT_checkpoint[tag][a] == spec, "the checkpoint holds the names as of the branch");
}
// Lemma, over the abstract state only (ring positions relative to the committed
// head): the updates above preserve "names" and "ckpt".
static uint8_t l_areg[RING + 2], l_ring[RING + 2];
static uint32_t newest(uint32_t from, uint32_t n, uint32_t base, uint32_t a) {
  uint32_t v = base;
  for (uint32_t k = from; k < RING + 2; k++) if (k < n && l_areg[k] == a) v = l_ring[k];
  return v;
}
VC_DRIVER(ren_lemma) {
  vc_havoc(l_areg, sizeof l_areg, "l_areg"); vc_havoc(l_ring, sizeof l_ring, "l_ring");
  uint32_t a = vc_u32("a"), arch = vc_u8("arch"), spec = vc_u8("spec"), ck = vc_u8("ck"), p = vc_u32("p"), t = vc_u32("t");
  uint32_t n = vc_choose(COMMIT_WIDTH + 1), m = vc_choose(DECODE_WIDTH + 1), sit = vc_choose(4), arch1 = arch;
  vc_assume(p <= RING && p + m <= RING && n <= p && t <= p);
  vc_assume(spec == newest(0, p, arch, a) && ck == newest(0, t, arch, a));       // names, ckpt before
  for (uint32_t k = 0; k < n; k++) if (l_areg[k] == a) arch1 = l_ring[k];        // commits retire the oldest
  vc_cover("a step");
  if (sit == 0) { // allocation of m new names at positions p, p+1
    uint32_t s1 = spec;
    for (uint32_t k = 0; k < m; k++) for (uint32_t q = 0; q < RING + 2; q++) if (q == p + k && l_areg[q] == a) s1 = l_ring[q];
    vc_assert(s1 == newest(n, p + m, arch1, a), "newest writer after allocation and commit");
  }
  if (sit == 1) vc_assert(arch1 == newest(n, n, arch1, a), "after a flush only committed names remain");
  if (sit == 2) { vc_assume(n == 0); vc_assert(ck == newest(0, t, arch, a), "after a misprediction the names as of the branch"); }
  if (sit == 3) { vc_assume(n <= t); vc_assert(ck == newest(n, t, arch1, a), "a live checkpoint stays right while older instructions commit"); }
}
// a checkpoint that is not written keeps its contents
VC_DRIVER(ren_ckpt_frame) {
  wire_up(); pointers(0);
  uint32_t a = vc_u32("probe"), t = vc_choose(MAX_BR_NUM); vc_assume(a < NA);
  uint32_t v = R.RAT_checkpoint[t][a], h = R.alloc_checkpoint_head[t];
  DecRenIO::DecRenInst in[DECODE_WIDTH]; for (int i = 0; i < DECODE_WIDTH; i++) in[i] = R.inst_r[i];
  cycle(); allocated();
  for (int i = 0; i < DECODE_WIDTH; i++) vc_assume(!(fired[i] && isbr(in[i].type) && in[i].br_id == t));
  vc_cover("another branch's checkpoint");
  vc_assert(R.RAT_checkpoint[t][a] == v && R.alloc_checkpoint_head[t] == h, "other checkpoints are untouched");
}
// pool: location l < NA is arch_RAT[l], else ring position l - NA
static uint32_t content(uint32_t base, uint32_t l) { return l < NA ? (uint32_t)R.arch_RAT[l] : (uint32_t)R.free_list[wrap(base + l - NA)]; }
VC_DRIVER(ren_pool) {
  wire_up(); pointers(vc_choose(PRF_NUM));
  uint32_t p = vc_u32("preg"), loc = vc_u32("home"); vc_assume(p < PRF_NUM && loc < PRF_NUM);
  for (uint32_t l = 0; l < PRF_NUM; l++) vc_assume((content(ch, l) == p) == (l == loc));
  uint32_t q = loc, n = 0;
  for (int i = 0; i < COMMIT_WIDTH; i++) { // how a commit moves a register, with ring positions relative to ch
    if (!retires(i)) continue;
    uint32_t d = com.commit_entry[i].uop.dest_areg;
    q = q == d ? NA + RING + n : q == NA + n ? d : q; n++;
  }
  reg<PRF_IDX_WIDTH> arch[NA]; memcpy(arch, R.arch_RAT, sizeof arch);
  uint32_t n2 = commits(arch); vc_assume(n2 == n);
  cycle();
  vc_cover("a cycle");
  if (q >= NA) q -= n;
  uint32_t l = vc_u32("elsewhere"); vc_assume(l < PRF_NUM);
  uint32_t nb = wrap(ch + n);
  vc_assert(q < PRF_NUM && content(nb, q) == p, "no physical register is lost");
  vc_assert(l == q || content(nb, l) != p, "no physical register is in two places");
  vc_assert(R.free_tail == wrap(nb + RING) && R.free_head_commit == nb, "the ring holds all others");
  vc_assert(IMPLIES(p == 0 && loc == 0, q == 0), "x0 keeps its register");
}
VC_DRIVER(ren_init) {
  wire_up(); R.free_head = 99;
  R.init();
  uint32_t p = vc_u32("preg"), l = vc_u32("elsewhere"); vc_assume(p < PRF_NUM && l < PRF_NUM);
  vc_cover("reset");
  vc_assert(R.free_head_commit < PRF_NUM && R.free_head == R.free_head_commit && R.free_tail == wrap(R.free_head + RING), "nothing in flight after reset");
  uint32_t n = 0; for (uint32_t k = 0; k < PRF_NUM; k++) n += content(R.free_head, k) == p;
  vc_assert(n == 1 && R.arch_RAT[0] == 0, "every physical register is in exactly one place after reset");
  uint32_t a = vc_u32("a"); vc_assume(a < NA);
  vc_assert(R.spec_RAT[a] == R.arch_RAT[a], "names agree after reset");
  for (int i = 0; i < DECODE_WIDTH; i++) vc_assert(!R.inst_valid[i], "the stage is empty after reset");
}
