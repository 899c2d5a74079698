// Contracts of the load/store unit (RealLsu.cpp), function by function, over an invariant of
// its queues: every load and store in flight is in exactly the queue its state names.
#include "vc.h"
#include "RealLsu.h"
#include "SimCpu.h"
#include "util.h"
#include "config.h"
#include "DcacheConfig.h"
long long sim_time;
static Raw<RealLsu> g_lsu, g_old;
#define L (g_lsu.v)
#define N (g_lsu.v.nxt)
#define O (g_old.v.nxt)
static RobCommitIO rob_commit; static RobBroadcastIO rbc; static DecBroadcastIO dbc; static CsrStatusIO csrs; static DisLsuIO dis2lsu; static ExeLsuIO exe2lsu; static PeripheralRespIO presp; static Raw<DcacheLsuIO> dc2lsu; static Raw<MMULsuIO> mmu2lsu;
static LsuDisIO lsu2dis; static LsuRobIO lsu2rob; static LsuExeIO lsu2exe; static PeripheralReqIO preq; static Raw<LsuDcacheIO> lsu2dc; static Raw<LsuMMUIO> lsu2mmu;
typedef LoadState LS; typedef StoreState SS;
static const unsigned NL = LDQ_SIZE, NS = STQ_SIZE;
static void connect() {
  L.ctx = nullptr;
  L.in.rob_commit = &rob_commit; L.in.rob_bcast = &rbc; L.in.dec_bcast = &dbc; L.in.csr_status = &csrs; L.in.dis2lsu = &dis2lsu; L.in.exe2lsu = &exe2lsu; L.in.peripheral_resp = &presp; L.in.dcache2lsu = &dc2lsu.v; L.in.mmu2lsu = &mmu2lsu.v;
  L.out.lsu2dis = &lsu2dis; L.out.lsu2rob = &lsu2rob; L.out.lsu2exe = &lsu2exe; L.out.peripheral_req = &preq; L.out.lsu2dcache = &lsu2dc.v; L.out.lsu2mmu = &lsu2mmu.v;
}
// Types and ring bounds of a state.
static void bounds(LsuState &s) {
  for (unsigned i = 0; i < NL; i++) {
    s.wait_mmu_ldq[i].ldq_idx &= NL - 1; s.finish[i].ldq_idx &= NL - 1; s.stlf_queue[i].ldq_idx &= NL - 1; s.wait_dcache_ldq[i].ldq_idx &= NL - 1;
    s.wait_dcache_ldq[i].req_gen &= (1u << (31 - LDQ_IDX_WIDTH)) - 1; s.wait_dcache_ldq[i].replay_wait_cycles &= 7;
    s.ldq[i].stq_snapshot.idx &= NS - 1; s.ldq[i].func3 &= 7; s.ldq[i].rob_idx &= ROB_NUM - 1; s.ldq[i].dest_preg &= PRF_NUM - 1;
    vc_assume((uint8_t)s.ldq[i].load_state <= (uint8_t)LS::Done);
  }
  for (unsigned i = 0; i < NS; i++) { s.wait_mmu_stq[i].stq_idx &= NS - 1; s.mmu_done_stq[i].stq_idx &= NS - 1; s.stq[i].func3 &= 7; s.stq[i].rob_idx &= ROB_NUM - 1; s.stq[i].dest_preg &= PRF_NUM - 1; vc_assume((uint8_t)s.stq[i].store_state <= (uint8_t)SS::Done); }
  s.stq_head &= NS - 1; s.wait_mmu_stq_head &= NS - 1; s.mmu_done_stq_head &= NS - 1; s.wait_mmu_ldq_head &= NL - 1; s.finish_head &= NL - 1; s.stlf_queue_head &= NL - 1; s.wait_dcache_ldq_head &= NL - 1; s.stq_commit &= NS - 1;
  s.stq_count &= 31; s.stq_commit_count &= 31; s.wait_mmu_stq_count &= 31; s.mmu_done_stq_count &= 31; s.wait_mmu_ldq_count &= 31; s.finish_count &= 31; s.stlf_queue_count &= 31; s.wait_dcache_ldq_count &= 31;
  vc_assume(s.stq_count <= NS && s.wait_mmu_stq_count <= NS && s.mmu_done_stq_count <= NS && s.wait_mmu_ldq_count <= NL && s.finish_count <= NL && s.stlf_queue_count <= NL && s.wait_dcache_ldq_count <= NL);
  vc_assume(s.stq_commit_count <= s.stq_count && s.stq_commit == (s.stq_head + s.stq_commit_count) % NS);
  s.uncached_unit.idx &= NL - 1; s.uncached_unit.func3 &= 7;
  s.req_gen &= (1u << (31 - LDQ_IDX_WIDTH)) - 1;
}
static bool ring_ok(const LsuState &s) {
  return s.stq_head < NS && s.stq_count <= NS && s.stq_commit_count <= s.stq_count && s.stq_commit == (s.stq_head + s.stq_commit_count) % NS && s.wait_mmu_stq_count <= NS && s.mmu_done_stq_count <= NS && s.wait_mmu_ldq_count <= NL && s.finish_count <= NL && s.stlf_queue_count <= NL && s.wait_dcache_ldq_count <= NL &&
         s.wait_mmu_stq_head < NS && s.mmu_done_stq_head < NS && s.wait_mmu_ldq_head < NL && s.finish_head < NL && s.stlf_queue_head < NL && s.wait_dcache_ldq_head < NL;
}
static void setup() {
  vc_havoc(&L, sizeof L, "lsu"); connect();
  vc_havoc(&rob_commit, sizeof rob_commit, "rob_commit"); vc_havoc(&rbc, sizeof rbc, "rob_bcast"); vc_havoc(&dbc, sizeof dbc, "dec_bcast"); vc_havoc(&csrs, sizeof csrs, "csr_status"); vc_havoc(&dis2lsu, sizeof dis2lsu, "dis2lsu"); vc_havoc(&exe2lsu, sizeof exe2lsu, "exe2lsu");
  vc_havoc(&presp, sizeof presp, "periph_resp"); vc_havoc(&dc2lsu, sizeof dc2lsu, "dcache2lsu"); vc_havoc(&mmu2lsu, sizeof mmu2lsu, "mmu2lsu");
  vc_havoc(&lsu2dis, sizeof lsu2dis, "lsu2dis"); vc_havoc(&lsu2rob, sizeof lsu2rob, "lsu2rob"); vc_havoc(&lsu2exe, sizeof lsu2exe, "lsu2exe"); vc_havoc(&preq, sizeof preq, "preq"); vc_havoc(&lsu2dc, sizeof lsu2dc, "lsu2dcache"); vc_havoc(&lsu2mmu, sizeof lsu2mmu, "lsu2mmu");
}
static void remember() { memcpy((void *)&g_old, (const void *)&g_lsu, sizeof g_lsu); }

// ---- membership: how often a load or store is waiting in a ring ----
#define RING_LEN(s, q, n, p, f) ({ int c_ = 0; for (unsigned i_ = 0; i_ < n; i_++) c_ += (s.q[i_].valid && s.q[i_].f == (p)) ? 1 : 0; c_; })
static int in_mmu(const LsuState &s, unsigned p) { return RING_LEN(s, wait_mmu_ldq, NL, p, ldq_idx); }
static int in_stlf(const LsuState &s, unsigned p) { return RING_LEN(s, stlf_queue, NL, p, ldq_idx); }
static int in_dc(const LsuState &s, unsigned p) { return RING_LEN(s, wait_dcache_ldq, NL, p, ldq_idx); }
static int in_fin(const LsuState &s, unsigned p) { return RING_LEN(s, finish, NL, p, ldq_idx); }
static int in_smmu(const LsuState &s, unsigned p) { return RING_LEN(s, wait_mmu_stq, NS, p, stq_idx); }
static int in_sdone(const LsuState &s, unsigned p) { return RING_LEN(s, mmu_done_stq, NS, p, stq_idx); }
static bool in_unit(const LsuState &s, unsigned p, bool load) { return s.uncached_unit.valid && s.uncached_unit.is_load == load && s.uncached_unit.idx == p; }
static bool inside(unsigned i, unsigned head, unsigned count, unsigned n) { return ((i + n - head) % n) < count; }
// valid slots lie inside the ring
static bool rings_tight(const LsuState &s) {
  bool ok = true;
  for (unsigned i = 0; i < NL; i++) ok = ok && IMPLIES(s.wait_mmu_ldq[i].valid, inside(i, s.wait_mmu_ldq_head, s.wait_mmu_ldq_count, NL)) && IMPLIES(s.stlf_queue[i].valid, inside(i, s.stlf_queue_head, s.stlf_queue_count, NL)) && IMPLIES(s.wait_dcache_ldq[i].valid, inside(i, s.wait_dcache_ldq_head, s.wait_dcache_ldq_count, NL)) && IMPLIES(s.finish[i].valid, inside(i, s.finish_head, s.finish_count, NL));
  return ok;
}
static bool srings_tight(const LsuState &s) {
  bool ok = true;
  for (unsigned i = 0; i < NS; i++) ok = ok && IMPLIES(s.wait_mmu_stq[i].valid, inside(i, s.wait_mmu_stq_head, s.wait_mmu_stq_count, NS)) && IMPLIES(s.mmu_done_stq[i].valid, inside(i, s.mmu_done_stq_head, s.mmu_done_stq_count, NS));
  return ok;
}
static bool same_load(const LdqEntry &a, const LdqEntry &b) { // all but state, result and statistics
  return a.v_addr_valid == b.v_addr_valid && a.v_addr == b.v_addr && a.p_addr_valid == b.p_addr_valid && a.p_addr == b.p_addr && a.func3 == b.func3 && a.dest_preg == b.dest_preg && a.rob_idx == b.rob_idx && a.rob_flag == b.rob_flag && a.br_mask == b.br_mask && a.is_mmio == b.is_mmio && a.page_fault == b.page_fault && a.is_lrsc == b.is_lrsc &&
         a.stq_snapshot.idx == b.stq_snapshot.idx && a.stq_snapshot.flag == b.stq_snapshot.flag && IMPLIES(a.page_fault, a.diag_val == b.diag_val);
}
static bool same_store(const StqEntry &a, const StqEntry &b) { // all but state and statistics
  return a.data_valid == b.data_valid && a.data == b.data && a.func3 == b.func3 && a.vaddr_valid == b.vaddr_valid && a.vaddr == b.vaddr && a.paddr_valid == b.paddr_valid && a.paddr == b.paddr && a.page_fault == b.page_fault && a.suppress_write == b.suppress_write && a.is_mmio == b.is_mmio && a.is_lrsc == b.is_lrsc && a.sc_pass == b.sc_pass &&
         a.dest_preg == b.dest_preg && a.br_mask == b.br_mask && a.rob_idx == b.rob_idx && a.rob_flag == b.rob_flag && a.stq_flag == b.stq_flag;
}
// a store-conditional that has reported its outcome either passed or is suppressed
static bool decided(const StqEntry &s) { return s.store_state == SS::WaitCommit || s.store_state == SS::Committed || s.store_state == SS::Replaying || s.store_state == SS::WaitDcacheResp || s.store_state == SS::WaitMmioResp || s.store_state == SS::Done; }
static bool sc_inv(const StqEntry &s) { return IMPLIES(s.is_lrsc && s.store_state != SS::Allocated && !s.page_fault, decided(s) ? s.suppress_write || s.sc_pass : !s.suppress_write && !s.sc_pass) && IMPLIES(s.page_fault, !s.paddr_valid); }
static unsigned width(unsigned f3) { return (f3 & 3) == 0 ? 1 : (f3 & 3) == 1 ? 2 : 4; }
static uint32_t extend(uint32_t v, unsigned f3) { switch (f3 & 7) { case 0: return (uint32_t)(int32_t)(int8_t)v; case 1: return (uint32_t)(int32_t)(int16_t)v; case 4: return v & 0xff; case 5: return v & 0xffff; default: return v; } }
static bool device(uint32_t a) { // the device address map
  return (a & UART_ADDR_MASK) == UART_ADDR_BASE || (a & PLIC_ADDR_MASK) == PLIC_ADDR_BASE || (a >= XPS_INTC_ADDR_BASE && a < XPS_INTC_ADDR_BASE + XPS_INTC_MMIO_SIZE) || (a >= DMA_ADDR_BASE && a < DMA_ADDR_BASE + DMA_MMIO_SIZE) ||
         a == OPENSBI_TIMER_LOW_ADDR || a == OPENSBI_TIMER_HIGH_ADDR || a == OPENSBI_TIMERCMP_LOW_ADDR || a == OPENSBI_TIMERCMP_HIGH_ADDR;
}

// ---- forwarding: a load sees the youngest older store, or memory when there is none ----
static void stlf(unsigned loads, unsigned stores, bool all = true) { // at most this many loads in the queue, stores in flight
  setup(); bounds(N); vc_loop_queries(0);
  unsigned p = vc_u8("probe") & (NL - 1);
  if (loads < NL) N.stlf_queue_count &= loads;
  if (stores < NS) { N.stq_count &= stores; N.stq_commit_count &= stores; }
  else { // the position of the load in the store queue, case by case
    static const unsigned char some[] = {0, 1, 2, 3, 5, 8, 12, 16}; unsigned before = all ? vc_choose(NS + 1) : some[vc_choose(8)], head = (5 * before + 3) % NS, pos = head + before; p = (before + 7) % NL; N.stq_head = head; N.stlf_queue_head = before % NL;
    N.stq_count = before + (N.stq_count & 31) ; vc_assume(N.stq_count <= NS);
    for (unsigned i = 0; i < NL; i++) { N.ldq[i].stq_snapshot.idx = pos % NS; N.ldq[i].stq_snapshot.flag = pos >= NS ? !N.stq_head_flag : N.stq_head_flag; }
  }
  if (loads == 1) { N.stlf_queue[N.stlf_queue_head] = {true, (uint8_t)p}; N.ldq[p].p_addr_valid = true; }
  for (unsigned i = 0; i < NL; i++) if (loads > 1 || i == p) { auto &e = N.ldq[i]; vc_assume(IMPLIES(e.p_addr_valid, (e.p_addr & (width(e.func3) - 1)) == 0 && e.p_addr < 0xfffffff0u)); }
  for (unsigned i = 0; i < NS; i++) { auto &e = N.stq[i]; vc_assume(IMPLIES(e.paddr_valid, (e.paddr & (width(e.func3) - 1)) == 0 && e.paddr < 0xfffffff0u)); vc_assume(sc_inv(e)); }
  // a load names a position in the live part of the store queue
  auto tag = [&](unsigned i, bool f) { return (f ? NS : 0) + i; };
  const LdqEntry &e0 = O.ldq[p];
  for (unsigned i = 0; i < NL; i++) if (loads > 1 || i == p) vc_assume(IMPLIES(N.ldq[i].load_state == LS::CheckStlf || N.ldq[i].load_state == LS::CheckStlfRetry, (tag(N.ldq[i].stq_snapshot.idx, N.ldq[i].stq_snapshot.flag) + 2 * NS - tag(N.stq_head, N.stq_head_flag)) % (2 * NS) <= N.stq_count));
  remember();
  L.comb_stlf();
  const LdqEntry &e1 = N.ldq[p];
  unsigned older = (tag(e0.stq_snapshot.idx, e0.stq_snapshot.flag) + 2 * NS - tag(O.stq_head, O.stq_head_flag)) % (2 * NS);
  vc_assert(same_load(e1, e0), "the check changes nothing but state and result of a load");
  bool checked = e0.load_state == LS::CheckStlf || e0.load_state == LS::CheckStlfRetry;
  bool to_mem = e1.load_state == LS::WaitDcache || e1.load_state == LS::ReadyToIssue, fwd = e1.load_state == LS::WaitFinish || e1.load_state == LS::ReadyToWb;
  vc_assert(IMPLIES(!checked, e1.load_state == e0.load_state || (e0.load_state == LS::WaitDcache && to_mem) || (e0.load_state == LS::WaitFinish && fwd)), "loads not being checked keep their place or move on");
  vc_assert(IMPLIES(!checked, e1.result == e0.result), "loads not being checked keep their result");
  vc_assert(IMPLIES(checked, to_mem || fwd || e1.load_state == LS::WaitMmioResp || e1.load_state == LS::CheckStlf || e1.load_state == LS::CheckStlfRetry), "a checked load is forwarded, sent to memory, to a device or checked again");
  vc_assert(IMPLIES(checked && e0.is_mmio, !to_mem && !fwd), "a device load is never served by the cache or by a store");
  vc_assert(IMPLIES(checked && !e0.is_mmio, e1.load_state != LS::WaitMmioResp), "a memory load does not go to a device");
  vc_assert(IMPLIES(checked && e1.load_state == LS::WaitMmioResp, older == 0 && !O.uncached_unit.valid && (rbc.head_incomplete_valid ? rbc.head_incomplete_rob_idx == e0.rob_idx : rbc.head_valid && rbc.head_rob_idx == e0.rob_idx)), "a device load goes out only as the oldest unfinished instruction, after all older stores");
  vc_assert(IMPLIES(checked && e1.load_state == LS::WaitMmioResp, N.uncached_unit.addr == e0.p_addr && N.uncached_unit.func3 == e0.func3 && !N.uncached_unit.req_sent), "a device load asks for its own address and size");
  vc_assert(IMPLIES(O.uncached_unit.valid, memcmp(&N.uncached_unit, &O.uncached_unit, sizeof(UncachedUnit)) == 0), "a device access in progress is not disturbed");
  if (checked) {
    // per byte: the youngest older store that writes it (a failed store-conditional or cancelled store writes nothing)
    unsigned w = width(e0.func3); bool unknown = false; int src[4] = {-1, -1, -1, -1}; uint8_t val[4] = {0, 0, 0, 0};
    for (unsigned k = 0; k < NS; k++) {
      const StqEntry &s = O.stq[(O.stq_head + k) % NS];
      if (k >= older) continue;
      if (s.suppress_write) continue;
      bool vague = s.store_state == SS::Allocated || !s.paddr_valid || (s.is_lrsc && !decided(s));
      for (unsigned b = 0; b < 4; b++) {
        uint32_t off = e0.p_addr + b - s.paddr;
        if (b < w && (vague || off < width(s.func3))) { src[b] = (vague || !s.data_valid) ? 99 : (int)k; val[b] = s.data >> (8 * (off & 3)); }
      }
    }
    bool none = true, one = true; uint32_t v = 0;
    for (unsigned b = 0; b < 4; b++) if (b < w) { none = none && src[b] == -1; one = one && src[b] >= 0 && src[b] < (int)NS && src[b] == src[0]; v |= (uint32_t)val[b] << (8 * b); }
    vc_assert(IMPLIES(to_mem, none), "a load reads memory only if no older store still holds one of its bytes");
    vc_assert(IMPLIES(fwd, one), "a load is forwarded only from one store that holds all its bytes");
    vc_assert(IMPLIES(fwd && one, e1.result == extend(v, e0.func3)), "a forwarded load gets the bytes of the youngest older store");
    vc_cover("checked");
  }
  vc_cover("stlf");
}
VC_DRIVER(lsu_stlf) { stlf(1, NS, false); }  // one load against the store queue
VC_DRIVER(lsu_stlf_all) { stlf(1, NS); }
// up to three loads in the queue, wrapping or not, against at most one store: each ends in the one queue its state names
VC_DRIVER(lsu_stlf_queue) {
  setup(); bounds(N); vc_loop_queries(0);
  static const unsigned char heads[] = {0, 14, 7}; unsigned h = heads[vc_choose(3)], ids[3] = {(h * 3 + 1) % NL, (h * 5 + 9) % NL, 0}; while (ids[2] == ids[0] || ids[2] == ids[1]) ids[2]++;
  if (ids[0] == ids[1]) ids[1] = (ids[1] + 7) % NL;
  while (ids[2] == ids[0] || ids[2] == ids[1]) ids[2]++;
  N.stlf_queue_head = h; N.stq_head = h; N.wait_dcache_ldq_head = (h + 5) % NL; N.finish_head = (h + 9) % NL; N.stlf_queue_count &= 3; N.stq_count &= 1; N.stq_commit_count &= 1;
  for (unsigned i = 0; i < NL; i++) { N.stlf_queue[i].valid = false; }
  for (unsigned k = 0; k < 3; k++) { auto &q = N.stlf_queue[(h + k) % NL]; q.ldq_idx = ids[k]; q.valid = k < N.stlf_queue_count; auto &e = N.ldq[ids[k]]; e.p_addr_valid = true; e.stq_snapshot.idx = (h + (e.stq_snapshot.flag ? 0 : N.stq_count)) % NS; e.stq_snapshot.flag = (h + (e.stq_snapshot.flag ? 0 : N.stq_count)) >= NS ? !N.stq_head_flag : N.stq_head_flag;
    vc_assume(e.load_state == LS::CheckStlf || e.load_state == LS::CheckStlfRetry || e.load_state == LS::WaitDcache || e.load_state == LS::WaitFinish); }
  unsigned which = vc_choose(3), p = ids[which];
  vc_assume(in_dc(N, p) == 0 && in_fin(N, p) == 0 && N.wait_dcache_ldq_count + 3 <= NL && N.finish_count + 3 <= NL && !(N.uncached_unit.valid && N.uncached_unit.idx == p));
  for (unsigned i = 0; i < NL; i++) { vc_assume(!N.wait_dcache_ldq[i].valid || inside(i, N.wait_dcache_ldq_head, N.wait_dcache_ldq_count, NL)); vc_assume(!N.finish[i].valid || inside(i, N.finish_head, N.finish_count, NL)); }
  remember();
  L.comb_stlf();
  const LdqEntry &e1 = N.ldq[p]; bool was = which < O.stlf_queue_count;
  bool st = in_stlf(N, p) == 1, dc = in_dc(N, p) == 1, fi = in_fin(N, p) == 1, un = in_unit(N, p, true); int total = in_stlf(N, p) + in_dc(N, p) + in_fin(N, p) + (un ? 1 : 0);
  vc_assert(IMPLIES(was, total == 1), "a load in the check stays in exactly one place");
  vc_assert(IMPLIES(!was, total == 0 && e1.load_state == O.ldq[p].load_state), "a load not in the check is left alone");
  vc_assert(IMPLIES(was, (e1.load_state == LS::ReadyToIssue) == dc && (e1.load_state == LS::ReadyToWb) == fi && (e1.load_state == LS::WaitMmioResp) == un && (e1.load_state == LS::CheckStlf || e1.load_state == LS::CheckStlfRetry) == st), "the queue a load waits in is the one its state names");
  for (unsigned i = 0; i < NL; i++) vc_assert(IMPLIES(N.stlf_queue[i].valid, inside(i, N.stlf_queue_head, N.stlf_queue_count, NL)) && IMPLIES(N.wait_dcache_ldq[i].valid, inside(i, N.wait_dcache_ldq_head, N.wait_dcache_ldq_count, NL)) && IMPLIES(N.finish[i].valid, inside(i, N.finish_head, N.finish_count, NL)), "queued loads lie inside their rings");
  for (unsigned i = 0; i < NL; i++) vc_assert(IMPLIES(O.wait_dcache_ldq[i].valid, N.wait_dcache_ldq[i].valid && N.wait_dcache_ldq[i].ldq_idx == O.wait_dcache_ldq[i].ldq_idx) && IMPLIES(O.finish[i].valid, N.finish[i].valid && N.finish[i].ldq_idx == O.finish[i].ldq_idx), "loads already queued keep their place");
  vc_assert(N.wait_dcache_ldq_head == O.wait_dcache_ldq_head && N.finish_head == O.finish_head, "the check takes nothing out of the other queues");
  vc_cover("stlf queue");
}


// ---- the other functions: queues wrapping or not, each holding the loads or stores in some order ----
static void arrange(LsuState &s) {
  static const unsigned char heads[] = {0, 14, 7}; unsigned h = heads[vc_choose(3)], c = 3 * h + 1;
  s.stq_head = h; s.wait_mmu_stq_head = (h + 3) % NS; s.mmu_done_stq_head = (h + 6) % NS; s.wait_mmu_ldq_head = (h + 1) % NL; s.finish_head = (h + 9) % NL; s.stlf_queue_head = (h + 12) % NL; s.wait_dcache_ldq_head = (h + 5) % NL;
  bounds(s);
  for (unsigned i = 0; i < NL; i++) {
    s.wait_mmu_ldq[i].ldq_idx = (5 * i + c) % NL; s.stlf_queue[i].ldq_idx = (7 * i + c) % NL; s.wait_dcache_ldq[i].ldq_idx = (3 * i + c) % NL; s.finish[i].ldq_idx = (11 * i + c) % NL; s.wait_mmu_stq[i].stq_idx = (5 * i + c) % NS; s.mmu_done_stq[i].stq_idx = (3 * i + c) % NS;
    s.wait_mmu_ldq[i].valid = s.wait_mmu_ldq[i].valid && inside(i, s.wait_mmu_ldq_head, s.wait_mmu_ldq_count, NL); s.stlf_queue[i].valid = s.stlf_queue[i].valid && inside(i, s.stlf_queue_head, s.stlf_queue_count, NL);
    s.wait_dcache_ldq[i].valid = s.wait_dcache_ldq[i].valid && inside(i, s.wait_dcache_ldq_head, s.wait_dcache_ldq_count, NL); s.finish[i].valid = s.finish[i].valid && inside(i, s.finish_head, s.finish_count, NL);
    s.wait_mmu_stq[i].valid = s.wait_mmu_stq[i].valid && inside(i, s.wait_mmu_stq_head, s.wait_mmu_stq_count, NS); s.mmu_done_stq[i].valid = s.mmu_done_stq[i].valid && inside(i, s.mmu_done_stq_head, s.mmu_done_stq_count, NS);
  }
}
static bool live_store(const LsuState &s, unsigned i) { return inside(i, s.stq_head, s.stq_count, NS); }
static bool same_bits(const void *a, const void *b, size_t n) { return vc_eq(a, b, n); }

// dispatch: entries offered are free, and what dispatch fills is exactly what was offered
VC_DRIVER(lsu_offer) {
  setup(); LsuState &C = L.cur; arrange(C); vc_loop_queries(0);
  unsigned alloc = 0, empty = 0, salloc = 0;
  for (unsigned i = 0; i < NL; i++) { alloc += C.ldq[i].load_state == LS::Allocated; empty += C.ldq[i].load_state == LS::Empty; }
  for (unsigned k = 0; k < NS; k++) salloc += k < C.stq_count && C.stq[(C.stq_head + k) % NS].store_state == SS::Allocated;
  vc_assume(alloc + C.wait_mmu_ldq_count <= NL && salloc + C.wait_mmu_stq_count <= NS && salloc + C.mmu_done_stq_count <= NS);
  L.comb_cal(); L.comb_lsu2dis(); L.comb_lsu2rob();
  vc_assert(lsu2dis.stq_tail == (C.stq_head + C.stq_count) % NS && lsu2dis.stq_tail_flag == (C.stq_head + C.stq_count >= NS ? !C.stq_head_flag : (bool)C.stq_head_flag), "the store queue tail offered is the first free slot");
  vc_assert(lsu2dis.stq_free <= NS - C.stq_count, "no more stores are offered than slots are free");
  vc_assert(lsu2dis.ldq_free <= empty, "no more loads are offered than entries are free");
  vc_assert(lsu2dis.stq_free + salloc + C.wait_mmu_stq_count <= NS && lsu2dis.stq_free + salloc + C.mmu_done_stq_count <= NS && lsu2dis.ldq_free + alloc + C.wait_mmu_ldq_count <= NL, "every store and load offered an entry has room to wait for its address");
  unsigned n = 0;
  for (unsigned k = 0; k < MAX_LDQ_DISPATCH_WIDTH; k++) {
    bool v = lsu2dis.ldq_alloc_valid[k]; n += v;
    vc_assert(IMPLIES(v, lsu2dis.ldq_alloc_idx[k] < NL && C.ldq[lsu2dis.ldq_alloc_idx[k] % NL].load_state == LS::Empty), "a load entry offered is empty");
    for (unsigned j = 0; j < k; j++) vc_assert(IMPLIES(v && lsu2dis.ldq_alloc_valid[j], lsu2dis.ldq_alloc_idx[j] != lsu2dis.ldq_alloc_idx[k]), "load entries offered are distinct");
  }
  vc_assert(n == (lsu2dis.ldq_free < MAX_LDQ_DISPATCH_WIDTH ? lsu2dis.ldq_free : MAX_LDQ_DISPATCH_WIDTH), "free load entries are offered");
  vc_assert(lsu2rob.committed_store_pending == (C.stq_commit_count != 0), "stores still to be written are reported to the reorder buffer");
  vc_cover("offer");
}
VC_DRIVER(lsu_alloc) {
  setup(); arrange(N); vc_loop_queries(0);
  unsigned want = 0, p = vc_u8("probe") & (NL - 1);
  for (unsigned k = 0; k < MAX_STQ_DISPATCH_WIDTH; k++) { dis2lsu.func3[k] &= 7; dis2lsu.rob_idx[k] &= ROB_NUM - 1; if (dis2lsu.alloc_req[k]) { dis2lsu.stq_flag[k] = N.stq_head + N.stq_count + want >= NS ? !N.stq_head_flag : (bool)N.stq_head_flag; want++; } }
  vc_assume(N.stq_count + want <= NS);
  for (unsigned k = 0; k < MAX_LDQ_DISPATCH_WIDTH; k++) { dis2lsu.ldq_idx[k] &= NL - 1; dis2lsu.ldq_rob_idx[k] &= ROB_NUM - 1; vc_assume(IMPLIES(dis2lsu.ldq_alloc_req[k], N.ldq[dis2lsu.ldq_idx[k]].load_state == LS::Empty)); for (unsigned j = 0; j < k; j++) vc_assume(!dis2lsu.ldq_alloc_req[k] || !dis2lsu.ldq_alloc_req[j] || dis2lsu.ldq_idx[k] != dis2lsu.ldq_idx[j]); }
  remember();
  L.comb_dis2lsu();
  bool hit = false;
  for (unsigned k = 0; k < MAX_LDQ_DISPATCH_WIDTH; k++) if (dis2lsu.ldq_alloc_req[k] && dis2lsu.ldq_idx[k] == p) {
    hit = true; const LdqEntry &e = N.ldq[p];
    vc_assert(e.load_state == LS::Allocated && e.rob_idx == dis2lsu.ldq_rob_idx[k] && e.rob_flag == dis2lsu.ldq_rob_flag[k] && e.br_mask == dis2lsu.ldq_br_mask[k], "an allocated load carries its place in the program and the branches it depends on");
    vc_assert(!e.page_fault && !e.is_mmio && !e.p_addr_valid && !e.v_addr_valid && !e.is_lrsc, "an allocated load starts clean");
  }
  vc_assert(IMPLIES(!hit, same_bits(&N.ldq[p], &O.ldq[p], sizeof(LdqEntry))), "dispatch leaves other loads alone");
  unsigned at = 0;
  for (unsigned k = 0; k < MAX_STQ_DISPATCH_WIDTH; k++) if (dis2lsu.alloc_req[k]) {
    const StqEntry &e = N.stq[(O.stq_head + O.stq_count + at) & (NS - 1)]; at++;
    vc_assert(e.store_state == SS::Allocated && e.rob_idx == dis2lsu.rob_idx[k] && e.rob_flag == dis2lsu.rob_flag[k] && e.br_mask == dis2lsu.br_mask[k] && e.func3 == dis2lsu.func3[k] && e.stq_flag == dis2lsu.stq_flag[k], "an allocated store carries its place in the program and the branches it depends on");
    vc_assert(!e.page_fault && !e.is_mmio && !e.paddr_valid && !e.data_valid && !e.is_lrsc && !e.suppress_write && !e.sc_pass, "an allocated store starts clean");
  }
  vc_assert(N.stq_count == O.stq_count + want && N.stq_head == O.stq_head && N.stq_commit_count == O.stq_commit_count && N.stq_commit == O.stq_commit, "stores are appended at the tail in program order");
  vc_assert(IMPLIES(live_store(O, p), same_bits(&N.stq[p], &O.stq[p], sizeof(StqEntry))), "dispatch leaves other stores alone");
  vc_cover("alloc");
}
// address and data arriving from the execution units
VC_DRIVER(lsu_enter) {
  setup(); arrange(N); vc_loop_queries(0);
  unsigned p = vc_u8("probe") & (NL - 1);
  auto &A = exe2lsu.agu_req; auto &D = exe2lsu.sdu_req;
  for (auto &r : A) { r.uop.ldq_idx &= NL - 1; r.uop.stq_idx &= NS - 1; r.uop.rob_idx &= ROB_NUM - 1; r.uop.func3 &= 7; r.uop.func7 &= 127; r.uop.dest_preg &= PRF_NUM - 1; }
  for (auto &r : D) { r.uop.ldq_idx &= NL - 1; r.uop.stq_idx &= NS - 1; r.uop.rob_idx &= ROB_NUM - 1; r.uop.func7 &= 127; r.uop.func3 &= 7; }
  for (auto &r : A) { bool ld = r.valid && r.uop.op == UOP_LOAD, st = r.valid && r.uop.op == UOP_STA; const LdqEntry &e = N.ldq[r.uop.ldq_idx]; const StqEntry &s = N.stq[r.uop.stq_idx];
    vc_assume(IMPLIES(ld, e.load_state == LS::Allocated && e.rob_idx == r.uop.rob_idx && e.rob_flag == r.uop.rob_flag)); vc_assume(IMPLIES(st, s.store_state == SS::Allocated && s.rob_idx == r.uop.rob_idx && s.rob_flag == r.uop.rob_flag));
    for (auto &q : A) if (&q != &r) vc_assume(!(ld && q.valid && q.uop.op == UOP_LOAD && q.uop.ldq_idx == r.uop.ldq_idx) && !(st && q.valid && q.uop.op == UOP_STA && q.uop.stq_idx == r.uop.stq_idx)); }
  for (auto &r : D) { const StqEntry &s = N.stq[r.uop.stq_idx]; vc_assume(IMPLIES(r.valid, s.rob_idx == r.uop.rob_idx && s.rob_flag == r.uop.rob_flag && !s.data_valid)); for (auto &q : D) if (&q != &r) vc_assume(!(r.valid && q.valid && q.uop.stq_idx == r.uop.stq_idx)); }
  vc_assume(N.wait_mmu_ldq_count + 4 <= NL && N.wait_mmu_stq_count + 4 <= NS && N.mmu_done_stq_count + 2 <= NS);
  vc_assume(IMPLIES(N.ldq[p].load_state == LS::Allocated, in_mmu(N, p) == 0)); vc_assume(IMPLIES(N.stq[p].store_state == SS::Allocated, in_smmu(N, p) == 0)); vc_assume(IMPLIES(N.stq[p].store_state == SS::WaitData, in_sdone(N, p) == 0 && N.stq[p].paddr_valid));
  remember();
  L.comb_exe2lsu();
  bool lh = false, sh = false, dh = false;
  for (auto &r : A) if (r.valid && r.uop.op == UOP_LOAD && r.uop.ldq_idx == p) {
    lh = true; const LdqEntry &e = N.ldq[p];
    vc_assert(e.v_addr == r.uop.result && e.v_addr_valid && e.func3 == r.uop.func3 && e.dest_preg == r.uop.dest_preg && e.rob_idx == O.ldq[p].rob_idx && e.rob_flag == O.ldq[p].rob_flag && e.br_mask == O.ldq[p].br_mask, "a load takes its own address, size and destination");
    vc_assert(e.stq_snapshot.idx == r.uop.stq_idx && e.stq_snapshot.flag == r.uop.stq_flag, "a load remembers which stores are older");
    vc_assert(e.is_lrsc == (r.uop.is_atomic && (r.uop.func7 >> 2) == 2), "LR is recognised");
    vc_assert(e.load_state == LS::WaitTlb && !e.p_addr_valid && in_mmu(N, p) == 1, "a load with an address waits for translation");
  }
  for (auto &r : A) if (r.valid && r.uop.op == UOP_STA && r.uop.stq_idx == p) {
    sh = true; const StqEntry &e = N.stq[p];
    vc_assert(e.vaddr == r.uop.result && e.vaddr_valid && e.func3 == r.uop.func3 && e.dest_preg == r.uop.dest_preg && e.rob_idx == O.stq[p].rob_idx && e.rob_flag == O.stq[p].rob_flag && e.br_mask == O.stq[p].br_mask && e.stq_flag == O.stq[p].stq_flag, "a store takes its own address and size");
    vc_assert(e.is_lrsc == (r.uop.is_atomic && (r.uop.func7 >> 2) == 3), "SC is recognised");
    vc_assert(e.store_state == SS::WaitTlb && !e.paddr_valid && in_smmu(N, p) == 1, "a store with an address waits for translation");
  }
  for (auto &r : D) if (r.valid && r.uop.stq_idx == p) {
    dh = true; const StqEntry &e = N.stq[p];
    vc_assert(e.data == r.uop.result && e.data_valid, "a store takes its own data");
    vc_assert(IMPLIES(O.stq[p].store_state == SS::WaitData, e.store_state == SS::Ready && in_sdone(N, p) == 1 && e.paddr == O.stq[p].paddr), "a store whose data comes last is then complete");
    vc_assert(IMPLIES(O.stq[p].store_state != SS::WaitData && !sh, e.store_state == O.stq[p].store_state && e.paddr == O.stq[p].paddr && e.vaddr == O.stq[p].vaddr), "data arriving early changes only the data");
  }
  vc_assert(IMPLIES(!lh, same_bits(&N.ldq[p], &O.ldq[p], sizeof(LdqEntry))), "other loads keep their address and state");
  vc_assert(IMPLIES(!sh && !dh, same_bits(&N.stq[p], &O.stq[p], sizeof(StqEntry))), "other stores keep their address, data and state");
  vc_assert(IMPLIES(!dh, N.stq[p].data == O.stq[p].data && N.stq[p].data_valid == O.stq[p].data_valid), "an address does not touch the data of a store");
  vc_cover("enter");
}
// translation requests and answers
VC_DRIVER(lsu_translate) {
  setup(); arrange(N); vc_loop_queries(0);
  remember();
  L.comb_tlb_out();
  const LsuMMUIO &m = lsu2mmu.v;
  vc_assert(m.csr_status.satp == csrs.satp && m.csr_status.mstatus == csrs.mstatus && m.csr_status.sstatus == csrs.sstatus && m.csr_status.privilege == csrs.privilege, "translation uses the current address-translation state");
  for (unsigned k = 0; k < LSU_LDU_COUNT; k++) if (m.ldq_req[k].valid) {
    unsigned w = m.ldq_req[k].wait_idx, i = m.ldq_req[k].entry_idx; vc_assert(w < NL && i < NL, "a translation request names a load in flight"); w &= NL - 1; i &= NL - 1;
    vc_assert(N.wait_mmu_ldq[w].valid && N.wait_mmu_ldq[w].ldq_idx == i && N.ldq[i].load_state == LS::WaitTlb, "only a load waiting for translation asks for it");
    vc_assert(m.ldq_req[k].vaddr == N.ldq[i].v_addr, "a load asks for its own address");
    for (unsigned j = 0; j < k; j++) vc_assert(IMPLIES(m.ldq_req[j].valid, m.ldq_req[j].wait_idx != m.ldq_req[k].wait_idx), "a load asks once");
  }
  for (unsigned k = 0; k < LSU_STA_COUNT; k++) if (m.stq_req[k].valid) {
    unsigned w = m.stq_req[k].wait_idx, i = m.stq_req[k].entry_idx; vc_assert(w < NS && i < NS, "a translation request names a store in flight"); w &= NS - 1; i &= NS - 1;
    vc_assert(N.wait_mmu_stq[w].valid && N.wait_mmu_stq[w].stq_idx == i && N.stq[i].store_state == SS::WaitTlb, "only a store waiting for translation asks for it");
    vc_assert(m.stq_req[k].vaddr == N.stq[i].vaddr, "a store asks for its own address");
    for (unsigned j = 0; j < k; j++) vc_assert(IMPLIES(m.stq_req[j].valid, m.stq_req[j].wait_idx != m.stq_req[k].wait_idx), "a store asks once");
  }
  unsigned h = N.wait_mmu_ldq_head, g = N.wait_mmu_stq_head;
  vc_assert(IMPLIES(N.wait_mmu_ldq_count > 0 && N.wait_mmu_ldq[h].valid && N.ldq[N.wait_mmu_ldq[h].ldq_idx].load_state == LS::WaitTlb, m.ldq_req[0].valid), "the first load waiting for translation is served");
  vc_assert(IMPLIES(N.wait_mmu_stq_count > 0 && N.wait_mmu_stq[g].valid && N.stq[N.wait_mmu_stq[g].stq_idx].store_state == SS::WaitTlb, m.stq_req[0].valid), "the first store waiting for translation is served");
  vc_cover("translate");
}
VC_DRIVER(lsu_translated_load) {
  setup(); arrange(N); vc_loop_queries(0);
  unsigned p = vc_choose(NL); auto &R = mmu2lsu.v.ldq_resp;
  for (auto &r : R) { r.entry_idx &= NL - 1; r.wait_idx &= NL - 1; vc_assume((unsigned)r.result <= 2); for (auto &q : R) if (&q != &r) vc_assume(!r.valid || !q.valid || r.wait_idx != q.wait_idx); }
  vc_assume(N.stlf_queue_count + 2 <= NL && N.finish_count + 2 <= NL && in_stlf(N, p) == 0 && in_fin(N, p) == 0);
  for (auto &r : R) vc_assume(IMPLIES(r.valid && N.wait_mmu_ldq[r.wait_idx].valid && N.wait_mmu_ldq[r.wait_idx].ldq_idx == r.entry_idx, N.ldq[r.entry_idx].load_state == LS::WaitTlb)); // lsu_translate: only these ask
  LS s0 = N.ldq[p].load_state; bool waits = in_mmu(N, p) == 1;
  vc_assume(IMPLIES(waits, s0 == LS::Empty || s0 == LS::WaitTlb || s0 == LS::WaitTlbRetry || (s0 == LS::WaitSTLF && !N.ldq[p].page_fault) || (s0 == LS::WaitFinish && N.ldq[p].page_fault))); vc_assume(IMPLIES(waits && s0 != LS::WaitFinish, !N.ldq[p].page_fault));
  remember();
  L.comb_tlb_in_ldq();
  const LdqEntry &e = N.ldq[p], &o = O.ldq[p]; bool ans = false;
  for (auto &r : R) if (waits && r.valid && r.entry_idx == p && O.wait_mmu_ldq[r.wait_idx].valid && O.wait_mmu_ldq[r.wait_idx].ldq_idx == p && s0 == LS::WaitTlb) {
    ans = true;
    if (r.result == MMUResultType::HIT) { vc_assert(e.p_addr == r.paddr && e.p_addr_valid && !e.page_fault, "a load gets the translation of its own request"); vc_assert(e.is_mmio == device(r.paddr), "a load is a device load exactly when its address is in the device map"); vc_assert(e.load_state == LS::WaitSTLF || e.load_state == LS::CheckStlf, "a translated load is checked against older stores"); }
    else if (r.result == MMUResultType::PAGE_FAULT) { vc_assert(e.page_fault && e.diag_val == o.v_addr && (e.load_state == LS::WaitFinish || e.load_state == LS::PageFault), "a load that faults reports its own address"); }
    else vc_assert((e.load_state == LS::WaitTlb || e.load_state == LS::WaitTlbRetry) && !e.p_addr_valid == !o.p_addr_valid && !e.page_fault, "a load without a translation asks again");
  }
  vc_assert(IMPLIES(!ans, e.p_addr == o.p_addr && e.p_addr_valid == o.p_addr_valid && e.page_fault == o.page_fault && e.diag_val == o.diag_val && e.is_mmio == o.is_mmio && e.result == o.result), "a load that got no answer keeps its address");
  vc_assert(e.v_addr == o.v_addr && e.func3 == o.func3 && e.dest_preg == o.dest_preg && e.rob_idx == o.rob_idx && e.rob_flag == o.rob_flag && e.br_mask == o.br_mask && e.stq_snapshot.idx == o.stq_snapshot.idx && e.stq_snapshot.flag == o.stq_snapshot.flag && e.is_lrsc == o.is_lrsc, "translation changes nothing else of a load");
  vc_assert(IMPLIES(!waits, e.load_state == s0), "loads elsewhere keep their state");
  if (waits && s0 != LS::Empty) {
    int m = in_mmu(N, p), t = in_stlf(N, p), f = in_fin(N, p);
    vc_assert(m + t + f == 1, "a load being translated is in exactly one queue");
    vc_assert((t == 1) == (e.load_state == LS::CheckStlf) && (f == 1) == (e.load_state == LS::PageFault), "the queue a load waits in is the one its state names");
    vc_assert((e.load_state == LS::PageFault) <= e.page_fault && IMPLIES(e.load_state == LS::CheckStlf, e.p_addr_valid || s0 == LS::WaitSTLF), "a load goes on with a valid translation or a fault");
  }
  vc_assert(ring_ok(N) && rings_tight(N), "the load queues stay well-formed");
  vc_cover("translated load");
}
VC_DRIVER(lsu_translated_store) {
  setup(); arrange(N); vc_loop_queries(0);
  unsigned p = vc_choose(NS); auto &R = mmu2lsu.v.stq_resp;
  for (auto &r : R) { r.entry_idx &= NS - 1; r.wait_idx &= NS - 1; vc_assume((unsigned)r.result <= 2); for (auto &q : R) if (&q != &r) vc_assume(!r.valid || !q.valid || r.wait_idx != q.wait_idx); }
  vc_assume(N.mmu_done_stq_count + N.wait_mmu_stq_count <= NS && in_sdone(N, p) == 0);
  SS s0 = N.stq[p].store_state; bool waits = in_smmu(N, p) == 1;
  vc_assume(IMPLIES(waits, s0 == SS::WaitTlb || s0 == SS::WaitTlbRetry)); vc_assume(IMPLIES(waits, !N.stq[p].page_fault));
  remember();
  L.comb_tlb_in_stq();
  const StqEntry &e = N.stq[p], &o = O.stq[p]; bool ans = false;
  for (auto &r : R) if (waits && r.valid && r.entry_idx == p && O.wait_mmu_stq[r.wait_idx].valid && O.wait_mmu_stq[r.wait_idx].stq_idx == p && s0 == SS::WaitTlb) {
    ans = true;
    if (r.result == MMUResultType::HIT) { vc_assert(e.paddr == r.paddr && e.paddr_valid && !e.page_fault, "a store gets the translation of its own request"); vc_assert(e.is_mmio == device(r.paddr), "a store is a device store exactly when its address is in the device map"); vc_assert(IMPLIES(!o.data_valid, e.store_state == SS::WaitData), "a store without data waits for it"); vc_assert(IMPLIES(o.data_valid, e.store_state == SS::WaitDone || e.store_state == SS::Ready), "a store with address and data is complete"); }
    else if (r.result == MMUResultType::PAGE_FAULT) { vc_assert(e.page_fault && !e.paddr_valid == !o.paddr_valid && (e.store_state == SS::WaitDone || e.store_state == SS::PageFault), "a store that faults is marked"); }
    else vc_assert((e.store_state == SS::WaitTlb || e.store_state == SS::WaitTlbRetry) && !e.page_fault, "a store without a translation asks again");
  }
  vc_assert(IMPLIES(!ans, e.paddr == o.paddr && e.paddr_valid == o.paddr_valid && e.page_fault == o.page_fault && e.is_mmio == o.is_mmio), "a store that got no answer keeps its address");
  vc_assert(e.vaddr == o.vaddr && e.data == o.data && e.data_valid == o.data_valid && e.func3 == o.func3 && e.dest_preg == o.dest_preg && e.rob_idx == o.rob_idx && e.rob_flag == o.rob_flag && e.br_mask == o.br_mask && e.is_lrsc == o.is_lrsc && e.sc_pass == o.sc_pass && e.suppress_write == o.suppress_write, "translation changes nothing else of a store");
  vc_assert(IMPLIES(!waits, e.store_state == s0), "stores elsewhere keep their state");
  if (waits) {
    int m = in_smmu(N, p), d = in_sdone(N, p);
    vc_assert(m + d == (e.store_state == SS::WaitData && m == 0 ? 0 : 1), "a store being translated is in exactly one queue");
    vc_assert((d == 1) == (e.store_state == SS::Ready || e.store_state == SS::PageFault) && IMPLIES(d == 1, e.page_fault == (e.store_state == SS::PageFault)), "a store completes with an address or a fault");
  }
  vc_assert(ring_ok(N) && srings_tight(N), "the store queues stay well-formed");
  vc_cover("translated store");
}
// cache reads
VC_DRIVER(lsu_read) {
  setup(); arrange(N); vc_loop_queries(0);
  unsigned p = vc_choose(NL); L.cur.req_gen &= (1u << (31 - LDQ_IDX_WIDTH)) - 1;
  for (unsigned i = 0; i < NL; i++) vc_assume(IMPLIES(N.ldq[i].load_state == LS::ReadyToIssue, !N.ldq[i].is_mmio));
  remember();
  L.comb_lsu2dcache_ldq();
  const LdqEntry &e = N.ldq[p], &o = O.ldq[p]; int sent = 0;
  for (unsigned k = 0; k < LSU_LDU_COUNT; k++) {
    const LoadReq &r = lsu2dc.v.req_ports.load_ports[k]; if (!r.valid) continue;
    unsigned w = r.req_id & (NL - 1);
    vc_assert(!(r.req_id >> 31), "a load request carries a load identifier");
    vc_assert(N.wait_dcache_ldq[w].valid && (r.req_id >> LDQ_IDX_WIDTH) == N.wait_dcache_ldq[w].req_gen, "a request can be matched with its answer");
    unsigned i = N.wait_dcache_ldq[w].ldq_idx & (NL - 1);
    vc_assert(O.ldq[i].load_state == LS::ReadyToIssue && !O.ldq[i].is_mmio && N.ldq[i].load_state == LS::WaitDcacheResp, "only a memory load ready to read is sent, once");
    vc_assert(r.addr == O.ldq[i].p_addr, "a load reads its own address");
    sent += i == p;
    for (unsigned j = 0; j < k; j++) { const LoadReq &q = lsu2dc.v.req_ports.load_ports[j]; vc_assert(IMPLIES(q.valid, q.req_id != r.req_id && (q.req_id & (NL - 1)) != w), "requests are distinguishable"); }
    vc_assert((r.req_id >> LDQ_IDX_WIDTH) == ((L.cur.req_gen + k) & ((1u << (31 - LDQ_IDX_WIDTH)) - 1)) && N.req_gen != N.wait_dcache_ldq[w].req_gen, "request generations are not reused");
  }
  vc_assert(sent <= 1 && same_load(e, o) && e.result == o.result, "sending changes only the state of a load");
  vc_assert(IMPLIES(sent == 0, e.load_state == o.load_state), "a load not sent keeps its state");
  vc_assert(N.wait_dcache_ldq_head == O.wait_dcache_ldq_head && N.wait_dcache_ldq_count == O.wait_dcache_ldq_count, "sent loads keep their slot");
  for (unsigned i = 0; i < NL; i++) vc_assert(N.wait_dcache_ldq[i].valid == O.wait_dcache_ldq[i].valid && N.wait_dcache_ldq[i].ldq_idx == O.wait_dcache_ldq[i].ldq_idx, "sent loads stay in the queue");
  vc_cover("read");
}
VC_DRIVER(lsu_read_back) {
  setup(); arrange(N); vc_loop_queries(0);
  unsigned p = vc_choose(NL); auto &R = dc2lsu.v.resp_ports.load_resps;
  for (auto &r : R) { r.req_id &= 0x7fffffff; r.replay = (ReplayType)((unsigned)r.replay & 3); for (auto &q : R) if (&q != &r) vc_assume(!r.valid || !q.valid || (r.req_id & (NL - 1)) != (q.req_id & (NL - 1))); }
  LS s0 = N.ldq[p].load_state; bool waits = in_dc(N, p) == 1;
  vc_assume(IMPLIES(waits, s0 == LS::Empty || s0 == LS::ReadyToIssue || s0 == LS::WaitDcacheResp || s0 == LS::ReadyToWb)); vc_assume(in_fin(N, p) == 0);
  remember();
  L.comb_dcache2lsu_ldq();
  const LdqEntry &e = N.ldq[p], &o = O.ldq[p]; bool hit = false, miss = false; uint32_t word = 0;
  for (auto &r : R) { unsigned w = r.req_id & (NL - 1); bool mine = r.valid && O.wait_dcache_ldq[w].valid && O.wait_dcache_ldq[w].ldq_idx == p && O.wait_dcache_ldq[w].req_gen == r.req_id >> LDQ_IDX_WIDTH && s0 == LS::WaitDcacheResp; if (mine) { hit = r.replay == ReplayType::HIT; miss = !hit; word = r.data; } }
  vc_assert(IMPLIES(hit, e.result == extend(word >> (8 * (o.p_addr & 3)), o.func3)), "a load returns the addressed bytes, extended as the instruction asks");
  vc_assert(IMPLIES(hit, e.load_state == LS::ReadyToWb), "an answered load is complete");
  vc_assert(IMPLIES(miss, e.load_state == LS::ReadyToIssue && e.result == o.result), "a load the cache cannot serve yet reads again");
  vc_assert(IMPLIES(!hit && !miss, e.load_state == s0 && e.result == o.result), "an answer to another or an abandoned request changes nothing");
  vc_assert(same_load(e, o), "an answer changes nothing else of a load");
  if (waits && s0 != LS::Empty) vc_assert(in_dc(N, p) + in_fin(N, p) == 1 && IMPLIES(in_fin(N, p) == 1, e.load_state == LS::ReadyToWb), "a reading load is in exactly one queue");
  vc_assert(ring_ok(N) && rings_tight(N), "the load queues stay well-formed");
  vc_cover("read back");
}
// stores after commit
VC_DRIVER(lsu_commit) {
  setup(); arrange(N); vc_loop_queries(0);
  unsigned p = vc_u8("probe") & (NS - 1), n = 0; auto &C = rob_commit.commit_entry;
  // the reorder buffer commits completed stores in program order
  for (auto &c : C) { c.uop.stq_idx &= NS - 1; bool st = c.valid && (c.uop.type == STORE || (c.uop.type == AMO && (c.uop.func7 >> 2) != 2)); if (st) { vc_assume(N.stq_commit_count + n < N.stq_count); c.uop.stq_idx = (N.stq_commit + n) & (NS - 1); n++; vc_assume(N.stq[c.uop.stq_idx].store_state == SS::WaitCommit); } }
  vc_assume(IMPLIES(rbc.flush, n <= 1));
  remember();
  L.comb_stq_commit();
  unsigned d = (p + NS - O.stq_commit) % NS; bool mine = d < n;
  const StqEntry &e = N.stq[p], &o = O.stq[p];
  vc_assert(N.stq_commit_count == O.stq_commit_count + n && N.stq_commit == (O.stq_commit + n) % NS && N.stq_count == O.stq_count && N.stq_head == O.stq_head, "committed stores are counted in program order");
  vc_assert(IMPLIES(!mine, same_bits(&e, &o, sizeof e)), "a store not committed is not touched");
  bool kill = rbc.flush || (o.is_lrsc && !o.sc_pass);
  vc_assert(IMPLIES(mine && !kill, e.store_state == SS::Committed && e.suppress_write == o.suppress_write), "a committed store may write memory");
  vc_assert(IMPLIES(mine && kill, e.store_state == SS::Done && e.suppress_write), "a trapping store or failed SC never writes memory");
  vc_assert(IMPLIES(mine, e.paddr == o.paddr && e.data == o.data && e.func3 == o.func3 && e.is_mmio == o.is_mmio && e.is_lrsc == o.is_lrsc && e.sc_pass == o.sc_pass), "commit does not change address or data");
  vc_cover("commit");
}
VC_DRIVER(lsu_write) {
  setup(); arrange(N); vc_loop_queries(0);
  unsigned p = (N.stq_head + vc_choose(4)) % NS;
  N.stq_commit_count &= 7; vc_assume(N.stq_commit_count <= N.stq_count);
  for (unsigned i = 0; i < NS; i++) { auto &e = N.stq[i]; e.replay_wait_cycles &= 7; vc_assume((e.paddr & (width(e.func3) - 1)) == 0 && (e.func3 & 3) != 3); }
  remember();
  L.comb_lsu2dcache_stq();
  const StqEntry &e = N.stq[p], &o = O.stq[p]; unsigned k0 = (p + NS - O.stq_head) % NS; int sent = 0; bool live = k0 < O.stq_commit_count;
  for (unsigned k = 0; k < LSU_STA_COUNT; k++) {
    const StoreReq &r = lsu2dc.v.req_ports.store_ports[k]; if (!r.valid) continue;
    vc_assert(r.req_id < NS && inside(r.req_id, O.stq_head, O.stq_commit_count, NS), "only a committed store is written");
    if (r.req_id != p) continue;
    sent++;
    vc_assert(o.store_state == SS::Committed && e.store_state == SS::WaitDcacheResp, "a store is written once");
    vc_assert(!o.is_mmio && !o.suppress_write, "a device or cancelled store is not written to memory");
    vc_assert((r.addr & ~3u) == (o.paddr & ~3u), "a store writes its own address");
    for (unsigned b = 0; b < 4; b++) { bool in = b - (o.paddr & 3) < width(o.func3); vc_assert(((r.strb >> b) & 1) == in, "a store writes exactly its bytes"); vc_assert(IMPLIES(in, (uint8_t)(r.data >> (8 * b)) == (uint8_t)(o.data >> (8 * ((b - o.paddr) & 3)))), "a store writes its data"); }
    vc_assert(!(r.strb >> 4), "a store writes one word");
    for (unsigned j = 0; j < 8; j++) if (j < k0) { const StqEntry &q = N.stq[(O.stq_head + j) % NS]; bool over = false; for (unsigned b = 0; b < 4; b++) over = over || (b < width(o.func3) && o.paddr + b - q.paddr < width(q.func3)); vc_assert(IMPLIES(over, q.store_state == SS::Done), "a store waits for older stores to the same bytes"); }
  }
  vc_assert(sent <= 1, "a store is sent once");
  bool unit = N.uncached_unit.valid && !O.uncached_unit.valid;
  vc_assert(IMPLIES(O.uncached_unit.valid, same_bits(&N.uncached_unit, &O.uncached_unit, sizeof(UncachedUnit))), "a device access in progress is not disturbed");
  if (unit) { unsigned h = O.stq_head; const StqEntry &m = O.stq[h]; vc_assert(O.stq_commit_count > 0 && m.is_mmio && m.store_state == SS::Committed && N.stq[h].store_state == SS::WaitMmioResp, "a device store goes out as the oldest committed store"); vc_assert(!N.uncached_unit.is_load && !N.uncached_unit.req_sent && N.uncached_unit.addr == m.paddr && N.uncached_unit.wdata == m.data && N.uncached_unit.func3 == m.func3 && N.uncached_unit.idx == h, "a device store carries its address, data and size"); }
  vc_assert(IMPLIES(sent == 0, e.store_state == o.store_state || (live && o.store_state == SS::Committed && o.suppress_write && !o.is_mmio && e.store_state == SS::Done) || (unit && p == O.stq_head && e.store_state == SS::WaitMmioResp)), "a store not sent keeps its state");
  vc_assert(same_store(e, o), "sending does not change address or data of a store");
  vc_assert(N.stq_head == O.stq_head && N.stq_count == O.stq_count && N.stq_commit_count == O.stq_commit_count, "sending does not remove stores");
  vc_cover("write");
}
VC_DRIVER(lsu_write_done) {
  setup(); arrange(N); vc_loop_queries(0);
  unsigned p = vc_u8("probe") & (NS - 1); auto &R = dc2lsu.v.resp_ports.store_resps;
  for (auto &r : R) { r.req_id &= 31; r.replay = (ReplayType)((unsigned)r.replay & 3); for (auto &q : R) if (&q != &r) vc_assume(!r.valid || !q.valid || r.req_id != q.req_id); }
  remember();
  L.comb_dcache2lsu_stq();
  const StqEntry &e = N.stq[p], &o = O.stq[p]; bool ans = false, hit = false;
  for (auto &r : R) if (r.valid && r.req_id == p && o.store_state == SS::WaitDcacheResp) { ans = true; hit = r.replay == ReplayType::HIT; }
  vc_assert(e.store_state == (!ans ? o.store_state : hit ? SS::Done : SS::Committed), "a store is done exactly when the cache has taken it, and is written again otherwise");
  vc_assert(same_store(e, o), "an answer does not change address or data of a store");
  vc_cover("write done");
}
VC_DRIVER(lsu_retire) {
  setup(); arrange(N); vc_loop_queries(0);
  remember();
  L.comb_check();
  unsigned n = O.stq_count - N.stq_count; bool ok = true;
  vc_assert(n <= O.stq_commit_count && N.stq_commit_count == O.stq_commit_count - n && N.stq_commit == O.stq_commit, "only committed stores leave the queue");
  for (unsigned k = 0; k < NS; k++) ok = ok && IMPLIES(k < n, O.stq[(O.stq_head + k) % NS].store_state == SS::Done);
  vc_assert(ok, "a store leaves the queue only once written, in order");
  vc_assert(IMPLIES(O.stq_commit_count > 0 && O.stq[O.stq_head].store_state == SS::Done, n > 0), "the oldest store leaves once written");
  vc_assert(N.stq_head == (O.stq_head + n) % NS && N.stq_head_flag == (O.stq_head + n >= NS ? !O.stq_head_flag : (bool)O.stq_head_flag), "the head moves past the stores that left");
  unsigned p = vc_u8("probe") & (NS - 1); vc_assert(same_bits(&N.stq[p], &O.stq[p], sizeof(StqEntry)) && same_bits(&N.ldq[p], &O.ldq[p], sizeof(LdqEntry)), "retiring stores changes no entry");
  vc_cover("retire");
}
// results to the execution units
VC_DRIVER(lsu_report_store) {
  setup(); arrange(N); vc_loop_queries(0);
  unsigned p = vc_choose(NS); N.finish_count = 0; for (auto &f : N.finish) f.valid = false;
  for (unsigned i = 0; i < NS; i++) vc_assume(IMPLIES(N.mmu_done_stq[i].valid, N.stq[N.mmu_done_stq[i].stq_idx].store_state == SS::Ready || N.stq[N.mmu_done_stq[i].stq_idx].store_state == SS::PageFault));
  for (unsigned i = 0; i < NS; i++) for (unsigned j = 0; j < i; j++) if (j != p && i == p) vc_assume(N.stq[i].rob_idx != N.stq[j].rob_idx); else if (j == p) vc_assume(N.stq[i].rob_idx != N.stq[j].rob_idx);
  bool resv = L.cur.lrsc_unit.reserve_valid; uint32_t ra = L.cur.lrsc_unit.reserve_addr;
  remember();
  L.comb_lsu2exe();
  const StqEntry &e = N.stq[p], &o = O.stq[p]; int rep = 0; bool waits = in_sdone(O, p) == 1;
  for (unsigned k = 0; k < LSU_STA_COUNT; k++) { auto &w = lsu2exe.sta_wb_req[k]; if (!w.valid || w.uop.rob_idx != o.rob_idx || w.uop.op != UOP_STA) continue; rep++;
    vc_assert(waits && !o.is_lrsc, "only a complete store reports");
    vc_assert(w.uop.page_fault_store == o.page_fault && !w.uop.page_fault_load && IMPLIES(o.page_fault, w.uop.result == o.vaddr && w.uop.diag_val == o.vaddr) && !w.uop.dest_en && w.uop.br_mask == o.br_mask, "a store reports completion or its fault"); }
  for (unsigned k = 0; k < LSU_LDU_COUNT; k++) { auto &w = lsu2exe.wb_req[k]; if (!w.valid || w.uop.rob_idx != o.rob_idx) continue; rep++;
    vc_assert(waits && o.is_lrsc, "only a complete SC reports a result");
    vc_assert(w.uop.page_fault_store == o.page_fault && !w.uop.page_fault_load && IMPLIES(o.page_fault, !w.uop.dest_en && w.uop.diag_val == o.vaddr) && w.uop.br_mask == o.br_mask, "an SC that faults writes no register");
    if (!o.page_fault) { bool pass = resv && ra == o.paddr; vc_assert(w.uop.dest_en && w.uop.dest_preg == o.dest_preg && w.uop.result == (pass ? 0u : 1u), "SC returns 0 exactly when the reservation holds its address"); vc_assert(e.sc_pass == pass && e.suppress_write == !pass, "SC writes memory exactly when it returned 0"); vc_assert(!N.lrsc_unit.reserve_valid, "SC uses up the reservation"); } }
  vc_assert(rep <= 1, "a store reports once");
  vc_assert(IMPLIES(rep == 1, e.store_state == SS::WaitCommit && in_sdone(N, p) == 0), "a store that reported waits for commit");
  vc_assert(IMPLIES(rep == 0, same_bits(&e, &o, sizeof e) && in_sdone(N, p) == in_sdone(O, p)), "a store that did not report is left alone");
  vc_assert(e.paddr == o.paddr && e.data == o.data && e.func3 == o.func3 && e.is_mmio == o.is_mmio && e.is_lrsc == o.is_lrsc && e.rob_idx == o.rob_idx, "reporting does not change address or data");
  vc_assert(IMPLIES(N.lrsc_unit.reserve_valid && !O.lrsc_unit.reserve_valid, false), "stores make no reservation");
  vc_assert(ring_ok(N) && srings_tight(N), "the store queues stay well-formed");
  vc_cover("report store");
}
VC_DRIVER(lsu_report_load) {
  setup(); arrange(N); vc_loop_queries(0);
  unsigned p = vc_choose(NL); N.mmu_done_stq_count = 0; for (auto &f : N.mmu_done_stq) f.valid = false;
  for (unsigned i = 0; i < NL; i++) if (i != p) vc_assume(N.ldq[i].rob_idx != N.ldq[p].rob_idx);
  LS s0 = N.ldq[p].load_state; bool waits = in_fin(N, p) == 1;
  vc_assume(IMPLIES(waits, s0 == LS::Empty || s0 == LS::ReadyToWb || s0 == LS::PageFault)); vc_assume(IMPLIES(waits && s0 != LS::Empty, N.ldq[p].page_fault == (s0 == LS::PageFault)));
  remember();
  L.comb_lsu2exe();
  const LdqEntry &e = N.ldq[p], &o = O.ldq[p]; int rep = 0; bool lr = false;
  for (unsigned k = 0; k < LSU_LDU_COUNT; k++) { auto &w = lsu2exe.wb_req[k]; if (!w.valid || w.uop.rob_idx != o.rob_idx) continue; rep++;
    vc_assert(waits && s0 != LS::Empty && w.uop.op == UOP_LOAD, "only a complete load reports");
    vc_assert(w.uop.page_fault_load == o.page_fault && !w.uop.page_fault_store && w.uop.br_mask == o.br_mask && w.uop.dest_preg == o.dest_preg && w.uop.dest_en, "a load reports to its own register");
    vc_assert(IMPLIES(o.page_fault, w.uop.result == o.diag_val && w.uop.diag_val == o.diag_val), "a load that faults reports the address");
    vc_assert(IMPLIES(!o.page_fault, w.uop.result == o.result), "a load reports the value it read");
    lr = o.is_lrsc && !o.page_fault; }
  for (unsigned k = 0; k < LSU_STA_COUNT; k++) vc_assert(!lsu2exe.sta_wb_req[k].valid, "no store reports without being complete");
  vc_assert(rep <= 1, "a load reports once");
  vc_assert(IMPLIES(rep == 1, e.load_state == LS::Empty && in_fin(N, p) == 0), "a load that reported frees its entry");
  vc_assert(IMPLIES(rep == 0, e.load_state == s0 && same_load(e, o) && e.result == o.result && IMPLIES(waits && s0 != LS::Empty, in_fin(N, p) == 1)), "a load that did not report is left alone");
  if (lr) { bool other = false; for (unsigned i = 0; i < NL; i++) if (i != p) other = other || (O.ldq[i].is_lrsc && in_fin(O, i) == 1); vc_assert(IMPLIES(!other, N.lrsc_unit.reserve_valid && N.lrsc_unit.reserve_addr == o.p_addr && N.lrsc_unit.reserve_br_mask == o.br_mask), "LR reserves its address"); }
  bool any = false; for (unsigned i = 0; i < NL; i++) any = any || (O.ldq[i].is_lrsc && !O.ldq[i].page_fault && in_fin(O, i) == 1);
  vc_assert(IMPLIES(!any, same_bits(&N.lrsc_unit, &O.lrsc_unit, sizeof(LrScUnit))), "only LR changes the reservation");
  vc_assert(ring_ok(N) && rings_tight(N), "the load queues stay well-formed");
  vc_cover("report load");
}
// device accesses
VC_DRIVER(lsu_device) {
  setup(); arrange(N); vc_loop_queries(0); L.cur.uncached_unit.idx &= NL - 1; vc_assume(same_bits(&L.cur.uncached_unit, &N.uncached_unit, sizeof(UncachedUnit)));
  unsigned p = vc_u8("probe") & (NL - 1);
  remember();
  L.comb_mmio_in();
  const UncachedUnit &u = O.uncached_unit; bool ans = presp.is_mmio && u.valid && u.req_sent;
  bool lm = ans && u.is_load && u.idx == p && O.ldq[p].load_state == LS::WaitMmioResp && O.finish_count < NL, sm = ans && !u.is_load && u.idx == p && O.stq[p].store_state == SS::WaitMmioResp;
  vc_assert(IMPLIES(lm, N.ldq[p].load_state == LS::ReadyToWb && N.ldq[p].result == presp.mmio_rdata && same_load(N.ldq[p], O.ldq[p]) && in_fin(N, p) == in_fin(O, p) + 1), "a device load returns the answer to its request");
  vc_assert(IMPLIES(!lm, same_bits(&N.ldq[p], &O.ldq[p], sizeof(LdqEntry))), "other loads are not touched by the answer");
  vc_assert(IMPLIES(sm, N.stq[p].store_state == SS::Done && same_store(N.stq[p], O.stq[p])), "a device store is done when answered");
  vc_assert(IMPLIES(!sm, same_bits(&N.stq[p], &O.stq[p], sizeof(StqEntry))), "other stores are not touched by the answer");
  vc_assert(IMPLIES(!ans, N.uncached_unit.valid == u.valid), "a device access waits for its answer");
  vc_assert(IMPLIES(ans && (!u.is_load || O.finish_count < NL), !N.uncached_unit.valid), "an answered device access is over");
  bool valid = N.uncached_unit.valid; UncachedUnit v = N.uncached_unit;
  L.comb_mmio_out();
  vc_assert(preq.is_mmio == (valid && !v.req_sent && presp.ready), "a request goes out once, when a device access waits and the bus is ready");
  vc_assert(IMPLIES(valid, N.uncached_unit.valid && (bool)N.uncached_unit.req_sent == (v.req_sent || preq.is_mmio)), "a request sent is remembered");
  vc_assert(IMPLIES(preq.is_mmio, preq.wen == !v.is_load && preq.mmio_addr == v.addr && preq.mmio_fun3 == v.func3 && IMPLIES(!v.is_load, preq.mmio_wdata == v.wdata)), "a device request carries the address, size and data of the access");
  vc_cover("device");
}
// flush and branch misprediction
VC_DRIVER(lsu_flush) {
  setup(); arrange(N); vc_loop_queries(0);
  unsigned p = vc_u8("probe") & (NL - 1); rbc.flush = 1; L.cur.stq_head &= NS - 1; L.cur.stq_count = 0;
  dbc.mispred = 0; dbc.clear_mask = 0;
  remember();
  L.comb_flush();
  vc_assert(N.ldq[p].load_state == LS::Empty, "a flush removes every load");
  vc_assert(N.stq_head == O.stq_head && N.stq_count == O.stq_commit_count && N.stq_commit_count == O.stq_commit_count && N.stq_commit == (O.stq_head + O.stq_commit_count) % NS && N.stq_head_flag == O.stq_head_flag, "a flush keeps exactly the committed stores");
  vc_assert(same_bits(&N.stq[p], &O.stq[p], sizeof(StqEntry)), "a flush does not alter committed stores");
  vc_assert(in_mmu(N, p) == 0 && in_stlf(N, p) == 0 && in_dc(N, p) == 0 && in_fin(N, p) == 0 && in_smmu(N, p) == 0 && in_sdone(N, p) == 0 && N.wait_mmu_ldq_count == 0 && N.wait_mmu_stq_count == 0 && N.mmu_done_stq_count == 0 && N.finish_count == 0 && N.wait_dcache_ldq_count == 0 && N.stlf_queue_count == 0, "a flush empties every queue of uncommitted work");
  const UncachedUnit &u = O.uncached_unit; bool keep = u.valid && !u.is_load && inside(u.idx, O.stq_head, O.stq_commit_count, NS) && O.stq[u.idx & (NS - 1)].store_state == SS::WaitMmioResp;
  vc_assert(N.uncached_unit.valid == keep && IMPLIES(keep, same_bits(&N.uncached_unit, &u, sizeof u)), "a committed device store in progress survives a flush, a device load does not");
  vc_cover("flush");
}
VC_DRIVER(lsu_squash) {
  setup(); arrange(N); vc_loop_queries(0); memcpy((void *)&L.cur, (void *)&N, sizeof N);
  unsigned p = vc_choose(NL); rbc.flush = 0; mask_t kill = dbc.br_mask, clear = dbc.clear_mask; bool mp = dbc.mispred;
  // a store younger than one on the wrong path is on the wrong path; committed stores are not
  for (unsigned k = 0; k + 1 < NS; k++) vc_assume(IMPLIES(k + 1 < N.stq_count && (N.stq[(N.stq_head + k) % NS].br_mask & kill), (N.stq[(N.stq_head + k + 1) % NS].br_mask & kill) != 0));
  for (unsigned k = 0; k < NS; k++) vc_assume(IMPLIES(k < N.stq_commit_count, !(N.stq[(N.stq_head + k) % NS].br_mask & kill)));
  remember();
  L.comb_flush();
  const LdqEntry &e = N.ldq[p], &o = O.ldq[p]; bool dead = mp && (o.br_mask & kill);
  vc_assert(e.load_state == (dead ? LS::Empty : o.load_state), "exactly the loads on the wrong path are removed");
  vc_assert(IMPLIES(o.load_state != LS::Empty, e.br_mask == (o.br_mask & (mask_t)~clear)), "resolved branches are cleared from every load");
  vc_assert(e.v_addr == o.v_addr && e.p_addr == o.p_addr && e.func3 == o.func3 && e.result == o.result && e.rob_idx == o.rob_idx && e.dest_preg == o.dest_preg && e.stq_snapshot.idx == o.stq_snapshot.idx && e.stq_snapshot.flag == o.stq_snapshot.flag && e.is_mmio == o.is_mmio && e.page_fault == o.page_fault && e.is_lrsc == o.is_lrsc, "surviving loads are unchanged");
  bool gone = e.load_state == LS::Empty;
  #define KEPT(f) (f(N, p) == (mp && gone ? 0 : f(O, p)))
  vc_assert(KEPT(in_mmu) && KEPT(in_stlf) && KEPT(in_dc) && KEPT(in_fin), "loads on the wrong path leave every queue, others stay");
  const StqEntry &se = N.stq[p], &so = O.stq[p]; bool sdead = mp && (so.br_mask & kill), was = live_store(O, p);
  vc_assert(live_store(N, p) == (was && !sdead), "exactly the stores on the wrong path are removed");
  vc_assert(IMPLIES(was, se.br_mask == (so.br_mask & (mask_t)~clear)), "resolved branches are cleared from every store");
  vc_assert(se.paddr == so.paddr && se.data == so.data && se.func3 == so.func3 && se.store_state == so.store_state && se.data_valid == so.data_valid && se.paddr_valid == so.paddr_valid && se.suppress_write == so.suppress_write && se.is_lrsc == so.is_lrsc && se.rob_idx == so.rob_idx, "surviving stores are unchanged");
  bool salive = live_store(N, p);
  vc_assert(in_smmu(N, p) == (mp && !salive ? 0 : in_smmu(O, p)) && in_sdone(N, p) == (mp && !salive ? 0 : in_sdone(O, p)), "stores on the wrong path leave every queue, others stay");
  vc_assert(N.stq_head == O.stq_head && N.stq_commit_count == O.stq_commit_count && N.stq_commit == O.stq_commit, "committed stores survive a misprediction");
  const UncachedUnit &u = O.uncached_unit; bool ukeep = u.valid && !(mp && (u.is_load ? N.ldq[u.idx].load_state == LS::Empty : !live_store(N, u.idx)));
  vc_assert(N.uncached_unit.valid == ukeep, "a device access is dropped exactly with its instruction");
  const LrScUnit &r = O.lrsc_unit;
  vc_assert(N.lrsc_unit.reserve_valid == (r.reserve_valid && !(mp && (r.reserve_br_mask & kill))), "a reservation made on the wrong path is dropped, others stay");
  vc_assert(IMPLIES(N.lrsc_unit.reserve_valid, N.lrsc_unit.reserve_addr == r.reserve_addr && N.lrsc_unit.reserve_br_mask == (r.reserve_br_mask & (mask_t)~clear)), "a surviving reservation is unchanged");
  vc_cover("squash");
}
