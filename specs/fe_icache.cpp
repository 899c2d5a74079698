// Contract of one instruction-cache cycle (icache.cpp, ICacheTop.cpp, icache_module.cpp): what is
// delivered, which request stays pending, what is written to the cache, which transactions are
// remembered, for arbitrary cache contents, translations and memory answers. The storage tables and
// the translator are replaced by their contracts (the row stored at the address asked for; any
// translation of the page asked for).
#include "vc.h"
#include "front_IO.h"
#include "icache/include/ICacheTop.h"
#include "icache/include/icache_module.h"
#include "AXI_Interconnect_IO.h"
#include "icache/GenericTable.h"
#include "FrontTop.h"
#include "TlbMmu.h"
#include "Csr.h"
#include <cstring>
using namespace icache_module_n;
long long sim_time;
extern ICache icache;
extern axi_interconnect::ReadMasterPort_t *icache_mem_read_port;
extern ICacheMemPortReq *icache_mem_req_port;
extern ICacheMemPortResp *icache_mem_resp_port;
void icache_set_context(SimContext *ctx);
void icache_peek_ready(struct icache_in *in, struct icache_out *out);
void icache_comb_calc(struct icache_in *in, struct icache_out *out);
uint32_t pmem_read(uint32_t) { return 0; }
typedef GenericTable<ICACHE_SET_NUM, ICACHE_WAY_NUM, ICACHE_LINE_SIZE * 8, RegfileTablePolicy> DT;
typedef GenericTable<ICACHE_SET_NUM, ICACHE_WAY_NUM, ICACHE_TAG_BITS, RegfileTablePolicy> TT;
typedef GenericTable<ICACHE_SET_NUM, ICACHE_WAY_NUM, 1, RegfileTablePolicy> VT;
enum { W = ICACHE_WAY_NUM, N = ICACHE_LINE_SIZE / 4 };
static uint32_t row, rdata[W][N], rtag[W]; static bool rval[W], rasked;
static int dwr, twr, vwr, vreset, treset, dreset; static bool late;
static DT::WriteReq dw; static TT::WriteReq tw; static VT::WriteReq vw;
extern "C" void d_comb(const DT *, const DT::ReadReq &q, DT::ReadResp &r) { r = {}; r.valid = q.enable; if (q.enable) { vc_assert(q.address == row, "reads_the_row_of_the_request"); for (int w = 0; w < W; w++) for (int k = 0; k < N; k++) r.payload.chunks[w][k] = rdata[w][k]; } }
extern "C" void t_comb(const TT *, const TT::ReadReq &q, TT::ReadResp &r) { r = {}; r.valid = q.enable; if (q.enable) { vc_assert(q.address == row, "reads_the_row_of_the_request"); for (int w = 0; w < W; w++) r.payload.chunks[w][0] = rtag[w]; } }
extern "C" void v_comb(const VT *, const VT::ReadReq &q, VT::ReadResp &r) { r = {}; r.valid = q.enable; if (q.enable) { vc_assert(q.address == row, "reads_the_row_of_the_request"); for (int w = 0; w < W; w++) r.payload.chunks[w][0] = rval[w]; } }
extern "C" void d_seq(DT *, const DT::ReadReq &, const DT::WriteReq &w) { dw = w; dwr++; }
extern "C" void t_seq(TT *, const TT::ReadReq &, const TT::WriteReq &w) { tw = w; twr++; }
extern "C" void v_seq(VT *, const VT::ReadReq &, const VT::WriteReq &w) { vw = w; vwr++; }
extern "C" void d_reset(DT *) { dreset++; }
extern "C" void t_reset(TT *) { treset++; }
extern "C" void v_reset(VT *) { vreset++; late = vwr != 0; }
static int asked, flushes, cancels, tresult; static uint32_t tva, tpa, ttype; static CsrStatusIO *tcsr; static bool flush_late;
extern "C" TlbMmu::Result tlb_translate(TlbMmu *, uint32_t &pa, uint32_t va, uint32_t type, CsrStatusIO *c) { asked++; tva = va; ttype = type; tcsr = c; if (tresult == 0) pa = (tpa << 12) | (va & 0xfff); return (TlbMmu::Result)tresult; }
extern "C" void tlb_flush(TlbMmu *) { flushes++; flush_late = asked != 0; }
extern "C" void tlb_cancel(TlbMmu *) { cancels++; }
extern "C" void tlb_seq(TlbMmu *) {}

static icache_in in; static icache_out out; static axi_interconnect::ReadMasterPort_t port; static ICacheMemPortReq pq; static ICacheMemPortResp pr;
static Raw<SimContext> ctx; static Raw<CsrStatusIO> csr;
static uint32_t M[N], L[N]; // what memory holds, and what the newest copy of the line holds
static uint32_t set_of(uint32_t pc) { return (pc >> ICACHE_OFFSET_BITS) & (ICACHE_SET_NUM - 1); }
static bool line_eq(const uint32_t *a, const uint32_t *b) { bool r = true; for (int k = 0; k < N; k++) r = r & (a[k] == b[k]); return r; }
static bool absent(uint32_t ppn) { bool r = true; for (int w = 0; w < W; w++) r = r & !(rval[w] & (rtag[w] == ppn)); return r; }
// what holds of the cache's registers between cycles
static bool inv(const ICache_regs_t &r, bool all) {
  bool ok = r.state == IDLE || r.state == SWAP_IN || r.state == WAIT_DCACHE_AFTER_MEM || r.state == CANCEL_WAIT_ACCEPT;
  ok = ok & !r.lookup_pending_r & (r.req_index_r == set_of(r.req_pc_r)) & ((r.req_pc_r & 3) == 0) & (r.replace_idx < W) & (r.dcache_probe_word_r < N);
  ok = ok & IMPLIES(r.mem_axi_state == AXI_BUSY, r.state == SWAP_IN) & (r.mem_axi_state <= AXI_BUSY);
  ok = ok & (r.miss_txid_valid_r == (r.state == SWAP_IN || r.state == CANCEL_WAIT_ACCEPT)) & (r.miss_txid_r < 16);
  ok = ok & IMPLIES(r.state == SWAP_IN || r.state == WAIT_DCACHE_AFTER_MEM, r.req_valid_r) & IMPLIES(r.state == CANCEL_WAIT_ACCEPT, !r.req_valid_r);
  ok = ok & IMPLIES(r.ifu_req_ready_r, !r.req_valid_r);
  for (int i = 0; i < 16; i++) {
    bool mine = r.miss_txid_valid_r && r.miss_txid_r == i;
    ok = ok & IMPLIES(r.txid_canceled_r[i], r.txid_inflight_r[i] && !mine);
    ok = ok & IMPLIES(r.txid_inflight_r[i] && !r.txid_canceled_r[i], mine && r.mem_axi_state == AXI_BUSY);
    ok = ok & IMPLIES(mine && r.mem_axi_state == AXI_BUSY, r.txid_inflight_r[i]);
  }
  if (!all) return ok;
  bool miss = r.state == SWAP_IN || r.state == WAIT_DCACHE_AFTER_MEM;
  for (int k = 0; k < N; k++) ok = ok & IMPLIES(miss && (k < r.dcache_probe_word_r || (r.dcache_probe_done_r && r.dcache_probe_hit_r)), r.dcache_probe_data_r[k] == L[k]);
  ok = ok & IMPLIES(miss && r.dcache_probe_done_r, !r.dcache_probe_inflight_r) & IMPLIES(miss && r.dcache_probe_done_r && !r.dcache_probe_hit_r, line_eq(M, L));
  ok = ok & IMPLIES(r.state == WAIT_DCACHE_AFTER_MEM, line_eq(r.mem_resp_data_r, M));
  return ok;
}

VC_DRIVER(ic_cycle) {
#ifndef VC_NATIVE
  uint32_t st = vc_choose(6);
  vc_havoc(&in, sizeof in, "in"); in.reset = in.reset & 1; in.refetch &= 1; in.itlb_flush &= 1; in.fence_i &= 1; in.invalidate_req &= 1; in.icache_read_valid &= 1;
  in.reset = st == 5; in.fetch_address &= ~3u; in.icache_read_valid_2 = false; in.csr_status = &csr.v;
  vc_havoc(&out, sizeof out, "out"); vc_havoc(&port, sizeof port, "port"); port.req.ready &= 1; port.req.accepted &= 1; port.resp.valid &= 1; port.resp.id &= 15; port.req.accepted_id &= 15;
  vc_havoc(&pr, sizeof pr, "probe"); pr.resp_valid &= 1; pr.resp_miss &= 1;
  vc_havoc(rdata, sizeof rdata, "line"); for (int w = 0; w < W; w++) { rtag[w] = vc_u32("tag") & 0xfffff; rval[w] = vc_bool("val"); }
  for (int w = 0; w < W; w++) for (int v = 0; v < w; v++) vc_assume(!(rval[w] && rval[v] && rtag[w] == rtag[v]));
  vc_havoc(M, sizeof M, "mem"); vc_havoc(L, sizeof L, "newest");
  tresult = vc_u8("translation") % 3; tpa = vc_u32("ppn") & 0xfffff;
  ICache_regs_t &r = icache.io.regs; ICache_regs_t r0;
  vc_havoc(&r, sizeof r, "regs");
  r.req_valid_r &= 1; r.ifu_req_ready_r &= 1; r.miss_txid_valid_r &= 1; r.miss_txid_r &= 15; r.miss_ready_seen_r &= 1; r.dcache_probe_inflight_r &= 1; r.dcache_probe_done_r &= 1; r.dcache_probe_hit_r &= 1; r.dcache_probe_word_r &= N - 1; r.replace_idx &= W - 1; r.ppn_r &= 0xfffff; r.req_pc_r &= ~3u; r.req_index_r = set_of(r.req_pc_r); r.lookup_pending_r = false; r.lookup_pc_r = r.lookup_index_r = 0;
  for (int i = 0; i < 16; i++) { r.txid_inflight_r[i] &= 1; r.txid_canceled_r[i] &= 1; }
  r.state = st == 0 || st == 5 ? IDLE : st == 1 || st == 2 ? SWAP_IN : st == 3 ? WAIT_DCACHE_AFTER_MEM : CANCEL_WAIT_ACCEPT; r.mem_axi_state = st == 2 ? AXI_BUSY : AXI_IDLE;
  vc_assume(inv(r, true));
  if (st == 5) r.req_valid_r = vc_bool("rv");
  r0 = r;
  bool miss = r0.state == SWAP_IN || r0.state == WAIT_DCACHE_AFTER_MEM, cancel = in.refetch || in.fence_i || in.invalidate_req;
  uint8_t tx = r0.miss_txid_r;
  // the missing line is not in the cache
  if (miss) vc_assume(absent(r0.ppn_r));
  // memory: acceptance and answer of the transaction in progress; the data cache answers the word asked for
  bool acc = port.req.accepted && r0.miss_txid_valid_r && port.req.accepted_id == tx && r0.mem_axi_state == AXI_IDLE;
  if (r0.mem_axi_state == AXI_BUSY || acc) if (port.resp.valid && port.resp.id == tx) for (int k = 0; k < N; k++) vc_assume(port.resp.data[k] == M[k]);
  if (r0.dcache_probe_inflight_r && pr.resp_valid) { if (pr.resp_miss) vc_assume(line_eq(M, L)); else for (int k = 0; k < N; k++) vc_assume(IMPLIES(r0.dcache_probe_word_r == k, pr.resp_data == L[k])); }
  icache_set_context(&ctx.v); icache_mem_read_port = &port; icache_mem_req_port = &pq; icache_mem_resp_port = &pr;
  vc_replace(vc_fn(&DT::comb), (const void *)&d_comb); vc_replace(vc_fn(&TT::comb), (const void *)&t_comb); vc_replace(vc_fn(&VT::comb), (const void *)&v_comb);
  vc_replace(vc_fn(&DT::seq), (const void *)&d_seq); vc_replace(vc_fn(&TT::seq), (const void *)&t_seq); vc_replace(vc_fn(&VT::seq), (const void *)&v_seq);
  vc_replace(vc_fn(&DT::reset), (const void *)&d_reset); vc_replace(vc_fn(&TT::reset), (const void *)&t_reset); vc_replace(vc_fn(&VT::reset), (const void *)&v_reset);
  vc_replace(vc_fn(&TlbMmu::translate), (const void *)&tlb_translate); vc_replace(vc_fn(&TlbMmu::flush), (const void *)&tlb_flush); vc_replace(vc_fn(&TlbMmu::cancel_pending_walk), (const void *)&tlb_cancel); vc_replace(vc_fn(&TlbMmu::seq), (const void *)&tlb_seq);

  // the front end asks only when the cache says it is ready
  icache_in pin = in; pin.icache_read_valid = false; icache_out pout = out;
  icache_peek_ready(&pin, &pout);
  bool ready = pout.icache_read_ready;
  vc_assert(!pout.icache_read_complete && !pout.icache_read_complete_2, "asking_for_room_delivers_nothing");
  vc_assert(IMPLIES(ready && st != 5, !r0.req_valid_r && r0.state == IDLE && !in.fence_i && !in.invalidate_req), "ready_only_without_a_pending_request");
  if (!ready) in.icache_read_valid = false;
  uint32_t pc = r0.req_valid_r ? r0.req_pc_r : in.fetch_address; row = set_of(pc);
  icache_in in0 = in;
  icache_comb_calc(&in, &out);
  vc_unreplace();
  const ICache_regs_t &n = icache.io.regs;
  bool done = out.icache_read_complete, req = r0.req_valid_r || in0.icache_read_valid;
  vc_assert(!out.icache_read_complete_2 && !out.icache_read_ready_2, "one_group_at_a_time");
  if (st == 5) {
    vc_cover("reset");
    vc_assert(vreset && !done && !late && !vw.enable && !port.req.valid && !pq.req_valid && flushes, "reset_empties_the_cache");
    vc_assert(!n.req_valid_r && n.state == IDLE && !n.miss_txid_valid_r && n.mem_axi_state == AXI_IDLE, "reset_drops_requests");
    return;
  }
  vc_assert(IMPLIES(done, !cancel && req), "answers_only_a_pending_request");
  vc_assert(IMPLIES(done, out.fetch_pc == pc), "answers_with_the_requested_address");
  // translation: the page of the request, as a fetch, under the current control state
  vc_assert(IMPLIES(asked, asked == 1 && (tva >> 12) == (pc >> 12) && ttype == 0 && tcsr == in0.csr_status && !in0.refetch), "translates_the_page_of_the_request");
  vc_assert(IMPLIES(in0.itlb_flush, flushes && !flush_late) && IMPLIES(in0.refetch, cancels), "flush_and_cancel_reach_the_translator");
  bool fault = asked && tresult == 1, ok = asked && tresult == 0;
  uint32_t base = (pc & (ICACHE_LINE_SIZE - 1)) / 4;
  if (r0.state == IDLE) {
    vc_assert(IMPLIES(done, asked && tresult != 2), "no_answer_without_translation");
    uint32_t hit[N]; bool h = false; for (int k = 0; k < N; k++) hit[k] = 0;
    for (int w = 0; w < W; w++) { bool m = rval[w] && rtag[w] == tpa; h = h || m; for (int k = 0; k < N; k++) hit[k] |= m ? rdata[w][k] : 0; }
    vc_assert(IMPLIES(req && !cancel && ok && h, done) && IMPLIES(req && !cancel && fault, done), "hit_or_fault_answers");
    vc_assert(IMPLIES(done && ok, h), "miss_is_not_answered");
    for (int i = 0; i < FETCH_WIDTH; i++) {
      bool inl = base + i < N; uint32_t w = 0; for (int k = 0; k < N; k++) w |= base + i == (uint32_t)k ? hit[k] : 0;
      vc_assert(IMPLIES(done, out.inst_valid[i] == inl && out.page_fault_inst[i] == (inl && fault)), "lanes_inside_the_line_are_valid");
      vc_assert(IMPLIES(done && inl && ok, out.fetch_group[i] == w), "hit_delivers_the_cached_words");
    }
    vc_assert(!(vw.enable || dw.enable || tw.enable), "hit_changes_no_line");
    vc_assert(!port.req.valid && !pq.req_valid, "no_memory_request_before_the_miss_is_recorded");
    vc_assert(IMPLIES(n.state == SWAP_IN, !cancel && ok && !h && r0.req_valid_r && n.ppn_r == tpa && !r0.txid_inflight_r[n.miss_txid_r & 15]), "miss_remembers_page_and_free_transaction");
    vc_assert(n.state == IDLE || n.state == SWAP_IN, "idle_successors");
    vc_assert(IMPLIES(n.state == SWAP_IN, !n.dcache_probe_inflight_r && !n.dcache_probe_done_r && n.dcache_probe_word_r == 0), "miss_starts_a_fresh_probe");
    vc_cover("idle");
  } else {
    for (int i = 0; i < FETCH_WIDTH; i++) {
      bool inl = base + i < N; uint32_t w = 0; for (int k = 0; k < N; k++) w |= base + i == (uint32_t)k ? L[k] : 0;
      vc_assert(IMPLIES(done, out.inst_valid[i] == inl && !out.page_fault_inst[i]), "lanes_inside_the_line_are_valid");
      vc_assert(IMPLIES(done && inl, out.fetch_group[i] == w), "refill_delivers_the_newest_words");
    }
    vc_assert(IMPLIES(done, miss), "only_a_miss_is_refilled");
    bool wr = vw.enable || dw.enable || tw.enable;
    vc_assert(IMPLIES(wr, miss && !cancel && vw.enable && dw.enable && tw.enable && vw.address == row && dw.address == row && tw.address == row), "refill_writes_the_row_of_the_request");
    bool any = false, okw = true;
    for (int w = 0; w < W; w++) {
      bool e = vw.chunk_enable[w]; okw = okw & (dw.chunk_enable[w] == e) & (tw.chunk_enable[w] == e) & !(any & e); any = any | e;
      okw = okw & IMPLIES(e, vw.payload.chunks[w][0] == 1 && tw.payload.chunks[w][0] == r0.ppn_r);
      bool l = true; for (int k = 0; k < N; k++) l = l & (dw.payload.chunks[w][k] == L[k]);
      vc_assert(IMPLIES(wr && e, l), "refill_stores_the_newest_words");
    }
    vc_assert(IMPLIES(wr, okw && any), "refill_writes_one_way_with_its_tag");
    vc_assert(IMPLIES(done, wr), "refilled_line_is_kept");
    uint32_t line = (r0.ppn_r << 12) | (row << ICACHE_OFFSET_BITS);
    vc_assert(IMPLIES(port.req.valid, st == 1 && port.req.addr == line && port.req.total_size == ICACHE_LINE_SIZE - 1 && port.req.id == tx && !r0.txid_inflight_r[tx]), "memory_is_asked_for_the_missing_line");
    vc_assert(IMPLIES(st == 1 && !cancel && !acc, port.req.valid), "miss_asks_memory");
    vc_assert(IMPLIES(pq.req_valid, miss && !r0.dcache_probe_inflight_r && !r0.dcache_probe_done_r && pq.req_addr == line + 4 * r0.dcache_probe_word_r), "data_cache_is_asked_for_the_missing_word");
    vc_assert(IMPLIES(pq.req_valid && !cancel, n.dcache_probe_inflight_r), "asked_word_is_awaited");
    vc_assert(IMPLIES(miss && !cancel && !done, n.state == SWAP_IN || n.state == WAIT_DCACHE_AFTER_MEM) && IMPLIES(miss && !cancel && !done, n.ppn_r == r0.ppn_r), "miss_is_kept_until_refilled");
    vc_cover("miss");
  }
  // the request slot
  vc_assert(IMPLIES(cancel, !n.req_valid_r), "cancel_drops_the_request");
  vc_assert(IMPLIES(!cancel && req, done ? !n.req_valid_r : n.req_valid_r && n.req_pc_r == pc), "request_is_kept_until_answered");
  vc_assert(IMPLIES(!req, !n.req_valid_r), "no_request_invented");
  // transactions: never forgotten while outstanding, never delivered after a cancel
  bool take = port.resp.valid && port.resp.ready;
  for (int i = 0; i < 16; i++) {
    bool outst = r0.txid_inflight_r[i] || (acc && tx == i), ans = take && port.resp.id == i;
    vc_assert(IMPLIES(outst && !ans, n.txid_inflight_r[i]), "outstanding_transaction_is_remembered");
    vc_assert(IMPLIES(ans, !n.txid_inflight_r[i] && !n.txid_canceled_r[i]), "answered_transaction_is_retired");
    vc_assert(IMPLIES(r0.txid_canceled_r[i] && !ans, n.txid_canceled_r[i]), "cancelled_transaction_stays_cancelled");
    vc_assert(IMPLIES(cancel && outst && !ans, n.txid_canceled_r[i]), "cancel_marks_the_outstanding_transaction");
  }
  vc_assert(IMPLIES(port.resp.valid && r0.txid_canceled_r[port.resp.id], port.resp.ready), "cancelled_answer_is_drained");
  vc_assert(IMPLIES(in0.fence_i, vreset) && IMPLIES(vreset, !late && !vw.enable && (in0.fence_i || !done)), "fence_i_empties_the_cache");
  vc_assert(inv(n, false), "invariant_control");
  if (!(cancel || done) && miss) { vc_assert(inv(n, true), "invariant_line"); }
#endif
}

// storage: a write changes exactly the enabled ways of one row, a read returns the row asked for, a
// reset leaves nothing set
template <class T, int K> static void table() {
  static Raw<T> t; static typename T::Payload p0, q0; typename T::ReadReq rq, none{}; typename T::ReadResp rs; typename T::WriteReq w;
  uint32_t a = vc_u8("row") & (ICACHE_SET_NUM - 1), b = vc_u8("other") & (ICACHE_SET_NUM - 1);
  if (K > 1) { a = vc_choose(3); a = a == 0 ? 0 : a == 1 ? 37 : ICACHE_SET_NUM - 1; b = vc_choose(3); b = b == 0 ? a : b == 1 ? a ^ 1 : a ^ (ICACHE_SET_NUM / 2); }
  vc_havoc(&t, sizeof t, "table"); vc_havoc(&w, sizeof w, "write"); w.enable &= 1; w.address = a; for (int i = 0; i < W; i++) w.chunk_enable[i] &= 1;
  rq.enable = true; rq.address = b; t.v.comb(rq, rs); p0 = rs.payload;
  vc_assert(rs.valid, "read_answers");
  rq.enable = false; t.v.comb(rq, rs); vc_assert(!rs.valid, "no_read_no_answer");
  if (vc_choose(2)) {
    t.v.seq(none, w); rq.enable = true; t.v.comb(rq, rs);
    for (int i = 0; i < W; i++) { bool ok = true; for (int k = 0; k < K; k++) ok = ok & (rs.payload.chunks[i][k] == (a == b && w.enable && w.chunk_enable[i] ? w.payload.chunks[i][k] : p0.chunks[i][k])); vc_assert(ok, "read_returns_last_write"); }
    vc_cover("write");
  } else {
    t.v.reset(); rq.enable = true; t.v.comb(rq, rs);
    bool ok = true; for (int i = 0; i < W; i++) for (int k = 0; k < K; k++) ok = ok & (rs.payload.chunks[i][k] == 0); vc_assert(ok, "reset_clears_the_row");
  }
}
VC_DRIVER(ic_table_tag) { table<TT, 1>(); }
VC_DRIVER(ic_table_valid) { table<VT, 1>(); }
VC_DRIVER(ic_table_data) { table<DT, N>(); }
