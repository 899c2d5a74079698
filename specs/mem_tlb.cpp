// Contracts of address translation in the pipeline: the translation buffers (TlbMmu.cpp), the
// shared page-table walker (MemPtwBlock.h) and the local walker (PtwWalker.cpp). One virtual
// page of one address space is tracked: `leaf` is what the page tables in memory say about it.
#include "vc.h"
#include "TlbMmu.h"
#include "MemPtwBlock.h"
#include "PtwMemPort.h"
#include "priv_spec.h"
long long sim_time;
typedef TlbMmu::Result Res;
struct Leaf { bool fault, level; uint32_t pte; };
static Leaf leaf; static uint32_t VA, SATP;
static uint32_t asid_of(uint32_t satp) { return (satp >> 22) & 0x1ff; }
static void choose_page() {
  VA = vc_u32("va"); SATP = vc_u32("satp");
  leaf.fault = vc_bool("leaf_fault"); leaf.level = vc_bool("leaf_level"); leaf.pte = vc_u32("leaf_pte") & ~0x300u; // software bits are not kept
  vc_assume(leaf.fault || (!priv::pte_bad(leaf.pte) && priv::pte_leaf(leaf.pte) && (!leaf.level || ((leaf.pte >> 10) & 0x3ff) == 0)));
}
// The walker side of the port: what a walk request gets back.
struct WalkPort : PtwWalkPort {
  bool ready, answered, sent, taken, flushed; PtwWalkResp answer; PtwWalkReq request;
  bool send_walk_req(const PtwWalkReq &r) override { if (!ready || sent) return false; sent = true; request = r; ready = false; answered = false; return true; }
  bool resp_valid() const override { return answered; }
  PtwWalkResp resp() const override { return answer; }
  PtwWalkPortCombOut comb_output() const override { PtwWalkPortCombOut o{}; o.req_ready = ready; o.resp_valid = answered; o.resp = answer; return o; }
  void consume_resp() override { taken = true; answered = false; }
  void flush_client() override { flushed = true; ready = true; answered = false; }
};
static WalkPort port;
static Raw<TlbMmu> g_tlb;
#define T (g_tlb.v)
// A word the walker found for page `va` of the space `satp`, against the tracked page.
static bool answer_ok(bool fault, bool level, uint32_t pte, uint32_t va, uint32_t satp) {
  bool space = asid_of(satp) == asid_of(SATP), page = (va >> 12) == (VA >> 12), super = (va >> 22) == (VA >> 22);
  if (fault) return !(space && page) || leaf.fault;
  if ((space || (pte & 0x20)) && (page || (level && super))) return !leaf.fault && leaf.level == level && ((leaf.pte ^ pte) & ~0x300u) == 0;
  return true;
}
static bool entry_ok(const TlbMmu::TlbEntry &e) {
  if (!e.valid || !(e.global || e.asid == asid_of(SATP)) || e.vpn1 != (VA >> 22) || !(e.level || e.vpn0 == ((VA >> 12) & 0x3ff))) return true;
  return !leaf.fault && e.level == leaf.level && e.ppn == leaf.pte >> 10 && e.perm == (leaf.pte & 0xff) && e.global == ((leaf.pte & 0x20) != 0);
}
static void any_entry(TlbMmu::TlbEntry &e, const char *n) { vc_havoc(&e, sizeof e, n); e.asid &= 0x1ff; e.vpn1 &= 0x3ff; e.vpn0 &= 0x3ff; e.ppn &= 0x3fffff; vc_assume(entry_ok(e)); }
static void any_walk(TlbMmu::WalkRegs &w, const char *n) { vc_havoc(&w, sizeof w, n); w.type &= 3; w.eff_priv &= 3; vc_assume(!w.active || ((w.satp >> 31) && w.type != 3)); }
static const TlbMmu::WalkRegs &walk() { return T.walk_comb_valid_ ? T.walk_comb_ : T.walk_regs_; }
static bool tables_ok() {
  bool ok = T.tlb_entries_.size() == (size_t)T.tlb_capacity_ && T.repl_ptr_ >= 0 && T.repl_ptr_ < T.tlb_capacity_;
  for (int i = 0; i < (int)T.tlb_entries_.size(); i++) ok = ok && entry_ok(T.tlb_entries_.data()[i]);
  return ok && (!T.refill_comb_.valid || (entry_ok(T.refill_comb_.entry) && T.refill_comb_.slot < T.tlb_capacity_ && T.refill_comb_.next_repl_ptr < T.tlb_capacity_));
}
// A buffer in any state it can be in at the start of a cycle or between two requests of a cycle.
static void boot(TlbMmu::Kind kind, bool shared) {
  new (&g_tlb.v) TlbMmu(nullptr, nullptr, kind == TlbMmu::Kind::ITLB ? ITLB_ENTRIES : DTLB_ENTRIES, kind);
  choose_page();
  for (int i = 0; i < T.tlb_capacity_; i++) any_entry(T.tlb_entries_.data()[i], "entry");
  any_walk(T.walk_regs_, "walk"); any_walk(T.walk_comb_, "walk_comb"); T.walk_comb_valid_ = vc_bool("walk_comb_valid");
  any_entry(T.refill_comb_.entry, "refill"); T.refill_comb_.valid = vc_bool("refill_valid"); T.refill_comb_.slot = vc_u8("refill_slot") & (DTLB_ENTRIES - 1); T.refill_comb_.next_repl_ptr = vc_u8("refill_next") & (DTLB_ENTRIES - 1);
  T.repl_ptr_ = vc_u8("repl") & (DTLB_ENTRIES - 1);
  new (&port) WalkPort();
  port.sent = port.taken = port.flushed = false;
  port.ready = vc_bool("walk_ready"); port.answered = vc_bool("walk_answered");
  port.answer.fault = vc_bool("answer_fault"); port.answer.vaddr = vc_u32("answer_va"); port.answer.leaf_level = vc_bool("answer_level"); port.answer.leaf_pte = vc_u32("answer_pte");
  if (shared) T.walk_port = &port;
  // a walk that was sent is under way or answered, and the answer is the walk's
  const TlbMmu::WalkRegs &w = walk();
  bool waiting = w.active && w.req_sent;
  vc_assume(IMPLIES(port.answered, waiting && (port.answer.vaddr >> 12) == (w.v_addr >> 12) && answer_ok(port.answer.fault, port.answer.leaf_level, port.answer.leaf_pte, w.v_addr, w.satp)));
  vc_assume(IMPLIES(port.answered && !port.answer.fault, !priv::pte_bad(port.answer.leaf_pte) && priv::pte_leaf(port.answer.leaf_pte)));
  vc_assume(IMPLIES(!waiting, port.ready) && IMPLIES(waiting && !port.answered, !port.ready));
  vc_assume(tables_ok());
}
static uint32_t prv, mst;
static CsrStatusIO status() {
  CsrStatusIO s{}; prv = vc_u8("priv") & 3; mst = vc_u32("mstatus"); vc_assume(prv != 2 && ((mst >> 11) & 3) != 2);
  s.satp = SATP; s.privilege = prv; s.mstatus = mst; s.sstatus = mst & priv::SMASK; return s;
}
// What the architecture says about an access to the tracked page.
static bool expect(uint32_t va, uint32_t type, uint32_t &pa, bool &bare) {
  uint32_t eff = type == priv::FETCH ? prv : priv::data_priv(mst, prv);
  bare = !priv::translated(SATP, eff);
  pa = bare ? va : leaf.level ? ((leaf.pte >> 20) << 22) | (va & 0x3fffff) : ((leaf.pte >> 10) << 12) | (va & 0xfff);
  return bare || (!leaf.fault && priv::leaf_ok(leaf.pte, type, eff, mst & priv::SUM, mst & priv::MXR));
}
// A translation that must wait has a walk under way, and the walk asked for is the one recorded.
static void check_after(bool waiting_before, const TlbMmu::WalkRegs &before) {
  const TlbMmu::WalkRegs &w = walk();
  bool waiting = w.active && w.req_sent;
  vc_assert(tables_ok(), "tlb_entries_agree_with_page_tables");
  vc_assert(IMPLIES(port.sent, waiting && port.request.vaddr == w.v_addr && port.request.satp == w.satp), "walk_asked_for_is_the_one_recorded");
  vc_assert(IMPLIES(waiting && !port.sent, waiting_before && !port.taken && (w.v_addr >> 12) == (before.v_addr >> 12) && w.satp == before.satp), "walk_waits_for_its_own_request");
  vc_assert(IMPLIES(w.active, w.satp >> 31), "walk_only_when_translating");
  T.seq();
  vc_assert(tables_ok() && !T.refill_comb_.valid && !T.walk_comb_valid_, "tlb_entries_agree_with_page_tables_next_cycle");
  vc_assert((T.walk_regs_.active && T.walk_regs_.req_sent) == waiting, "walk_kept_over_the_cycle");
}
VC_DRIVER(tlb_data) {
  boot(TlbMmu::Kind::DTLB, true);
  static LsuMMUIO req; static MMULsuIO resp;
  vc_havoc(&req, sizeof req, "lsu2mmu"); req.csr_status = status();
  int p = (int)vc_choose(LSU_LDU_COUNT + LSU_STA_COUNT); bool store = p >= LSU_LDU_COUNT;
  MMUReq &q = store ? req.stq_req[p - LSU_LDU_COUNT] : req.ldq_req[p];
  q.valid = true; q.vaddr = VA;
  MMUReq asked = q;
  TlbMmu::WalkRegs w0 = walk(); bool waiting = w0.active && w0.req_sent, quiet = !w0.active;
  T.translate_lsu_ports(req, resp);
  MMUResp &r = store ? resp.stq_resp[p - LSU_LDU_COUNT] : resp.ldq_resp[p];
  uint32_t pa; bool bare, ok = expect(VA, store ? priv::WRITE : priv::READ, pa, bare);
  vc_assert(r.valid, "translation_answered");
  vc_assert(IMPLIES(r.result == MMUResultType::HIT, ok && r.paddr == pa), "translated_address_is_the_page_tables");
  vc_assert(IMPLIES(r.result == MMUResultType::PAGE_FAULT, !ok), "page_fault_only_if_not_permitted");
  vc_assert(IMPLIES(bare, r.result == MMUResultType::HIT), "untranslated_access_never_waits");
  vc_assert(r.entry_idx == asked.entry_idx && r.wait_idx == asked.wait_idx, "translation_answers_its_request");
  vc_assert(IMPLIES(quiet && port.ready && p == 0 && r.result == MMUResultType::MISS, port.sent && (port.request.vaddr >> 12) == (VA >> 12) && port.request.satp == SATP) || port.taken, "miss_starts_a_walk");
  for (int i = 0; i < LSU_LDU_COUNT; i++) vc_assert(IMPLIES(!req.ldq_req[i].valid, !resp.ldq_resp[i].valid), "no_answer_without_request");
  for (int i = 0; i < LSU_STA_COUNT; i++) vc_assert(IMPLIES(!req.stq_req[i].valid, !resp.stq_resp[i].valid), "no_answer_without_request");
  vc_cover("tlb_data");
  check_after(waiting, w0);
}
VC_DRIVER(tlb_fetch) {
  boot(TlbMmu::Kind::ITLB, true);
  CsrStatusIO s = status();
  TlbMmu::WalkRegs w0 = walk(); bool waiting = w0.active && w0.req_sent, answered = port.answered, ready = port.ready;
  uint32_t pa = 0, want; bool bare, ok = expect(VA, priv::FETCH, want, bare);
  Res r = T.translate(pa, VA, priv::FETCH, &s);
  vc_assert(IMPLIES(r == Res::OK, ok && pa == want), "translated_address_is_the_page_tables");
  vc_assert(IMPLIES(r == Res::FAULT, !ok), "page_fault_only_if_not_permitted");
  vc_assert(IMPLIES(bare, r == Res::OK), "untranslated_access_never_waits");
  vc_assert(r == Res::OK || r == Res::FAULT || r == Res::RETRY, "translation_answered");
  vc_assert(IMPLIES(!w0.active && ready && r == Res::RETRY, port.sent && (port.request.vaddr >> 12) == (VA >> 12) && port.request.satp == SATP), "miss_starts_a_walk");
  vc_assert(IMPLIES(answered && (w0.v_addr >> 12) == (VA >> 12) && w0.satp == SATP && !bare, r != Res::RETRY), "answered_walk_ends_the_wait");
  vc_cover("tlb_fetch");
  check_after(waiting, w0);
}
// A fence empties the buffer; a cancelled walk leaves it correct.
VC_DRIVER(tlb_flush) {
  boot(vc_choose(2) ? TlbMmu::Kind::ITLB : TlbMmu::Kind::DTLB, true);
  T.flush();
  vc_assert(port.flushed && !port.sent, "flush_abandons_the_walk");
  T.seq();
  bool none = !T.refill_comb_.valid && !walk().active;
  for (int i = 0; i < T.tlb_capacity_; i++) none = none && !T.tlb_entries_.data()[i].valid;
  vc_assert(none, "fence_empties_the_buffer");
  vc_assert(T.repl_ptr_ >= 0 && T.repl_ptr_ < T.tlb_capacity_ && !T.flush_pending_, "fence_empties_the_buffer_state");
  CsrStatusIO s = status(); uint32_t pa, want; bool bare; expect(VA, priv::FETCH, want, bare);
  port.sent = false;
  vc_assert(IMPLIES(!bare, T.translate(pa, VA, T.kind_ == TlbMmu::Kind::ITLB ? 0 : 1, &s) == Res::RETRY) || T.kind_ != TlbMmu::Kind::ITLB, "nothing_translates_from_before_the_fence");
  vc_cover("tlb_flush");
}
VC_DRIVER(tlb_cancel) {
  boot(vc_choose(2) ? TlbMmu::Kind::ITLB : TlbMmu::Kind::DTLB, true);
  T.cancel_pending_walk();
  vc_assert(port.flushed && !port.sent && !walk().active, "cancel_abandons_the_walk");
  vc_assert(tables_ok(), "tlb_entries_agree_with_page_tables");
  T.seq();
  vc_assert(tables_ok() && !walk().active && !T.refill_comb_.valid, "tlb_entries_agree_with_page_tables_next_cycle");
  vc_cover("tlb_cancel");
}
// ---- the shared walker ----
static Raw<MemPtwBlock> g_ptw;
#define W (g_ptw.v)
typedef MemPtwBlock::WalkState WS; typedef MemPtwBlock::Client Cl;
static uint32_t m1, m2; // the words of the page tables the tracked walk reads
static Leaf walk_result(uint32_t root_word, uint32_t second) {
  Leaf l{false, true, root_word};
  if (priv::pte_bad(root_word) || (priv::pte_leaf(root_word) && ((root_word >> 10) & 0x3ff))) { l.fault = true; return l; }
  if (priv::pte_leaf(root_word)) return l;
  l.level = false; l.pte = second; l.fault = priv::pte_bad(second) || !priv::pte_leaf(second);
  return l;
}
static bool answer_is(const PtwWalkResp &r, const PtwWalkReq &q) {
  Leaf l = walk_result(m1, m2);
  return r.fault == l.fault && (r.vaddr >> 12) == (q.vaddr >> 12) && (l.fault || (r.leaf_level == l.level && ((r.leaf_pte ^ l.pte) & ~0x300u) == 0));
}
static bool waits(WS s) { return s == WS::L1_WAIT_RESP || s == WS::L2_WAIT_RESP; }
static bool ptw_ok(const MemPtwBlock::State &s, int c) {
  const MemPtwBlock::WalkClientState &w = s.walk_clients[c];
  bool mine = s.walk_active && (int)s.walk_owner == c;
  bool ok = (uint8_t)s.walk_state <= (uint8_t)WS::L2_WAIT_RESP && (uint8_t)s.walk_owner < 2 && (uint8_t)s.walk_rr_next < 2;
  ok = ok && s.walk_active == (s.walk_state != WS::IDLE) && s.walk_req_id_valid == waits(s.walk_state);
  for (int i = 0; i < 2; i++) ok = ok && s.walk_clients[i].req_inflight == (s.walk_active && (int)s.walk_owner == i) && !(s.walk_clients[i].req_pending && s.walk_clients[i].req_inflight);
  ok = ok && IMPLIES(w.req_pending || w.req_inflight, !w.resp_valid);
  ok = ok && IMPLIES(mine && (s.walk_state == WS::L2_REQ || s.walk_state == WS::L2_WAIT_RESP), s.walk_l1_pte >> 10 == m1 >> 10 && !priv::pte_bad(m1) && !priv::pte_leaf(m1));
  return ok && IMPLIES(w.resp_valid, answer_is(w.resp, w.req));
}
static uint32_t step_addr(WS s, const PtwWalkReq &q) { return s == WS::L1_REQ ? ((q.satp & 0x3fffff) << 12) + (q.vaddr >> 22) * 4 : ((m1 >> 10) << 12) + ((q.vaddr >> 12) & 0x3ff) * 4; }
VC_DRIVER(ptw_walk) {
  new (&g_ptw.v) MemPtwBlock(nullptr);
  int c = (int)vc_choose(2), d = 1 - c;
  vc_havoc(&W.cur_, sizeof W.cur_, "ptw");
  m1 = vc_u32("first_word"); m2 = vc_u32("second_word");
  vc_assume(ptw_ok(W.cur_, c));
  vc_assume(W.cur_.walk_drop_resp_credit < 1000);
  for (int i = 0; i < 2; i++) vc_assume(!(W.cur_.mem_clients[i].req_pending && W.cur_.mem_clients[i].req_inflight));
  W.nxt_ = W.cur_;
  MemPtwBlock::State s0 = W.cur_;
  bool busy0 = s0.walk_clients[c].req_pending || s0.walk_clients[c].req_inflight;
  MemPtwBlock::PortIn in{};
  for (int i = 0; i < 2; i++) {
    in.walk_clients[i].req_valid = vc_bool("req"); in.walk_clients[i].req.vaddr = vc_u32("req_va"); in.walk_clients[i].req.satp = vc_u32("req_satp"); in.walk_clients[i].resp_consumed = vc_bool("consumed");
    bool busy = s0.walk_clients[i].req_pending || s0.walk_clients[i].req_inflight;
    vc_assume(!(in.walk_clients[i].req_valid && busy)); // a client asks only when the walker is ready
    in.mem_clients[i].req_valid = vc_bool("mreq"); in.mem_clients[i].req_addr = vc_u32("maddr"); in.mem_clients[i].resp_consumed = vc_bool("mconsumed");
    vc_assume(!(in.mem_clients[i].req_valid && (s0.mem_clients[i].req_pending || s0.mem_clients[i].req_inflight)));
  }
  PtwWalkReq q = s0.walk_clients[c].req;
  bool asks = in.walk_clients[c].req_valid;
  if (asks) q = in.walk_clients[c].req;
  W.comb_begin(in);
  const MemPtwBlock::CombOut &o = W.comb_outputs();
  const MemPtwBlock::State &m = W.nxt_;
  bool mine = m.walk_active && (int)m.walk_owner == c;
  vc_assert(IMPLIES(mine && o.issue_walk_read, o.walk_read_addr == step_addr(m.walk_state, q)), "walker_reads_the_page_table_word");
  vc_assert(IMPLIES(mine, o.issue_walk_read == !waits(m.walk_state)), "walker_reads_until_granted");
  vc_assert(IMPLIES(!s0.walk_active && (busy0 || asks) && !(s0.walk_clients[d].req_pending || in.walk_clients[d].req_valid), mine), "idle_walker_starts_a_request");
  vc_assert(IMPLIES(!s0.walk_active && (busy0 || asks), m.walk_active), "idle_walker_starts_some_request");
  vc_assert(IMPLIES(!s0.walk_active && (busy0 || asks) && (int)s0.walk_rr_next == c, mine), "walker_serves_clients_in_turn");
  vc_assert(IMPLIES(mine && !s0.walk_active, (int)m.walk_rr_next == d), "walker_serves_clients_in_turn");
  for (int i = 0; i < 2; i++) vc_assert(o.mem_req_pending[i] == m.mem_clients[i].req_pending && IMPLIES(in.mem_clients[i].req_valid, o.mem_req_pending[i] && o.mem_req_addr[i] == in.mem_clients[i].req_addr) && IMPLIES(s0.mem_clients[i].req_pending, o.mem_req_pending[i] && o.mem_req_addr[i] == s0.mem_clients[i].req_addr), "word_read_asked_for");
  bool issued = o.issue_walk_read; WS st = m.walk_state; size_t id = m.walk_req_id;
  MemPtwBlock::FeedbackIn f{};
  f.grant_valid = vc_bool("grant"); int g = (int)vc_u8("grant_owner") & 3; f.grant_owner = (MemPtwBlock::GrantOwner)g; f.grant_req_id = vc_u64("grant_id");
  vc_assume(IMPLIES(f.grant_valid && g == 3, issued) && IMPLIES(f.grant_valid && g == 1, o.mem_req_pending[0]) && IMPLIES(f.grant_valid && g == 2, o.mem_req_pending[1]));
  f.event_count = vc_u8("events") & 1;
  MemPtwBlock::RoutedEvent &e = f.events[0]; e.valid = vc_bool("event"); e.owner = (MemPtwBlock::RoutedEventOwner)(vc_u8("event_owner") & 3); e.data = vc_u32("event_data"); e.replay = 0; e.req_id = vc_u64("event_id");
  f.wakeup_dtlb = vc_bool("wake_d"); f.wakeup_itlb = vc_bool("wake_i"); f.wakeup_walk = vc_bool("wake_w");
  bool event = f.event_count && e.valid && e.owner == MemPtwBlock::RoutedEventOwner::WALK;
  // the memory answers a read with the word asked for; a read granted now is not answered yet
  vc_assume(IMPLIES(event && mine && waits(st) && e.req_id == id, e.data == (st == WS::L1_WAIT_RESP ? m1 : m2)));
  vc_assume(IMPLIES(event && f.grant_valid && g == 3, e.req_id != f.grant_req_id));
  bool mev[2]; for (int i = 0; i < 2; i++) { mev[i] = f.event_count && e.valid && e.owner == (i ? MemPtwBlock::RoutedEventOwner::MEM_ITLB : MemPtwBlock::RoutedEventOwner::MEM_DTLB); vc_assume(IMPLIES(mev[i], m.mem_clients[i].req_inflight && !(f.grant_valid && g == 1 + i))); }
  MemPtwBlock::State s1 = m;
  W.comb_finish(f);
  MemPtwBlock::SeqIn si{}; si.walk_client_flush[0] = vc_bool("flush0"); si.walk_client_flush[1] = vc_bool("flush1");
  W.seq(si);
  const MemPtwBlock::State &n = W.cur_; const MemPtwBlock::WalkClientState &w = n.walk_clients[c];
  bool answered = event && mine && waits(st) && e.req_id == id;
  if (!si.walk_client_flush[c]) {
    vc_assert(IMPLIES(mine || w.req_pending || w.resp_valid, w.req.vaddr == q.vaddr && w.req.satp == q.satp), "walk_keeps_its_request");
    vc_assert(IMPLIES(busy0 || asks, w.req_pending || w.req_inflight || w.resp_valid), "walk_request_is_not_lost");
    vc_assert(IMPLIES(answered && st == WS::L2_WAIT_RESP, w.resp_valid), "last_word_ends_the_walk");
    vc_assert(IMPLIES(answered && st == WS::L1_WAIT_RESP, w.resp_valid || n.walk_state == WS::L2_REQ), "first_word_advances_the_walk");
    vc_assert(IMPLIES(mine && waits(st) && !answered, n.walk_active && n.walk_state == (f.wakeup_walk ? (st == WS::L1_WAIT_RESP ? WS::L1_REQ : WS::L2_REQ) : st) && IMPLIES(!f.wakeup_walk, n.walk_req_id == id)), "walk_waits_for_its_word");
    vc_assert(IMPLIES(mine && issued && f.grant_valid && g == 3 && !f.wakeup_walk, n.walk_req_id_valid && n.walk_req_id == f.grant_req_id), "granted_read_is_awaited");
    vc_assert(IMPLIES(mine && issued && !(f.grant_valid && g == 3), n.walk_state == st), "read_waits_for_grant");
    vc_assert(IMPLIES(s0.walk_clients[c].resp_valid && !in.walk_clients[c].resp_consumed && !asks, w.resp_valid), "answer_waits_for_its_client");
    vc_assert(IMPLIES(!busy0 && !asks && (in.walk_clients[c].resp_consumed || !s0.walk_clients[c].resp_valid), !w.resp_valid), "no_answer_without_request");
  } else vc_assert(!w.req_pending && !w.req_inflight && !w.resp_valid && !(n.walk_active && (int)n.walk_owner == c), "flush_abandons_the_walk");
  vc_assert(ptw_ok(n, c), "walk_answer_is_the_page_tables");
  const MemPtwBlock::CombOut &v = W.comb_outputs();
  vc_assert(v.walk_clients[c].req_ready == !(w.req_pending || w.req_inflight) && v.walk_clients[c].resp_valid == w.resp_valid && v.walk_clients[c].resp.fault == w.resp.fault && v.walk_clients[c].resp.vaddr == w.resp.vaddr && v.walk_clients[c].resp.leaf_pte == w.resp.leaf_pte && v.walk_clients[c].resp.leaf_level == w.resp.leaf_level, "walk_port_shows_the_state");
  for (int i = 0; i < 2; i++) {
    const MemPtwBlock::PtwClientState &a = n.mem_clients[i]; bool granted = f.grant_valid && g == 1 + i, wake = i ? f.wakeup_itlb : f.wakeup_dtlb;
    vc_assert(!(a.req_pending && a.req_inflight) && v.mem_clients[i].resp_valid == a.resp_valid && v.mem_clients[i].resp_data == a.resp_data && v.mem_clients[i].req_ready == !(a.req_pending || a.req_inflight), "word_port_shows_the_state");
    vc_assert(IMPLIES(mev[i], a.resp_valid && a.resp_data == e.data && !a.req_inflight && !a.req_pending), "word_read_answered");
    vc_assert(IMPLIES(s1.mem_clients[i].req_pending && !granted, a.req_pending && a.req_addr == s1.mem_clients[i].req_addr), "word_read_waits_for_grant");
    vc_assert(IMPLIES(s1.mem_clients[i].req_pending && granted && !wake, a.req_inflight && a.req_addr == s1.mem_clients[i].req_addr), "word_read_granted");
    vc_assert(IMPLIES(s1.mem_clients[i].req_inflight && !mev[i], (wake ? a.req_pending : a.req_inflight) && a.req_addr == s1.mem_clients[i].req_addr), "word_read_waits_for_its_line");
  }
  vc_cover("ptw_walk");
}
VC_DRIVER(ptw_reset) {
  new (&g_ptw.v) MemPtwBlock(nullptr);
  m1 = vc_u32("first_word"); m2 = vc_u32("second_word");
  vc_havoc(&W.cur_, sizeof W.cur_, "ptw"); vc_havoc(&W.nxt_, sizeof W.nxt_, "nxt");
  W.init();
  vc_assert(ptw_ok(W.cur_, 0) && ptw_ok(W.cur_, 1) && !W.cur_.walk_active, "reset_establishes_the_walker_invariant");
  for (int i = 0; i < 2; i++) vc_assert(!W.cur_.walk_clients[i].req_pending && !W.cur_.walk_clients[i].resp_valid && !W.cur_.mem_clients[i].req_pending && !W.cur_.mem_clients[i].req_inflight && !W.cur_.mem_clients[i].resp_valid, "reset_walker_is_idle");
  new (&g_tlb.v) TlbMmu(nullptr, nullptr, vc_choose(2) ? ITLB_ENTRIES : DTLB_ENTRIES, TlbMmu::Kind::DTLB);
  choose_page();
  vc_assert(tables_ok() && !walk().active && !T.refill_comb_.valid && !T.flush_pending_, "reset_establishes_the_buffer_invariant");
  vc_cover("ptw_reset");
}
// ---- the local walker, used when no shared walker is connected ----
struct WordPort : PtwMemPort {
  bool ready, answered, sent, taken; uint32_t answer, addr;
  bool send_read_req(uint32_t a) override { if (!ready) return false; sent = true; addr = a; return true; }
  bool resp_valid() const override { return answered; }
  uint32_t resp_data() const override { return answer; }
  void consume_resp() override { taken = true; answered = false; }
};
static WordPort wport;
VC_DRIVER(ptw_local) {
  typedef PtwWalker::State S;
  static Raw<PtwWalker> g; PtwWalker &k = g.v;
  new (&wport) WordPort(); wport.ready = vc_bool("ready"); wport.answered = vc_bool("answered"); wport.sent = wport.taken = false; wport.answer = vc_u32("answer"); wport.addr = 0;
  new (&k) PtwWalker(&wport);
  vc_assert(!k.busy(), "reset_walker_is_idle");
  uint32_t va = vc_u32("va"), satp = vc_u32("satp"); m1 = vc_u32("first_word"); m2 = vc_u32("second_word");
  k.state = (S)(vc_u8("state") & 7); vc_assume(k.state != (S)7); k.req_v_addr = vc_u32("kva"); k.req_satp = vc_u32("ksatp"); k.l1_pte = vc_u32("l1"); k.leaf_pte_reg = vc_u32("kleaf"); k.leaf_level_reg = vc_u8("klevel");
  if (vc_bool("begin")) {
    bool was = k.busy(); S old = k.state; bool ok = k.start(va, satp);
    vc_assert(ok == !was && (ok ? k.state == S::L1_REQ && k.req_v_addr == va && k.req_satp == satp : k.state == old), "local_walk_starts_when_idle");
  } else {
    Leaf l = walk_result(m1, m2);
    bool second = k.state == S::L2_REQ || k.state == S::L2_RESP;
    vc_assume(k.req_v_addr == va && k.req_satp == satp && IMPLIES(second, k.l1_pte == m1 && !priv::pte_bad(m1) && !priv::pte_leaf(m1)));
    vc_assume(IMPLIES(k.state == S::DONE, !l.fault && k.leaf_pte_reg == l.pte && k.leaf_level_reg == l.level) && IMPLIES(k.state == S::FAULT, l.fault));
    vc_assume(IMPLIES(wport.answered, wport.answer == (second ? m2 : m1)));
    S old = k.state; bool had = wport.answered;
    S r = k.tick();
    vc_assert(r == k.state, "local_walk_reports_its_state");
    vc_assert(IMPLIES(wport.sent, wport.addr == step_addr(old == S::L1_REQ ? WS::L1_REQ : WS::L2_REQ, [&] { PtwWalkReq q; q.vaddr = va; q.satp = satp; return q; }())), "walker_reads_the_page_table_word");
    vc_assert(IMPLIES(k.state == S::DONE, !l.fault && k.leaf_pte() == l.pte && k.leaf_level() == l.level) && IMPLIES(k.state == S::FAULT, l.fault), "walk_answer_is_the_page_tables");
    vc_assert(IMPLIES(k.state == S::L2_REQ || k.state == S::L2_RESP, k.l1_pte == m1 && !priv::pte_bad(m1) && !priv::pte_leaf(m1)), "local_walk_keeps_the_first_word");
    vc_assert(wport.taken == (had && (old == S::L1_RESP || old == S::L2_RESP)) && wport.sent == (wport.ready && (old == S::L1_REQ || old == S::L2_REQ)), "local_walk_uses_its_port_in_turn");
    vc_assert(IMPLIES(wport.sent, k.state == (old == S::L1_REQ ? S::L1_RESP : S::L2_RESP)) && IMPLIES(wport.taken, k.state != old), "local_walk_advances");
    vc_assert(IMPLIES(!wport.sent && !wport.taken, k.state == old) && k.req_v_addr == va && k.req_satp == satp, "local_walk_keeps_its_request");
    if (vc_bool("drop")) { k.flush(); vc_assert(!k.busy(), "flush_abandons_the_walk"); }
  }
  vc_cover("ptw_local");
}
