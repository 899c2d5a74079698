// Contracts of the data-cache subsystem (RealDcache, MSHR, WriteBuffer and the cache arrays as
// composed by MemSubsystem): one cycle of the whole, over an invariant that gives every word of
// memory exactly one current value, wherever its latest copy is.
#include "vc.h"
#include "MemSubsystem.h"
#include "config.h"
long long sim_time;
static Raw<MemSubsystem> g_s;
#define S (g_s.v)
static const int NLD = LSU_LDU_COUNT, NST = LSU_STA_COUNT, NP = NLD + NST, NW = DCACHE_WORD_NUM, NWAY = DCACHE_WAYS_NUM, NM = DCACHE_MSHR_ENTRIES, NB = DCACHE_WB_ENTRIES;
typedef ReplayType RT;

// ---- the subsystem as it is built and wired ----
static LsuDcacheIO lsu_req; static DcacheLsuIO lsu_resp; static ICacheMemPortReq ic_req; static ICacheMemPortResp ic_resp;
static PeripheralReqIO preq; static PeripheralRespIO presp; static CsrInterruptInjectIO inject; static uint32_t ram[4];
static void boot() {
  new (&S) MemSubsystem(nullptr);
  S.lsu2dcache = &lsu_req; S.dcache2lsu = &lsu_resp; S.icache_req = &ic_req; S.icache_resp = &ic_resp; S.peripheral_req = &preq; S.peripheral_resp = &presp; S.csr_interrupt_inject = &inject; S.memory = ram;
  S.init();
}

// ---- the probed word ----
static uint32_t A;            // its address
static unsigned OFF, LANE;    // its position in the line; the byte of it that is compared
static uint32_t line_of(uint32_t a) { return a & ~(uint32_t)(DCACHE_LINE_SIZE - 1); }
static uint32_t set_of(uint32_t a) { return (a / DCACHE_LINE_SIZE) & (DCACHE_SETS_NUM - 1); }
static uint32_t tag_of(uint32_t a) { return a >> (DCACHE_SET_BITS + DCACHE_OFFSET_BITS); }
static bool probed(uint32_t a) { return (a >> 2) == (A >> 2); }
static uint32_t put(uint32_t old, uint32_t v, uint8_t s) {
  uint32_t m = (s & 1 ? 0xffu : 0) | (s & 2 ? 0xff00u : 0) | (s & 4 ? 0xff0000u : 0) | (s & 8 ? 0xff000000u : 0);
  return (old & ~m) | (v & m);
}

// ---- the cache set of the probed word; other sets are arbitrary (contracts dc_read, dc_write) ----
static struct Set { bool valid[NWAY], dirty[NWAY]; uint32_t tag[NWAY], data[NWAY][NW]; bool plru[DCACHE_PLRU_TREE_BITS]; } set;
static int other;
static void read_contract(const DcacheLineReadReq *rq, DcacheLineReadResp *rs, const FillOut &fo, FillIn &fi) {
  for (int i = 0; i < NP; i++) {
    vc_havoc(&rs[i], sizeof rs[i], "other_set");
    for (int w = 0; w < NWAY; w++) { rs[i].valid[w] &= 1; rs[i].tag[w] &= (1u << DCACHE_TAG_BITS) - 1; }
    if (rq[i].set_idx == set_of(A)) for (int w = 0; w < NWAY; w++) { rs[i].valid[w] = set.valid[w]; rs[i].dirty[w] = set.dirty[w]; rs[i].tag[w] = set.tag[w]; for (int k = 0; k < NW; k++) rs[i].data[w][k] = set.data[w][k]; }
  }
  vc_havoc(&fi, sizeof fi, "other_fill");
  for (int w = 0; w < NWAY; w++) fi.tag_snap[w] &= (1u << DCACHE_TAG_BITS) - 1;
  if (!fo.valid) memset(&fi, 0, sizeof fi);
  else if (fo.set_idx == set_of(A)) { for (int w = 0; w < NWAY; w++) { fi.valid_snap[w] = set.valid[w]; fi.dirty_snap[w] = set.dirty[w]; fi.tag_snap[w] = set.tag[w]; for (int k = 0; k < NW; k++) fi.data_snap[w][k] = set.data[w][k]; } for (int k = 0; k < DCACHE_PLRU_TREE_BITS; k++) fi.plru_tree_state[k] = set.plru[k]; }
}
static void write_contract(const PendingWrite *pw, const LruUpdate *lru, const FILLWrite &f) {
  for (int i = 0; i < NP; i++) {
    vc_assert(IMPLIES(pw[i].valid, pw[i].way_idx < NWAY && pw[i].word_off < NW), "dc_store_names_a_word");
    if (pw[i].valid && pw[i].set_idx == set_of(A)) for (int w = 0; w < NWAY; w++) if (pw[i].way_idx == w) { set.dirty[w] = true; for (int k = 0; k < NW; k++) if (pw[i].word_off == k) set.data[w][k] = put(set.data[w][k], pw[i].data, pw[i].strb); }
  }
  vc_havoc(set.plru, sizeof set.plru, "plru"); for (auto &p : set.plru) p &= 1;
  vc_assert(IMPLIES(f.valid, f.way_idx < NWAY), "dc_fill_names_a_way");
  if (f.valid && f.set_idx == set_of(A)) {
    unsigned t = f.way_idx; for (int w = NWAY - 1; w >= 0; w--) if (set.valid[w] && set.tag[w] == f.tag) t = w;
    for (int w = 0; w < NWAY; w++) if (t == (unsigned)w) { set.valid[w] = true; set.dirty[w] = f.dirty; set.tag[w] = f.tag; for (int k = 0; k < NW; k++) set.data[w][k] = f.data[k]; }
  }
}

// a replay runs on the real arrays
static void arrays(bool in) {
#ifdef VC_NATIVE
  unsigned n = set_of(A);
  auto cp = [&](void *a, void *b, size_t k) { in ? memcpy(a, b, k) : memcpy(b, a, k); };
  cp(valid_array[n], set.valid, sizeof set.valid); cp(dirty_array[n], set.dirty, sizeof set.dirty); cp(tag_array[n], set.tag, sizeof set.tag); cp(data_array[n], set.data, sizeof set.data); cp(plru_tree_state[n], set.plru, sizeof set.plru);
#endif
}

// ---- invariant ----
struct View { uint32_t v; bool ok, many, cache, wb, mshr; void found(bool &where) { many = many || cache || wb || mshr; where = true; } };
static uint8_t lane(uint32_t w) { return w >> 8 * LANE; }
// the current value of the probed word, given what memory holds
static View view(uint32_t mem) {
  View r = {mem, true, false, false, false, false};
  for (int w = 0; w < NWAY; w++) if (set.valid[w] && set.tag[w] == tag_of(A)) { r.found(r.cache); r.v = set.data[w][OFF]; r.ok = r.ok && (set.dirty[w] || lane(r.v) == lane(mem)); }
  auto &b = S.wb_.nxt;
  for (int k = 0; k < NB; k++) { auto &e = b.write_buffer[(b.head + k) % NB]; if (k < b.count && e.addr == line_of(A)) { r.found(r.wb); r.v = e.data[OFF]; } }
  auto &m = S.mshr_.nxt; auto &f = S.dcache_.s1s2_cur.fill_write;
  for (int j = 0; j < NM; j++) { auto &e = m.mshr_entries[j]; if (e.valid && e.addr == line_of(A)) {
    bool held = m.axi_resp_hold_valid && m.axi_resp_hold_id == j, filling = held && f.valid;
    r.found(r.mshr); r.v = filling ? f.data[OFF] : put(mem, e.merged_store_data[OFF], e.merged_store_strb[OFF]);
    r.ok = r.ok && IMPLIES(held, lane(m.axi_resp_hold_data[OFF]) == lane(mem)) && IMPLIES(!e.merged_store_dirty, !(e.merged_store_strb[OFF] >> LANE & 1)) && IMPLIES(filling && !f.dirty, lane(f.data[OFF]) == lane(mem));
  } }
  return r;
}
static bool structure() {
  bool ok = true;
  auto &m = S.mshr_.nxt; auto &f = S.dcache_.s1s2_cur.fill_write; int n = 0;
  for (int j = 0; j < NM; j++) { auto &e = m.mshr_entries[j]; n += e.valid ? 1 : 0; ok = ok && IMPLIES(e.valid, (e.addr & (DCACHE_LINE_SIZE - 1)) == 0); }
  ok = ok && n == m.mshr_count;
  auto &h = m.mshr_entries[m.axi_resp_hold_id & (NM - 1)];
  ok = ok && IMPLIES(m.axi_resp_hold_valid, m.axi_resp_hold_id < NM && h.valid && h.issued);
  ok = ok && IMPLIES(f.valid, m.axi_resp_hold_valid && f.id == m.axi_resp_hold_id && f.set_idx == set_of(h.addr) && f.tag == tag_of(h.addr));
  ok = ok && S.fill_out_.valid == f.valid && IMPLIES(f.valid, S.fill_out_.set_idx == f.set_idx);
  auto &b = S.wb_.nxt;
  ok = ok && b.head < NB && b.count <= NB && IMPLIES(b.send, b.count > 0);
  return ok;
}
// the outside requests follow the queues
static bool requests() {
  auto &m = S.mshr_.nxt; auto &b = S.wb_.nxt; auto &ro = S.mshr_axi_out; auto &wo = S.wb_axi_out; bool ok = true;
  auto &e = m.mshr_entries[ro.req_id & (NM - 1)]; bool any = false; for (int j = 0; j < NM; j++) any = any || (m.mshr_entries[j].valid && !m.mshr_entries[j].issued);
  ok = ok && ro.req_valid == any && IMPLIES(ro.req_valid, ro.req_id < NM && e.valid && !e.issued && ro.req_addr == e.addr && ro.req_total_size == DCACHE_LINE_SIZE - 1);
  auto &h = b.write_buffer[b.head & (NB - 1)];
  ok = ok && wo.req_valid == (!b.send && b.count > 0) && IMPLIES(wo.req_valid, wo.req_addr == h.addr && lane(wo.req_wdata[OFF]) == lane(h.data[OFF]) && wo.req_total_size == DCACHE_LINE_SIZE - 1 && wo.req_wstrb == ~0ull);
  return ok;
}
// the second stage works on what the first stage looked up
static bool slots() {
  bool ok = true; auto &c = S.dcache_.s1s2_cur;
  for (int i = 0; i < NLD; i++) { auto &l = c.loads[i]; bool live = l.valid && !l.replayed; auto &q = S.dcache_wb_io_.bypass_req[i]; auto &f = S.dcache_mshr_io_.find_req[i]; auto &t = S.dcache_resp_meta_cur_[i];
    ok = ok && q.valid == live && f.valid == live && IMPLIES(live, q.addr == l.addr && f.set_idx == set_of(l.addr) && f.tag == tag_of(l.addr) && S.dcache_line_read_req_[i].set_idx == set_of(l.addr));
    ok = ok && t.valid == l.valid && IMPLIES(t.valid, !t.is_store && t.addr == l.addr); }
  for (int i = 0; i < NST; i++) { auto &s = c.stores[i]; bool live = s.valid && !s.replayed; auto &q = S.dcache_wb_io_.merge_req[i]; auto &f = S.dcache_mshr_io_.find_req[NLD + i]; auto &t = S.dcache_resp_meta_cur_[NLD + i];
    ok = ok && q.valid == live && f.valid == live && IMPLIES(live, q.addr == s.addr && q.data == s.data && q.strb == s.strb && f.set_idx == set_of(s.addr) && f.tag == tag_of(s.addr) && S.dcache_line_read_req_[NLD + i].set_idx == set_of(s.addr));
    ok = ok && t.valid == s.valid && IMPLIES(t.valid, t.is_store && t.addr == s.addr && t.data == s.data && t.strb == s.strb); }
  auto &a = c.stores[0], &b = c.stores[1]; // two stores to one line are looked up together or not at all
  return ok && c.icache_req <= NLD && IMPLIES(a.valid && b.valid && line_of(a.addr) == line_of(b.addr), a.replayed == b.replayed);
}
static bool waits(RT r) { return r == RT::MSHR_HIT || r == RT::MSHR_FULL; }
// an answer that waits for a line is not behind the line's arrival: the miss is still pending
static bool missing(uint32_t a) { bool r = false; for (auto &e : S.mshr_.nxt.mshr_entries) r = r || (e.valid && e.addr == line_of(a)); return r; }
static bool answers() {
  bool ok = true; auto &m = S.mshr_.nxt; auto &p = S.dcache_resp_pending_.resp_ports; auto &h = m.mshr_entries[m.axi_resp_hold_id & (NM - 1)];
  auto arrived = [&](uint32_t a) { return m.axi_resp_hold_valid && h.addr == line_of(a); };
  for (int i = 0; i < NLD; i++) { auto &t = S.dcache_resp_pending_meta_[i]; ok = ok && IMPLIES(p.load_resps[i].valid, t.valid && !t.is_store && IMPLIES(waits(p.load_resps[i].replay), !arrived(t.addr)) && IMPLIES(p.load_resps[i].replay == RT::MSHR_HIT, missing(t.addr))); }
  for (int i = 0; i < NST; i++) { auto &t = S.dcache_resp_pending_meta_[NLD + i]; ok = ok && IMPLIES(p.store_resps[i].valid, t.valid && t.is_store && IMPLIES(waits(p.store_resps[i].replay), !arrived(t.addr)) && IMPLIES(p.store_resps[i].replay == RT::MSHR_HIT, missing(t.addr))); }
  return ok;
}

static void bounds() {
  auto &c = S.dcache_.s1s2_cur; auto &m = S.mshr_.nxt; auto &b = S.wb_.nxt;
  c.icache_req &= 3; c.fill_write.way_idx &= NWAY - 1; c.fill_write.tag &= (1u << DCACHE_TAG_BITS) - 1;
  c.fill_write.id &= NM - 1; S.mshr_dcache_io_.fill_req.id &= NM - 1; S.dcache_mshr_io_.fill_resp.id &= NM - 1; S.mshr_axi_in.resp_id &= NM - 1; S.mshr_axi_in.req_accepted_id &= NM - 1;
  m.axi_resp_hold_id &= NM - 1; m.mshr_count &= 15; b.count &= 15;
  for (auto &t : set.tag) t &= (1u << DCACHE_TAG_BITS) - 1;
  for (auto &p : set.plru) p &= 1;
}
static void setup() {
  boot();
  vc_havoc(&set, sizeof set, "set");
  vc_havoc(&S.dcache_.s1s2_cur, sizeof S.dcache_.s1s2_cur, "s1s2"); vc_havoc(&S.mshr_.nxt, sizeof S.mshr_.nxt, "mshr"); vc_havoc(&S.wb_.nxt, sizeof S.wb_.nxt, "wb");
  vc_havoc(&S.dcache_mshr_io_, sizeof S.dcache_mshr_io_, "d2m"); vc_havoc(&S.mshr_dcache_io_, sizeof S.mshr_dcache_io_, "m2d"); vc_havoc(&S.dcache_wb_io_, sizeof S.dcache_wb_io_, "d2w"); vc_havoc(&S.wb_dcache_io_, sizeof S.wb_dcache_io_, "w2d");
  vc_havoc(&S.dcache_line_read_req_, sizeof S.dcache_line_read_req_, "readreq"); vc_havoc(&S.fill_out_, sizeof S.fill_out_, "fillout"); vc_havoc(&S.dcache_req_mux_, sizeof S.dcache_req_mux_, "requests");
  vc_havoc(&S.mshr_axi_in, sizeof S.mshr_axi_in, "rd_in"); vc_havoc(&S.mshr_axi_out, sizeof S.mshr_axi_out, "rd_out"); vc_havoc(&S.wb_axi_in, sizeof S.wb_axi_in, "wr_in"); vc_havoc(&S.wb_axi_out, sizeof S.wb_axi_out, "wr_out");
  vc_havoc(&S.dcache_resp_pending_, sizeof S.dcache_resp_pending_, "pending"); vc_havoc(&S.dcache_resp_pending_meta_, sizeof S.dcache_resp_pending_meta_, "pendmeta"); vc_havoc(&S.dcache_resp_meta_cur_, sizeof S.dcache_resp_meta_cur_, "meta"); vc_havoc(&S.dcache_resp_raw_, sizeof S.dcache_resp_raw_, "raw");
  vc_havoc(&S.dcache_.fill_req_merge_wires, sizeof S.dcache_.fill_req_merge_wires, "merge");
  bounds();
  S.mshr_.cur = S.mshr_.nxt;
  A = (vc_u32("addr") & ~(uint32_t)(DCACHE_LINE_SIZE - 1)) | OFF * 4;
}
static Raw<S1S2Reg> s0; static Raw<DcacheLsuIO> p0; static Raw<LsuDcacheIO> rq; static MemSubsystem::DcacheRespMeta meta0[NP];
// the device side shares nothing with the cache but the clock
static void no_device(PeripheralAxi *) {}
static void no_device_tick(PeripheralModel *) {}
enum Mode { EXTRA_TICK, EXTRA_TICK_WITH_REQUESTS, CPU_CYCLE };
static void cycle(unsigned head, unsigned where, unsigned at, Mode mode) {
  setup(); vc_loop_queries(0);
  S.wb_.nxt.head = head; S.wb_.cur = S.wb_.nxt;
  uint32_t mem = vc_u32("memory");
  vc_assume(structure()); vc_assume(requests()); vc_assume(slots()); vc_assume(answers());
  View v0 = view(mem); vc_assume(v0.ok && !v0.many && v0.cache == (where / 2 == 1) && v0.wb == (where / 2 == 2) && v0.mshr == (where / 2 == 3) && S.dcache_.s1s2_cur.fill_write.valid == (where & 1));
  if (v0.wb) vc_assume(S.wb_.nxt.write_buffer[(head + at) % NB].addr == line_of(A) && at < S.wb_.nxt.count);
  if (v0.mshr) vc_assume(S.mshr_.nxt.mshr_entries[at].addr == line_of(A) && S.mshr_.nxt.mshr_entries[at].valid);
  for (int w = 0; w < NWAY; w++) { auto &f = S.dcache_.s1s2_cur.fill_write; vc_assume(!(f.valid && f.set_idx == set_of(A) && set.valid[w] && set.tag[w] == f.tag)); } // one copy, for the line that is arriving
  auto &p = mode == CPU_CYCLE ? S.dcache_resp_route_.resp_ports : S.dcache_resp_pending_.resp_ports; auto &pend = S.dcache_resp_pending_.resp_ports; auto &c = S.dcache_.s1s2_cur;
  for (int i = 0; i < NLD; i++) vc_assume(IMPLIES(c.loads[i].valid, !pend.load_resps[i].valid));
  for (int i = 0; i < NST; i++) vc_assume(IMPLIES(c.stores[i].valid, !pend.store_resps[i].valid));
  // the bus: accepts what is requested, answers each read once with the contents of memory, and each write once
  auto &ri = S.mshr_axi_in; auto &ro = S.mshr_axi_out; auto &wi = S.wb_axi_in; auto &wo = S.wb_axi_out; auto &m = S.mshr_.nxt; auto &b = S.wb_.nxt;
  vc_assume(IMPLIES(ri.req_accepted, ro.req_valid && ri.req_accepted_id == ro.req_id));
  vc_assume(S.dcache_req_mux_.icache_req <= NLD);
  auto &re = m.mshr_entries[ri.resp_id & (NM - 1)];
  vc_assume(IMPLIES(ri.resp_valid, ri.resp_id < NM && re.valid && (re.issued || (ri.req_accepted && ri.req_accepted_id == ri.resp_id)) && !(m.axi_resp_hold_valid && m.axi_resp_hold_id == ri.resp_id)));
  vc_assume(IMPLIES(ri.resp_valid && re.addr == line_of(A), lane(ri.resp_data[OFF]) == lane(mem)));
  vc_assume(IMPLIES(wi.req_accepted, wo.req_valid) && IMPLIES(wi.resp_valid, b.send || wi.req_accepted));
  auto &h = b.write_buffer[head]; uint32_t sent = b.send ? h.data[OFF] : wo.req_wdata[OFF]; // the word the bus took when it accepted the write
  uint32_t mem1 = wi.resp_valid && h.addr == line_of(A) ? sent : mem;
  bool resp = ri.resp_valid; unsigned resp_id = ri.resp_id; uint32_t resp_word = ri.resp_data[OFF];
  memcpy((void *)&s0, (const void *)&c, sizeof c); memcpy((void *)&p0, (const void *)&S.dcache_resp_pending_, sizeof p0); for (int i = 0; i < NP; i++) meta0[i] = S.dcache_resp_pending_meta_[i];
  vc_replace((const void *)&Dcache_Read, (const void *)&read_contract); vc_replace((const void *)&Dcache_Write, (const void *)&write_contract);
  vc_replace(vc_fn(&PeripheralAxi::comb_outputs), (const void *)&no_device); vc_replace(vc_fn(&PeripheralAxi::comb_inputs), (const void *)&no_device); vc_replace(vc_fn(&PeripheralAxi::seq), (const void *)&no_device); vc_replace(vc_fn(&PeripheralModel::tick), (const void *)&no_device_tick);
  arrays(true);
  if (mode == CPU_CYCLE) { S.comb_outputs(); S.comb_inputs(); memcpy((void *)&rq, (const void *)&S.dcache_req_mux_, sizeof rq); S.seq(); }
  else { memcpy((void *)&rq, (const void *)&S.dcache_req_mux_, sizeof rq); S.dcache_fast_comb(mode == EXTRA_TICK_WITH_REQUESTS); S.dcache_fast_seq(false); }
  arrays(false);
  vc_unreplace();
  // answers
  for (int i = 0; i < NLD; i++) {
    auto &l = s0.v.loads[i]; auto &q = p.load_resps[i]; auto &o = p0.v.resp_ports.load_resps[i];
    if (l.valid) { vc_assert(q.valid && q.req_id == l.req_id, "dc_load_answered"); vc_assert(IMPLIES(q.replay == RT::HIT && probed(l.addr), lane(q.data) == lane(v0.v)), "dc_load_reads_the_last_value_written"); vc_cover("dc_load"); }
    else { vc_assert(q.valid == o.valid && q.req_id == o.req_id && IMPLIES(o.replay == RT::HIT, q.replay == RT::HIT && q.data == o.data) && (q.replay == o.replay || q.replay == RT::HIT), "dc_load_answer_kept");
      vc_assert(IMPLIES(q.valid && o.replay != RT::HIT && q.replay == RT::HIT && probed(meta0[i].addr), lane(q.data) == lane(v0.v)), "dc_waiting_load_reads_the_last_value_written"); }
  }
  uint32_t v1 = v0.v;
  for (int i = 0; i < NST; i++) {
    auto &s = s0.v.stores[i]; auto &q = p.store_resps[i]; auto &o = p0.v.resp_ports.store_resps[i]; auto &t = meta0[NLD + i];
    if (!s.valid) { vc_assert(q.valid == o.valid && q.req_id == o.req_id && (q.replay == o.replay || q.replay == RT::HIT), "dc_store_answer_kept"); if (q.valid && q.replay == RT::HIT && o.replay != RT::HIT && probed(t.addr)) v1 = put(v1, t.data, t.strb); }
  }
  for (int i = 0; i < NST; i++) {
    auto &s = s0.v.stores[i]; auto &q = p.store_resps[i];
    if (s.valid) { vc_assert(q.valid && q.req_id == s.req_id, "dc_store_answered"); if (q.replay == RT::HIT && probed(s.addr)) v1 = put(v1, s.data, s.strb); vc_cover("dc_store"); }
  }
  vc_assert(IMPLIES(s0.v.stores[0].valid && s0.v.stores[1].valid && probed(s0.v.stores[0].addr) && probed(s0.v.stores[1].addr) && p.store_resps[0].replay != RT::HIT, p.store_resps[1].replay != RT::HIT), "dc_stores_in_order");
  for (int i = 0; i < NLD; i++) vc_assert(IMPLIES(p.load_resps[i].valid && p.load_resps[i].replay == RT::MSHR_HIT, missing(s0.v.loads[i].valid ? (uint32_t)s0.v.loads[i].addr : meta0[i].addr)), "dc_waiting_load_is_a_pending_miss");
  for (int i = 0; i < NST; i++) vc_assert(IMPLIES(p.store_resps[i].valid && p.store_resps[i].replay == RT::MSHR_HIT, missing(s0.v.stores[i].valid ? (uint32_t)s0.v.stores[i].addr : meta0[NLD + i].addr)), "dc_waiting_store_is_a_pending_miss");
  vc_assert(IMPLIES(b.send && b.write_buffer[b.head].addr == line_of(A), b.head == head && lane(b.write_buffer[b.head].data[OFF]) == lane(sent)), "dc_write_under_way_is_unchanged");
  View w = view(mem1); auto &f0 = S.fill_writes_, &f = f0;
  vc_assert(!w.many, "dc_one_copy"); vc_assert(w.ok, "dc_clean_means_equal_to_memory"); vc_assume(!w.many);
  vc_assert(IMPLIES(w.cache, lane(w.v) == lane(v1)), "dc_cached_value_is_last_store"); vc_assert(IMPLIES(w.wb, lane(w.v) == lane(v1)), "dc_evicted_value_is_last_store"); vc_assert(IMPLIES(w.mshr, lane(w.v) == lane(v1)), "dc_missing_value_is_last_store"); vc_assert(IMPLIES(!w.cache && !w.wb && !w.mshr, lane(mem1) == lane(v1)), "dc_memory_value_is_last_store");
  vc_assert(structure(), "dc_structure"); vc_assert(requests(), "dc_requests_to_memory"); vc_assert(slots(), "dc_lookup_matches_request"); vc_assert(answers(), "dc_waiting_answers");
  vc_assert(IMPLIES(resp && ro.resp_ready, m.axi_resp_hold_valid && m.axi_resp_hold_id == resp_id && lane(m.axi_resp_hold_data[OFF]) == lane(resp_word)), "dc_read_data_kept");
  vc_assert(S.dcache_resp_raw_.mshr_fill == f.valid && IMPLIES(f.valid, S.dcache_resp_raw_.mshr_fill_addr == ((uint32_t)f.tag << (DCACHE_SET_BITS + DCACHE_OFFSET_BITS) | (uint32_t)f.set_idx << DCACHE_OFFSET_BITS)), "dc_fill_announced");
  vc_assert(IMPLIES(f.valid, mode == CPU_CYCLE ? S.dcache_resp_route_.mshr_fill : S.dcache_resp_pending_.mshr_fill), "dc_fill_reported");
  for (int i = 0; i < NLD; i++) { auto &l = c.loads[i]; auto &r = rq.v.req_ports.load_ports[i]; vc_assert(l.valid == (r.valid && mode != EXTRA_TICK) && IMPLIES(l.valid, l.addr == r.addr && l.req_id == r.req_id), "dc_load_taken"); }
  for (int i = 0; i < NST; i++) { auto &l = c.stores[i]; auto &r = rq.v.req_ports.store_ports[i]; vc_assert(l.valid == (r.valid && mode != EXTRA_TICK) && IMPLIES(l.valid, l.addr == r.addr && l.data == r.data && l.strb == r.strb && l.req_id == r.req_id), "dc_store_taken"); }
  if (mode == CPU_CYCLE) for (int i = 0; i < NP; i++) vc_assert(!S.dcache_resp_pending_meta_[i].valid && (i < NLD ? !pend.load_resps[i].valid : !pend.store_resps[i - NLD].valid), "dc_answer_delivered_once");
}
// positions in the line, the word and the queues are sampled; where the current copy is and whether a line is being filled, case by case
static void sample(unsigned k, unsigned where, unsigned at, Mode mode) {
  static const unsigned char off[] = {0, 5, 10, 15}, head[] = {0, 3, 5, 7};
  OFF = off[k]; LANE = k; cycle(head[k], where, at, mode);
}
VC_DRIVER(dc_cycle) {
  static const unsigned char k[] = {3, 0, 1, 2, 3, 1, 3, 2, 0}, where[] = {0, 1, 2, 3, 4, 4, 5, 6, 7}, at[] = {0, 0, 0, 0, 0, 7, 2, 6, 3};
  unsigned n = vc_choose(9); sample(k[n], where[n], at[n], CPU_CYCLE);
}
VC_DRIVER(dc_tick) { static const unsigned char where[] = {0, 3, 7, 4}, at[] = {0, 0, 1, 3}; unsigned k = vc_choose(4); sample(k, where[k], at[k], k & 1 ? EXTRA_TICK_WITH_REQUESTS : EXTRA_TICK); }
VC_DRIVER(dc_cycle_all) { unsigned k = vc_choose(4), where = vc_choose(8), at = where < 4 ? 0 : vc_choose(8); sample(k, where, at, CPU_CYCLE); }
VC_DRIVER(dc_tick_all) { unsigned k = vc_choose(4), where = vc_choose(8), at = where < 4 ? 0 : 3 * vc_choose(3); sample(k, where, at, k & 1 ? EXTRA_TICK_WITH_REQUESTS : EXTRA_TICK); }

VC_DRIVER(dc_reset) {
  boot(); OFF = 5; LANE = 0; A = (vc_u32("addr") & ~(uint32_t)(DCACHE_LINE_SIZE - 1)) | OFF * 4;
  unsigned n = set_of(A); for (int w = 0; w < NWAY; w++) set.valid[w] = valid_array[n][w];
  View v = view(vc_u32("memory")); vc_assert(v.ok && !v.cache && !v.wb && !v.mshr, "dc_reset_empty");
  vc_assert(structure() && requests() && slots() && answers(), "dc_reset_invariant"); vc_cover("dc_reset");
}

// ---- the arrays ----
static DcacheLineReadReq rd[NP]; static DcacheLineReadResp rsp[NP]; static FillOut fo; static FillIn fi; static PendingWrite pw[NP]; static LruUpdate lru[NP]; static FILLWrite fw;
static const unsigned sets[] = {0, 77, DCACHE_SETS_NUM - 1};
static void havoc_set(unsigned n) {
  vc_havoc(valid_array[n], sizeof valid_array[n], "v"); vc_havoc(dirty_array[n], sizeof dirty_array[n], "d"); vc_havoc(tag_array[n], sizeof tag_array[n], "t"); vc_havoc(data_array[n], sizeof data_array[n], "w"); vc_havoc(plru_tree_state[n], sizeof plru_tree_state[n], "p");
}
VC_DRIVER(dc_read) {
  unsigned n = sets[vc_choose(3)], o = n ^ 1, mask = vc_choose(1 << (NP + 1)); havoc_set(n); havoc_set(o);
  for (int i = 0; i < NP; i++) rd[i].set_idx = mask >> i & 1 ? n : o;
  fo.valid = vc_bool("filling"); fo.set_idx = mask >> NP & 1 ? n : o; vc_havoc(&fi, sizeof fi, "junk"); vc_havoc(&rsp, sizeof rsp, "junk");
  Dcache_Read(rd, rsp, fo, fi);
  for (int i = 0; i < NP; i++) { unsigned q = rd[i].set_idx; vc_assert(vc_eq(rsp[i].valid, valid_array[q], sizeof valid_array[q]) && vc_eq(rsp[i].dirty, dirty_array[q], sizeof dirty_array[q]) && vc_eq(rsp[i].tag, tag_array[q], sizeof tag_array[q]) && vc_eq(rsp[i].data, data_array[q], sizeof data_array[q]), "dc_read_set"); }
  unsigned q = fo.set_idx; if (fo.valid) vc_assert(vc_eq(fi.valid_snap, valid_array[q], sizeof valid_array[q]) && vc_eq(fi.dirty_snap, dirty_array[q], sizeof dirty_array[q]) && vc_eq(fi.tag_snap, tag_array[q], sizeof tag_array[q]) && vc_eq(fi.data_snap, data_array[q], sizeof data_array[q]) && vc_eq(fi.plru_tree_state, plru_tree_state[q], sizeof plru_tree_state[q]), "dc_read_fill_set");
  vc_cover("dc_read");
}
VC_DRIVER(dc_write) {
  unsigned n = sets[vc_choose(3)], o = n ^ 1, mask = vc_choose(4); havoc_set(n); havoc_set(o); A = n * DCACHE_LINE_SIZE;
  vc_havoc(&pw, sizeof pw, "pw"); vc_havoc(&lru, sizeof lru, "lru"); vc_havoc(&fw, sizeof fw, "fill"); fw.way_idx = vc_choose(NWAY); fw.tag &= (1u << DCACHE_TAG_BITS) - 1;
  static const unsigned char way[][NP] = {{2, 2, 2, 2}, {0, 3, 0, 3}, {1, 2, 3, 0}}, word[][NP] = {{9, 9, 9, 9}, {0, 15, 15, 0}, {4, 4, 11, 4}}; unsigned pat = vc_choose(3);
  for (int i = 0; i < NP; i++) { pw[i].way_idx = way[pat][i]; pw[i].word_off = word[pat][i]; lru[i].way = way[pat][i]; pw[i].set_idx = lru[i].set_idx = mask >> i % 2 & 1 ? n : o; }
  fw.set_idx = mask ? n : o;
  memcpy(set.valid, valid_array[n], sizeof set.valid); memcpy(set.dirty, dirty_array[n], sizeof set.dirty); memcpy(set.tag, tag_array[n], sizeof set.tag); memcpy(set.data, data_array[n], sizeof set.data);
  for (int w = 0; w < NWAY; w++) for (int v = w + 1; v < NWAY; v++) vc_assume(!(set.valid[w] && set.valid[v] && set.tag[w] == set.tag[v]));
  write_contract(pw, lru, fw); Dcache_Write(pw, lru, fw);
  for (int w = 0; w < NWAY; w++) { vc_assert(set.valid[w] == valid_array[n][w] && set.dirty[w] == dirty_array[n][w] && set.tag[w] == tag_array[n][w], "dc_write_line_state"); vc_assert(vc_eq(set.data[w], data_array[n][w], sizeof set.data[w]), "dc_write_data"); }
  vc_cover("dc_write");
}

// ---- the page-table walker between its clients' ports and the route to the cache ----
static Raw<MemPtwBlock> g_w;
VC_DRIVER(ms_ports) {
  boot();
  typedef MemPtwBlock B; B &w = S.ptw_block; const int P = NLD - 1;
  vc_havoc(&w.nxt_, sizeof w.nxt_, "ptw"); vc_assume((uint8_t)w.nxt_.walk_owner < 2 && (uint8_t)w.nxt_.walk_rr_next < 2 && (uint8_t)w.nxt_.walk_state <= (uint8_t)B::WalkState::L2_WAIT_RESP);
  auto &rt = S.mem_route_block; vc_havoc(&rt.nxt, sizeof rt.nxt, "route"); vc_assume((uint8_t)rt.nxt.issued_tags.owner <= (uint8_t)Owner::PTW_WALK && rt.nxt.issued_tags.owner != Owner::LSU);
  vc_replace(vc_fn(&PeripheralAxi::comb_outputs), (const void *)&no_device); vc_replace(vc_fn(&PeripheralAxi::comb_inputs), (const void *)&no_device); vc_replace(vc_fn(&PeripheralAxi::seq), (const void *)&no_device); vc_replace(vc_fn(&PeripheralModel::tick), (const void *)&no_device_tick);
  S.seq(); // the end of the previous cycle
  auto &a = S.dcache_resp_pending_.resp_ports.load_resps[P]; a.valid = vc_bool("answer"); a.req_id = vc_u32("answer_id"); a.data = vc_u32("answer_data"); a.replay = (RT)(vc_u8("answer_replay") & 3);
  S.dcache_resp_pending_.mshr_fill = vc_bool("filled");
  new (&g_w.v) B(nullptr); B &r = g_w.v; r.cur_ = w.cur_; r.nxt_ = w.cur_;
  PtwMemPort *mp[2] = {S.dtlb_ptw_port, S.itlb_ptw_port}; PtwWalkPort *wp[2] = {S.dtlb_walk_port, S.itlb_walk_port};
  for (int n = 0; n < 2; n++) { // arbitrary use of the ports, twice
    B::PortIn in{}; B::SeqIn si{};
    for (int i = 0; i < 2; i++) {
      auto &c = w.cur_.walk_clients[i]; auto &m = w.cur_.mem_clients[i];
      vc_assert(wp[i]->resp_valid() == c.resp_valid && IMPLIES(c.resp_valid, wp[i]->resp().fault == c.resp.fault && wp[i]->resp().leaf_pte == c.resp.leaf_pte && wp[i]->resp().leaf_level == c.resp.leaf_level), "walk_client_sees_its_answer");
      vc_assert(mp[i]->resp_valid() == m.resp_valid && IMPLIES(m.resp_valid, mp[i]->resp_data() == m.resp_data), "reader_sees_its_answer");
      if (vc_bool("flush")) { wp[i]->flush_client(); si.walk_client_flush[i] = true; }
      else {
        if (vc_bool("consume")) { wp[i]->consume_resp(); in.walk_clients[i].resp_consumed = true; vc_assert(!wp[i]->resp_valid(), "answer_taken_once"); }
        if (vc_bool("ask")) { PtwWalkReq q{}; q.vaddr = vc_u32("va"); q.satp = vc_u32("satp"); q.access_type = vc_u32("access"); bool ok = wp[i]->send_walk_req(q); vc_assert(ok == !(c.req_pending || c.req_inflight), "walk_request_taken_when_ready"); vc_assert(!wp[i]->send_walk_req(q), "one_walk_request_a_cycle"); if (ok) { in.walk_clients[i].req_valid = true; in.walk_clients[i].req = q; } }
      }
      if (vc_bool("mconsume")) { mp[i]->consume_resp(); in.mem_clients[i].resp_consumed = true; }
      if (vc_bool("mask")) { uint32_t x = vc_u32("maddr"); if (mp[i]->send_read_req(x)) { in.mem_clients[i].req_valid = true; in.mem_clients[i].req_addr = x; } }
    }
    Owner was = rt.cur.issued_tags.owner;
    S.comb_outputs(); S.comb_inputs(); auto grant = S.ptw_grant; auto ev = S.ptw_events; auto wake = S.wakeup; S.seq();
    r.comb_begin(in); auto &o = r.comb_outputs();
    auto &l = S.dcache_.s1s2_cur.loads[P]; Owner own = rt.cur.issued_tags.owner;
    vc_assert(IMPLIES(own == Owner::PTW_WALK, o.issue_walk_read && l.valid && l.addr == o.walk_read_addr) && IMPLIES(own == Owner::PTW_DTLB, o.mem_req_pending[0] && l.valid && l.addr == o.mem_req_addr[0]) && IMPLIES(own == Owner::PTW_ITLB, o.mem_req_pending[1] && l.valid && l.addr == o.mem_req_addr[1]), "walker_read_enters_the_cache");
    vc_assert(IMPLIES(own == Owner::NONE, !(o.issue_walk_read && was != Owner::PTW_WALK) && !(o.mem_req_pending[0] && was != Owner::PTW_DTLB) && !(o.mem_req_pending[1] && was != Owner::PTW_ITLB)), "walker_read_served_when_port_is_free");
    B::FeedbackIn f{}; f.wakeup_dtlb = wake.dtlb; f.wakeup_itlb = wake.itlb; f.wakeup_walk = wake.walk;
    f.grant_valid = grant.valid; f.grant_req_id = grant.req_id; f.grant_owner = grant.owner == Owner::PTW_DTLB ? B::GrantOwner::MEM_DTLB : grant.owner == Owner::PTW_ITLB ? B::GrantOwner::MEM_ITLB : B::GrantOwner::WALK;
    if (ev.valid) { f.event_count = 1; auto &e = f.events[0]; e.valid = true; e.data = ev.data; e.replay = ev.replay; e.req_addr = ev.req_addr; e.req_id = ev.req_id; e.owner = ev.owner == Owner::PTW_DTLB ? B::RoutedEventOwner::MEM_DTLB : ev.owner == Owner::PTW_ITLB ? B::RoutedEventOwner::MEM_ITLB : B::RoutedEventOwner::WALK; }
    r.comb_finish(f); r.seq(si);
    auto &x = w.cur_, &y = r.cur_;
    vc_assert(x.walk_active == y.walk_active && x.walk_state == y.walk_state && x.walk_owner == y.walk_owner && x.walk_req_id == y.walk_req_id && x.walk_req_id_valid == y.walk_req_id_valid && x.walk_l1_pte == y.walk_l1_pte, "walker_sees_its_own_signals");
    for (int i = 0; i < 2; i++) {
      auto &c = x.walk_clients[i], &d = y.walk_clients[i]; auto &m = x.mem_clients[i], &q = y.mem_clients[i];
      vc_assert(c.req_pending == d.req_pending && c.req_inflight == d.req_inflight && c.resp_valid == d.resp_valid && c.req.vaddr == d.req.vaddr && c.req.satp == d.req.satp && c.resp.fault == d.resp.fault && c.resp.leaf_pte == d.resp.leaf_pte && c.resp.leaf_level == d.resp.leaf_level, "walk_client_served_through_its_port");
      vc_assert(m.req_pending == q.req_pending && m.req_inflight == q.req_inflight && m.resp_valid == q.resp_valid && m.resp_data == q.resp_data && m.req_addr == q.req_addr, "reader_served_through_its_port");
      vc_assert(wp[i]->resp_valid() == c.resp_valid && IMPLIES(c.resp_valid, wp[i]->resp().fault == c.resp.fault && wp[i]->resp().leaf_pte == c.resp.leaf_pte && wp[i]->resp().leaf_level == c.resp.leaf_level) && wp[i]->comb_output().req_ready == !(c.req_pending || c.req_inflight), "walk_client_sees_its_answer");
      vc_assert(mp[i]->resp_valid() == m.resp_valid && IMPLIES(m.resp_valid, mp[i]->resp_data() == m.resp_data), "reader_sees_its_answer");
    }
  }
  vc_unreplace();
  vc_cover("ms_ports");
}
