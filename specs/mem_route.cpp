// Contracts of the block that shares the last load port of the data cache (MemRouteBlock.cpp)
// between the load/store unit, the page-table walker and the instruction cache's probes.
#include "vc.h"
#include "MemRouteBlock.h"
#include "util.h"
long long sim_time;
static Raw<MemRouteBlock> g_r;
#define R (g_r.v)
static Raw<DcacheLsuIO> dresp, lresp; static Raw<DCacheReqPorts> lreq; static Raw<LsuDcacheIO> dreq; static ICacheMemPortReq ireq; static ICacheMemPortResp iresp;
static PtwReq wreq, dtreq, itreq; static PtwGrant grant; static PtwEvent ev; static ReplayWakeup wake;
static const int P = LSU_LDU_COUNT - 1;
static bool ptw(Owner o) { return o == Owner::PTW_DTLB || o == Owner::PTW_ITLB || o == Owner::PTW_WALK; }
static bool route_id(uint32_t id) { return id >> 31; }
static void setup() {
  R.in.dcache_resp = &dresp.v; R.in.lsu_req = &lreq.v; R.in.icache_req = &ireq; R.in.ptw_walk_req = &wreq; R.in.ptw_dtlb_req = &dtreq; R.in.ptw_itlb_req = &itreq;
  R.out.dcache_req = &dreq.v; R.out.lsu_resp = &lresp.v; R.out.icache_resp = &iresp; R.out.ptw_grant = &grant; R.out.ptw_events = &ev; R.out.wakeup = &wake;
  R.ctx = nullptr;
}
static bool inv(const MemRouteBlockState &s) { return (uint8_t)s.issued_tags.owner <= (uint8_t)Owner::PTW_WALK && s.issued_tags.owner != Owner::LSU && route_id(s.next_req_id) && IMPLIES(s.issued_tags.owner != Owner::NONE, route_id(s.issued_tags.req_id) && s.issued_tags.req_id != s.next_req_id); }
static void havoc() {
  setup();
  vc_havoc(&R.cur, sizeof R.cur, "route"); R.nxt = R.cur;
  vc_havoc(&dresp, sizeof dresp, "dcache_resp"); vc_havoc(&lreq, sizeof lreq, "lsu_req"); vc_havoc(&ireq, sizeof ireq, "icache_req"); vc_havoc(&wreq, sizeof wreq, "walk_req"); vc_havoc(&dtreq, sizeof dtreq, "dtlb_req"); vc_havoc(&itreq, sizeof itreq, "itlb_req");
  vc_havoc(&dreq, sizeof dreq, "dreq"); vc_havoc(&lresp, sizeof lresp, "lresp"); vc_havoc(&iresp, sizeof iresp, "iresp"); vc_havoc(&grant, sizeof grant, "grant"); vc_havoc(&ev, sizeof ev, "ev"); vc_havoc(&wake, sizeof wake, "wake");
  vc_assume(inv(R.cur));
  for (int i = 0; i < LSU_LDU_COUNT; i++) vc_assume((uint8_t)dresp.v.resp_ports.load_resps[i].replay <= (uint8_t)ReplayType::MSHR_FULL);
}
VC_DRIVER(route_answers) {
  havoc();
  MemRouteBlockState s = R.cur; Owner o = s.issued_tags.owner;
  auto &a = dresp.v.resp_ports.load_resps[P];
  bool mine = o != Owner::NONE && a.valid && a.req_id == s.issued_tags.req_id, fill = dresp.v.mshr_fill;
  bool hit = mine && a.replay == ReplayType::HIT, again = mine && a.replay == ReplayType::CONFLICT, waits = mine && !hit && !again;
  static Raw<DcacheLsuIO> d0; memcpy((void *)&d0, (const void *)&dresp, sizeof d0);
  R.comb_response();
  auto same = [](auto &x, auto &y) { return x.valid == y.valid && x.data == y.data && x.req_id == y.req_id && x.replay == y.replay; };
  for (int i = 0; i < LSU_LDU_COUNT; i++) {
    auto &d = d0.v.resp_ports.load_resps[i]; auto &l = lresp.v.resp_ports.load_resps[i];
    if (i == P && mine) vc_assert(l.valid == s.lsu_replay_valid && IMPLIES(l.valid, l.req_id == s.lsu_replay_req_id && l.replay == ReplayType::CONFLICT), "displaced_load_is_told_to_retry");
    else vc_assert(route_id(d.req_id) && d.valid ? !l.valid : same(d, l), "load_answer_passed_on");
  }
  for (int i = 0; i < LSU_STA_COUNT; i++) vc_assert(d0.v.resp_ports.store_resps[i].valid == lresp.v.resp_ports.store_resps[i].valid && d0.v.resp_ports.store_resps[i].req_id == lresp.v.resp_ports.store_resps[i].req_id && d0.v.resp_ports.store_resps[i].replay == lresp.v.resp_ports.store_resps[i].replay, "store_answer_passed_on");
  vc_assert(lresp.v.mshr_fill == d0.v.mshr_fill && lresp.v.mshr_fill_addr == d0.v.mshr_fill_addr, "fill_announcement_passed_on");
  vc_assert(ev.valid == (hit && ptw(o)) && IMPLIES(ev.valid, ev.owner == o && ev.data == a.data && ev.req_id == s.issued_tags.req_id && ev.req_addr == s.issued_tags.req_addr && ev.replay == 0), "walker_gets_its_own_answer");
  vc_assert(iresp.resp_valid == (mine && o == Owner::ICACHE) && IMPLIES(iresp.resp_valid, iresp.resp_miss == !hit && IMPLIES(hit, iresp.resp_data == a.data)), "probe_gets_its_own_answer");
  const bool w0[3] = {s.ptw_wait.dtlb, s.ptw_wait.itlb, s.ptw_wait.walk}, w1[3] = {R.nxt.ptw_wait.dtlb, R.nxt.ptw_wait.itlb, R.nxt.ptw_wait.walk}, up[3] = {wake.dtlb, wake.itlb, wake.walk};
  const Owner who[3] = {Owner::PTW_DTLB, Owner::PTW_ITLB, Owner::PTW_WALK};
  for (int k = 0; k < 3; k++) {
    bool waiting = w0[k] || (waits && o == who[k]);
    vc_assert(IMPLIES(waiting, fill ? up[k] && !w1[k] : w1[k]), "waiting_reader_is_woken_by_the_line");
    vc_assert(IMPLIES(again && o == who[k], up[k]), "refused_reader_retries");
    vc_assert(IMPLIES(up[k], (again && o == who[k]) || (fill && waiting)) && IMPLIES(w1[k], waiting), "no_reader_woken_without_reason");
  }
  R.nxt.issued_tags = s.issued_tags; // set by comb_request
  vc_cover("route_answers");
}
VC_DRIVER(route_requests) {
  havoc();
  MemRouteBlockState s = R.cur; Owner busy = s.issued_tags.owner;
  R.comb_request();
  const Owner who[4] = {Owner::ICACHE, Owner::PTW_WALK, Owner::PTW_DTLB, Owner::PTW_ITLB}; const bool asks[4] = {(bool)ireq.req_valid, (bool)wreq.valid, (bool)dtreq.valid, (bool)itreq.valid}; const uint32_t addr[4] = {ireq.req_addr, wreq.addr, dtreq.addr, itreq.addr};
  Owner o = R.nxt.issued_tags.owner; auto &q = dreq.v.req_ports.load_ports[P]; auto &l = lreq.v.load_ports[P];
  bool any = false, found = false;
  for (int k = 0; k < 4; k++) { bool may = asks[k] && who[k] != busy; any = any || may; if (o == who[k]) { found = true; vc_assert(may && q.valid && q.addr == addr[k], "served_request_is_on_the_port"); vc_assert(R.nxt.issued_tags.req_addr == addr[k], "served_request_is_remembered"); } }
  vc_assert((o == Owner::NONE) == !any && (found || o == Owner::NONE), "some_request_served_if_any");
  auto same = [](auto &x, auto &y) { return x.valid == y.valid && x.addr == y.addr && x.req_id == y.req_id; };
  if (o == Owner::NONE) vc_assert(same(q, l), "load_request_passed_on");
  else {
    vc_assert(q.req_id == s.next_req_id && R.nxt.issued_tags.req_id == q.req_id && R.nxt.next_req_id != q.req_id, "served_request_has_a_fresh_id");
    vc_assert(R.nxt.lsu_replay_valid == l.valid && IMPLIES(l.valid, R.nxt.lsu_replay_req_id == l.req_id), "displaced_load_is_remembered");
  }
  for (int i = 0; i < P; i++) vc_assert(same(dreq.v.req_ports.load_ports[i], lreq.v.load_ports[i]), "load_request_passed_on");
  for (int i = 0; i < LSU_STA_COUNT; i++) { auto &x = dreq.v.req_ports.store_ports[i]; auto &y = lreq.v.store_ports[i]; vc_assert(same(x, y) && x.data == y.data && x.strb == y.strb, "store_request_passed_on"); }
  vc_assert(dreq.v.icache_req == (o == Owner::ICACHE ? P : LSU_LDU_COUNT), "probe_is_marked");
  vc_assert(grant.valid == ptw(o) && IMPLIES(grant.valid, grant.owner == o && grant.req_id == q.req_id), "grant_goes_to_the_served_reader");
  const ReplayWakeup &a = R.nxt.ptw_wait, &b = s.ptw_wait; vc_assert(a.dtlb == b.dtlb && a.itlb == b.itlb && a.walk == b.walk, "waiting_readers_are_kept");
  MemRouteBlockState n = R.nxt; R.seq();
  vc_assert(inv(R.cur) && R.cur.issued_tags.owner == n.issued_tags.owner && R.cur.issued_tags.req_id == n.issued_tags.req_id && R.cur.next_req_id == n.next_req_id && R.cur.lsu_replay_valid == n.lsu_replay_valid && R.cur.lsu_replay_req_id == n.lsu_replay_req_id && R.cur.ptw_wait.dtlb == n.ptw_wait.dtlb && R.cur.ptw_wait.itlb == n.ptw_wait.itlb && R.cur.ptw_wait.walk == n.ptw_wait.walk, "route_state_kept");
  vc_cover("route_requests");
}
VC_DRIVER(route_reset) {
  setup(); vc_havoc(&R.cur, sizeof R.cur, "cur"); vc_havoc(&R.nxt, sizeof R.nxt, "nxt");
  R.init();
  vc_assert(inv(R.cur) && inv(R.nxt) && R.cur.issued_tags.owner == Owner::NONE && !R.cur.ptw_wait.dtlb && !R.cur.ptw_wait.itlb && !R.cur.ptw_wait.walk, "reset_route_is_idle");
  vc_cover("route_reset");
}
