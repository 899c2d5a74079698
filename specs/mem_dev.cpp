// Contracts of the device side: the bridge that carries the load/store unit's device accesses
// (PeripheralAxi), the modelled devices (PeripheralModel) and the word store behind them
// (PhysMemory).
#include "umap_model.h"
#include "PeripheralAxi.h"
#include "PeripheralModel.h"
#include "PhysMemory.h"
#include "RealLsu.h"
#include "SimCpu.h"
#include "config.h"
#include <new>
long long sim_time;
static Raw<PeripheralAxi> g_axi, g_axi0;
static Raw<PeripheralModel> g_dev, g_dev0;
static Raw<RealLsu> g_lsu;
#define B (g_axi.v)
#define B0 (g_axi0.v)
#define D (g_dev.v)
#define D0 (g_dev0.v)
#define L (g_lsu.v)
static PeripheralReqIO preq; static PeripheralRespIO presp; static CsrInterruptInjectIO irq, irq0;
static const uint32_t TIMER = 0x1fd0e000u, DMA = 0x1fd0f000u, UART = 0x10000000u, PLIC = 0x0c000000u, CLAIM = 0x0c201004u;
static bool modelled(uint32_t a) { return a - UART < 0x100u || a - PLIC < 0x210000u || a - DMA < 0x100u || a - TIMER < 0x100u; }
static uint32_t extend(uint32_t v, unsigned f3) { switch (f3 & 7) { case 0: return (uint32_t)(int32_t)(int8_t)v; case 1: return (uint32_t)(int32_t)(int16_t)v; case 4: return v & 0xff; case 5: return v & 0xffff; default: return v; } }

// ---- memory ----
static uint32_t *g_ram, *g_ram0; static uint8_t *g_iop0; static uint32_t *g_iov0;
static const uint32_t RAM_LO = 0x80000000u, RAM_HI = RAM_LO + (uint32_t)RAM_SIZE;
static void memory() {
  um_install();
  p_memory = g_ram = (uint32_t *)vc_new_array(RAM_SIZE, 4, "ram");
#ifdef VC_NATIVE
  g_ram0 = (uint32_t *)vc_new_array(RAM_SIZE, 4, "ram_shadow");
  uint64_t i, p, j, v;
  for (size_t k = 0; vc_model_arr("ram", k, &i, &v); k++) if (i < RAM_SIZE / 4) g_ram0[i] = (uint32_t)v;
  g_iop0 = um_present; g_iov0 = um_value;
  for (size_t k = 0; vc_model_arr("iomap_present", k, &i, &p); k++) if (p) for (size_t l = 0; vc_model_arr("iomap_value", l, &j, &v); l++) if (j == i) pmem_write((uint32_t)(i << 2), (uint32_t)v);
#else
  g_ram0 = (uint32_t *)vc_new_array(RAM_SIZE, 4, "ram0"); g_iop0 = (uint8_t *)vc_new_array(1ull << 30, 1, "iop0"); g_iov0 = (uint32_t *)vc_new_array(1ull << 32, 4, "iov0");
  vc_arr_copy(g_ram0, g_ram); vc_arr_copy(g_iop0, um_present); vc_arr_copy(g_iov0, um_value);
#endif
}
static bool in_ram(uint32_t a) { return a >= RAM_LO && a < RAM_HI; }
static uint32_t word0(uint32_t a) { a &= ~3u; return in_ram(a) ? g_ram0[(a - RAM_LO) >> 2] : g_iop0[a >> 2] ? g_iov0[a >> 2] : 0; }
static uint32_t word1(uint32_t a) {
  a &= ~3u;
#ifdef VC_NATIVE
  return pmem_read(a);
#else
  return in_ram(a) ? g_ram[(a - RAM_LO) >> 2] : um_get(a);
#endif
}
// physical memory is a function from words to values: reads and writes are of the word addressed
VC_DRIVER(dev_pmem) {
  memory();
  uint32_t a = vc_u32("addr"), d = vc_u32("data"), q = vc_u32("probe"), n = vc_u32("len");
  vc_assert(pmem_read(q) == word0(q), "a read returns the word at the address");
  pmem_write(a, d);
  vc_assert(pmem_read(q) == ((q & ~3u) == (a & ~3u) ? d : word0(q)), "a write changes exactly the word addressed");
  vc_assert(pmem_is_ram_addr(a, n) == (n != 0 && a >= RAM_LO && (uint64_t)a + n <= (uint64_t)RAM_LO + RAM_SIZE), "a range is RAM when all of it is");
  vc_cover("physical memory");
}

// ---- modelled devices ----
static uint64_t now0() { return (uint64_t)sim_time + D0.timer_offset_; }
static uint64_t now1() { return (uint64_t)sim_time + D.timer_offset_; }
static void devices() {
  memory();
  vc_havoc(&sim_time, sizeof sim_time, "sim_time"); vc_assume(sim_time >= 0);
  vc_havoc(&D, sizeof D, "devices"); vc_havoc(&irq, sizeof irq, "irq");
  D.csr_interrupt_inject = &irq; D.memory = p_memory; D.ram_sync_hook_ = nullptr;
  uint8_t *f[] = {(uint8_t *)&D.uart_irq_pending_, (uint8_t *)&D.dma_irq_pending_}; for (auto p : f) *p &= 1;
  memcpy((void *)&g_dev0, (const void *)&g_dev, sizeof g_dev); irq0 = irq;
}
static bool same_dma() { return D.dma_src_ == D0.dma_src_ && D.dma_dst_ == D0.dma_dst_ && D.dma_len_ == D0.dma_len_ && D.dma_ctrl_ == D0.dma_ctrl_ && D.dma_status_ == D0.dma_status_; }
static bool same_pending() { return D.uart_irq_pending_ == D0.uart_irq_pending_ && D.dma_irq_pending_ == D0.dma_irq_pending_; }
static uint32_t claim_of(bool dma, bool uart) { return dma ? 11 : uart ? 10 : 0; }
VC_DRIVER(dev_read) {
  devices();
  uint32_t a = vc_u32("addr"), f3 = vc_u32("func3") & 7, q = vc_u32("probe");
  vc_assert(PeripheralModel::is_modeled_mmio(a) == modelled(a), "the device address map");
  vc_assume(modelled(a) && (a & ((f3 & 3) == 0 ? 0 : (f3 & 3) == 1 ? 1 : 3)) == 0);
  bool reg = a - TIMER < 16 || a - DMA < 20; vc_assume(IMPLIES(reg, (f3 & 3) == 2));
  uint32_t regs[] = {(uint32_t)now0(), (uint32_t)(now0() >> 32), (uint32_t)D0.timer_cmp_, (uint32_t)(D0.timer_cmp_ >> 32)}, dma[] = {D0.dma_src_, D0.dma_dst_, D0.dma_len_, D0.dma_ctrl_, D0.dma_status_};
  uint32_t r = D.read_load(a, f3), e = extend(word0(a) >> (8 * (a & 3)), f3);
  for (unsigned i = 0; i < 4; i++) if (a == TIMER + 4 * i) e = regs[i];
  for (unsigned i = 0; i < 5; i++) if (a == DMA + 4 * i) e = dma[i];
  vc_assert(r == e, "a device load returns the register addressed, sized and extended");
  vc_assert(word1(q) == word0(q) && same_dma() && same_pending() && D.timer_cmp_ == D0.timer_cmp_ && D.timer_offset_ == D0.timer_offset_, "a device load changes nothing");
  vc_cover("device read");
}
VC_DRIVER(dev_write) {
  devices(); D.dma_len_ = D0.dma_len_ = 8; // transfers: dev_dma
  uint32_t a = vc_u32("addr"), d = vc_u32("data"), f3 = vc_choose(3), q = vc_u32("probe") & ~3u;
  vc_assume(modelled(a) && (a & ((1u << f3) - 1)) == 0);
  bool reg = a - TIMER < 16 || a - DMA < 20; vc_assume(IMPLIES(reg, f3 == 2)); vc_assume(!(a == DMA + 12 && (d & 1)));
  D.on_commit_store(a, d, f3);
  uint64_t t = now0(), c = D0.timer_cmp_;
  if (a == TIMER) t = (t >> 32 << 32) | d; if (a == TIMER + 4) t = ((uint64_t)d << 32) | (uint32_t)t;
  if (a == TIMER + 8) c = (c >> 32 << 32) | d; if (a == TIMER + 12) c = ((uint64_t)d << 32) | (uint32_t)c;
  vc_assert(now1() == t && D.timer_cmp_ == c, "a timer store sets exactly the half addressed");
  vc_assert(IMPLIES(a - TIMER < 16, irq.timer_irq_pending_valid && irq.timer_irq_pending == (t >= c)), "the timer line is up exactly when the time has reached the compare value");
  vc_assert(IMPLIES(!(a - TIMER < 16), irq.timer_irq_pending_valid == irq0.timer_irq_pending_valid && irq.timer_irq_pending == irq0.timer_irq_pending), "the timer line is the timer's");
  vc_assert(D.dma_src_ == (a == DMA ? d : D0.dma_src_) && D.dma_dst_ == (a == DMA + 4 ? d : D0.dma_dst_) && D.dma_len_ == (a == DMA + 8 ? d : D0.dma_len_) && D.dma_ctrl_ == (a == DMA + 12 ? d & 2 : D0.dma_ctrl_) && D.dma_status_ == (a == DMA + 16 ? D0.dma_status_ & ~d : D0.dma_status_), "a DMA store sets the register addressed; writing ones clears status bits");
  uint32_t sh = 8 * (a & 3), m = (f3 == 0 ? 0xffu : f3 == 1 ? 0xffffu : ~0u) << sh, w0 = word0(a), w = (w0 & ~m) | ((d << sh) & m), cl = word0(CLAIM);
  bool uart = D0.uart_irq_pending_, dma = D0.dma_irq_pending_, ext = false; uint32_t b = d & 0xff;
  if (a == UART) w &= 0xffffff00u;
  if (a == UART + 1 && b == 7) { w &= 0xfff0ffffu; uart = true; ext = true; }
  if (a == UART + 1 && b == 5) w = (w & 0xfff0ffffu) | 0x30000u;
  if (a == CLAIM) { if (b == 10) uart = false; if (b == 11) dma = false; ext = true; }
  if (ext) cl = claim_of(dma, uart); else if ((a & ~3u) == CLAIM) cl = w;
  vc_assert(D.uart_irq_pending_ == uart && D.dma_irq_pending_ == dma, "an interrupt source is raised by its device and lowered by its completion");
  vc_assert(word1(q) == (q == CLAIM ? cl : !reg && q == (a & ~3u) ? w : word0(q)), "a device store writes the bytes addressed, and the pending source is shown for claiming");
  vc_assert(IMPLIES(ext, irq.external_irq_pending_valid && irq.external_irq_pending == (uart || dma)) && IMPLIES(!ext, irq.external_irq_pending_valid == irq0.external_irq_pending_valid && irq.external_irq_pending == irq0.external_irq_pending), "the external line is up exactly while a source is pending");
  vc_cover("device write");
}
// stores elsewhere are none of the devices' business; reset and wiring
VC_DRIVER(dev_other) {
  devices(); D.dma_len_ = D0.dma_len_ = 8;
  uint32_t a = vc_u32("addr"), d = vc_u32("data"), f3 = vc_choose(3), q = vc_u32("probe") & ~3u;
  vc_assume(!modelled(a));
  D.on_commit_store(a, d, f3);
  vc_assert(word1(q) == word0(q) && same_dma() && same_pending() && D.timer_cmp_ == D0.timer_cmp_ && D.timer_offset_ == D0.timer_offset_ && vc_eq(&irq, &irq0, sizeof irq), "a store to another address does not reach the devices");
  vc_cover("other address");
}
VC_DRIVER(dev_init) {
  devices();
  new (&D) PeripheralModel();
  vc_assert(D.timer_cmp_ == 0 && D.timer_offset_ == 0 && D.dma_src_ == 0 && D.dma_dst_ == 0 && D.dma_len_ == 0 && D.dma_ctrl_ == 0 && D.dma_status_ == 0 && !D.uart_irq_pending_ && !D.dma_irq_pending_, "devices start idle");
  D.bind(&irq, p_memory);
  uint32_t d = vc_u32("data"); D.on_commit_store(DMA, d, 2);
  vc_assert(D.read_load(DMA, 2) == d, "devices answer once bound");
  D.tick();
  vc_assert(irq.timer_irq_pending_valid && irq.timer_irq_pending && irq.external_irq_pending_valid && !irq.external_irq_pending, "devices drive the interrupt lines they are bound to");
  vc_cover("device reset");
}
VC_DRIVER(dev_tick) {
  devices();
  uint32_t q = vc_u32("probe") & ~3u;
  D.tick();
  vc_assert(irq.timer_irq_pending_valid && irq.timer_irq_pending == (now0() >= D0.timer_cmp_) && D.timer_irq_level() == (now0() >= D0.timer_cmp_), "the timer line is up exactly when the time has reached the compare value");
  vc_assert(irq.external_irq_pending_valid && irq.external_irq_pending == (D0.uart_irq_pending_ || D0.dma_irq_pending_), "the external line is up exactly while a source is pending");
  vc_assert(same_dma() && same_pending() && D.timer_cmp_ == D0.timer_cmp_ && D.timer_offset_ == D0.timer_offset_ && word1(q) == (q == CLAIM ? claim_of(D0.dma_irq_pending_, D0.uart_irq_pending_) : word0(q)), "time passing changes no device register");
  vc_cover("tick");
}
// a transfer copies the source range over the destination range, or reports an error and copies nothing
static uint32_t hook_addr; static uint64_t hook_len; static unsigned hooks;
static void hook(uint32_t a, size_t n) { hooks++; hook_addr = a; hook_len = n; }
VC_DRIVER(dev_dma) {
  devices(); vc_loop_queries(0);
  D.ram_sync_hook_ = hook; hooks = 0;
  static const uint32_t len[] = {4, 8, 16, 64, 0, 4, 8, 16};
  unsigned k = vc_choose(8); bool ok = k < 4; uint32_t ctl = vc_u32("ctl") | 1, q = vc_u32("probe") & ~3u, n = D.dma_len_ = D0.dma_len_ = len[k];
  if (ok) { D.dma_src_ &= ~3u; D.dma_dst_ &= ~3u; D0.dma_src_ = D.dma_src_; D0.dma_dst_ = D.dma_dst_; }
  uint32_t src = D0.dma_src_, dst = D0.dma_dst_;
  vc_assume(ok == (n != 0 && src >= RAM_LO && dst >= RAM_LO && (uint64_t)src + n <= (uint64_t)RAM_LO + RAM_SIZE && (uint64_t)dst + n <= (uint64_t)RAM_LO + RAM_SIZE));
  D.on_commit_store(DMA + 12, ctl, 2);
  vc_assert(D.dma_status_ == (ok ? 2u : 4u) && D.dma_src_ == src && D.dma_dst_ == dst && D.dma_len_ == n && D.dma_ctrl_ == (ctl & 2), "a transfer ends as done, or as refused when a range is not in RAM");
  bool raise = ok && (ctl & 2); uint32_t e = word0(q);
  if (ok) e = q - dst < n ? word0(src + (q - dst)) : e;
  if (raise && q == CLAIM) e = 11;
  vc_assert(word1(q) == e, "a transfer copies the source range as it was over the destination range and nothing else");
  vc_assert(D.dma_irq_pending_ == (raise || D0.dma_irq_pending_) && D.uart_irq_pending_ == D0.uart_irq_pending_ && IMPLIES(raise, irq.external_irq_pending_valid && irq.external_irq_pending), "a finished transfer interrupts when asked to");
  vc_assert(hooks == (ok ? 1 : 0) && IMPLIES(ok, hook_addr == dst && hook_len == n), "the caches are told about the memory a transfer changed");
  vc_cover("dma");
}

// ---- bridge ----
static void bridge() {
  vc_havoc(&B, sizeof B, "bridge"); vc_havoc(&preq, sizeof preq, "preq"); vc_havoc(&presp, sizeof presp, "presp");
  B.peripheral_req = &preq; B.peripheral_resp = &presp; B.peripheral_model = &D;
  bool *f[] = {&B.cur.busy, &B.cur.write, &B.cur.req_accepted, &B.cur.resp_valid, &B.in.read.req_accepted, &B.in.read.resp_valid, &B.in.write.req_accepted, &B.in.write.resp_valid};
  for (auto p : f) *(uint8_t *)p &= 1;
  B.cur.func3 &= 7; preq.mmio_fun3 &= 7;
}
static uint32_t read_load_contract(const PeripheralModel *, uint32_t, uint8_t) { return vc_u32("device_value"); }
VC_DRIVER(dev_bridge) {
  devices(); bridge();
  vc_assume(!(B.cur.busy && B.cur.resp_valid));
  memcpy((void *)&g_axi0, (const void *)&g_axi, sizeof g_axi);
  const PeripheralAxiState s = B.cur; const PeripheralReqIO r = preq;
  B.comb_outputs();
  const auto &rd = B.out.read; const auto &wr = B.out.write; uint32_t n = (s.func3 & 3) == 0 ? 1 : (s.func3 & 3) == 1 ? 2 : 4;
  vc_assert(rd.req_valid == (s.busy && !s.req_accepted && !s.write) && wr.req_valid == (s.busy && !s.req_accepted && s.write), "a device access off the models goes to the bus until it is accepted");
  vc_assert(IMPLIES(rd.req_valid, rd.req_addr == s.addr && rd.req_total_size + 1u == n), "a bus read carries the address and size of the load");
  vc_assert(IMPLIES(wr.req_valid, wr.req_addr == s.addr && wr.req_total_size + 1u == n && wr.req_wstrb == (1u << n) - 1 && wr.req_wdata[0] == (n == 4 ? s.wdata : s.wdata & ((1u << (8 * n)) - 1))), "a bus write carries the address, size and data of the store");
  vc_assert(rd.resp_ready == (s.busy && s.req_accepted && !s.write) && wr.resp_ready == (s.busy && s.req_accepted && s.write), "the answer is awaited once the request is accepted");
  vc_assert(presp.is_mmio == s.resp_valid && IMPLIES(s.resp_valid, presp.mmio_rdata == s.rdata), "an answer is given once, with its data");
  B.comb_inputs();
  bool take = !s.busy && r.is_mmio, here = take && modelled(r.mmio_addr), done = s.busy && s.req_accepted && (s.write ? B.in.write.resp_valid : B.in.read.resp_valid), acc = s.busy && !s.req_accepted && (s.write ? B.in.write.req_accepted : B.in.read.req_accepted);
  bool ready = presp.ready, ans = presp.is_mmio;
  B.seq();
  const PeripheralAxiState &t = B.cur;
  vc_assert(ans == s.resp_valid, "an answer is given once, with its data");
  vc_assert(t.busy == (s.busy ? !done : take && !here) && t.resp_valid == (here || done), "every request taken is answered exactly once");
  vc_assert(IMPLIES(take, t.addr == r.mmio_addr && t.write == r.wen && t.func3 == r.mmio_fun3 && IMPLIES(r.wen, t.wdata == r.mmio_wdata) && IMPLIES(!here, !t.req_accepted)), "a request is taken as sent");
  vc_assert(IMPLIES(s.busy && !done, t.addr == s.addr && t.write == s.write && t.func3 == s.func3 && t.wdata == s.wdata && t.req_accepted == (s.req_accepted || acc)), "an access in progress keeps its address, size and data");
  vc_assert(IMPLIES(here && !r.wen, t.rdata == D.read_load(r.mmio_addr, r.mmio_fun3)), "a load of a modelled device returns what the device says (M08)");
  vc_assert(IMPLIES(done && !s.write, t.rdata == extend(B0.in.read.resp_data[0], s.func3)), "a bus read returns the bus data, sized and extended");
  vc_assert(IMPLIES(ready, !t.busy && !t.resp_valid), "the bridge offers to take a request only when no answer is outstanding");
  vc_assert(IMPLIES(!t.busy && !t.resp_valid, ready), "an idle bridge offers to take a request");
  vc_cover("bridge");
}
VC_DRIVER(dev_reset) {
  bridge();
  B.init();
  vc_assert(!B.cur.busy && !B.cur.resp_valid && !B.nxt.busy && !B.nxt.resp_valid && !presp.is_mmio && !presp.ready, "nothing is outstanding after reset");
  vc_cover("reset");
}
// the load/store unit and the bridge together: every device access is sent once and gets its own answer
VC_DRIVER(dev_once) {
  vc_loop_queries(0); bridge(); vc_replace(vc_fn(&PeripheralModel::read_load), (const void *)read_load_contract);
  vc_havoc(&L.cur.uncached_unit, sizeof(UncachedUnit), "unit"); vc_havoc(&L.nxt, sizeof(LsuState), "lsu");
  L.ctx = nullptr; L.in.peripheral_resp = &presp; L.out.peripheral_req = &preq;
  UncachedUnit &u = L.cur.uncached_unit; u.idx &= LDQ_SIZE - 1; u.func3 &= 7;
  uint8_t *f[] = {(uint8_t *)&u.valid, (uint8_t *)&u.is_load, (uint8_t *)&u.req_sent, (uint8_t *)&presp.is_mmio, (uint8_t *)&presp.ready}; for (auto p : f) *p &= 1;
  L.nxt.uncached_unit = u; L.nxt.finish_count &= 15; L.nxt.finish_head &= LDQ_SIZE - 1;
  bool mine = vc_bool("mine"); // the outstanding answer is that of the access in the unit
  auto inv = [&](const UncachedUnit &u, bool mine) {
    const PeripheralAxiState &s = B.cur; int out = (s.busy ? 1 : 0) + (s.resp_valid ? 1 : 0) + (presp.is_mmio ? 1 : 0);
    return out <= 1 && IMPLIES(presp.ready, !s.busy && !s.resp_valid) && mine == (u.valid && u.req_sent) && IMPLIES(mine, out == 1) && IMPLIES(mine && (s.busy || s.resp_valid), s.addr == u.addr && IMPLIES(s.busy, s.write == !u.is_load && s.func3 == u.func3 && IMPLIES(s.write, s.wdata == u.wdata)));
  };
  vc_assume(inv(u, mine));
  UncachedUnit u0 = u; bool ans = presp.is_mmio;
  L.comb_mmio_in();
  UncachedUnit &v = L.nxt.uncached_unit;
  vc_assert(IMPLIES(u0.valid, v.valid == !(ans && mine)), "a device access ends with its own answer, not with that of a cancelled one");
  if (ans) mine = false;
  // the rest of the unit may cancel the access or, when there is none, start one (M02, M03)
  if (v.valid) { if (vc_choose(2)) { v.valid = false; mine = false; } }
  else if (vc_choose(2)) { vc_havoc(&v, sizeof v, "fresh"); v.valid = true; v.is_load = vc_bool("fresh_load"); v.idx &= LDQ_SIZE - 1; v.func3 &= 7; v.req_sent = false; }
  L.comb_mmio_out();
  bool sent = preq.is_mmio;
  vc_assert(IMPLIES(sent, v.valid && !mine && !B.cur.busy && !B.cur.resp_valid), "a device access is sent once, when no answer is outstanding");
  vc_assert(IMPLIES(v.valid && presp.ready && !mine, sent), "a device access is sent as soon as the bridge is ready");
  if (sent) mine = true;
  B.comb_outputs(); B.comb_inputs(); B.seq();
  UncachedUnit w = v;
  vc_assert(IMPLIES(sent, (B.cur.busy || B.cur.resp_valid) && B.cur.addr == w.addr), "a request sent is taken");
  vc_assert(inv(w, mine), "every device access has exactly one answer coming");
  vc_cover("device access");
}
