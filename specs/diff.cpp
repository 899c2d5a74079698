// Contracts of the lock-step comparer (diff/diff.cpp).  The reference model behind it is the
// library interface, played here by arbitrary answers.
#include "vc.h"
#include "diff.h"
#include "PhysMemory.h"
#include "config.h"
#include "Csr.h"
#include <cstdio>
#include <cstdlib>
long long sim_time;
static RefCpuState g_ref; static RefCpuStepInfo g_info; static RefCpuState g_set;
static unsigned steps, sets, order, faults_at, time_at, step_at; static bool f_inst, f_load, f_store; static uint64_t g_time; static uint32_t step_n;
static bool g_uart, g_only, g_dev, g_is_ram; static unsigned ranges, asked_addr, asked_size, from_addr, from_size, to_addr, to_size; static uint8_t g_ram[64], g_got[64];
static char g_ctx;
extern "C" {
RefCpuContext *refcpu_init(uint32_t, uint32_t) { return (RefCpuContext *)&g_ctx; }
void refcpu_destroy(RefCpuContext *) {}
void refcpu_get_state(RefCpuContext *, RefCpuState *s) { *s = g_ref; }
void refcpu_set_state(RefCpuContext *, const RefCpuState *s) { g_set = *s; sets++; }
void refcpu_get_step_info(RefCpuContext *, RefCpuStepInfo *i) { *i = g_info; }
void refcpu_step(RefCpuContext *, uint32_t n) { steps++; step_n = n; step_at = ++order; }
void refcpu_set_dut_expected_faults(RefCpuContext *, bool i, bool l, bool s) { f_inst = i; f_load = l; f_store = s; faults_at = ++order; }
void refcpu_set_sim_time(RefCpuContext *, uint64_t t) { g_time = t; time_at = ++order; }
void refcpu_set_sim_end(RefCpuContext *, bool) {}
void refcpu_set_uart_print(RefCpuContext *, bool b) { g_uart = b; }
void refcpu_set_ref_only(RefCpuContext *, bool b) { g_only = b; }
void refcpu_set_device_effects(RefCpuContext *, bool b) { g_dev = b; }
void refcpu_sync_ram_from_dut(RefCpuContext *, const uint32_t *, size_t) {}
void refcpu_sync_ram_range_from_dut(RefCpuContext *, uint32_t a, const void *d, size_t n) { ranges++; to_addr = a; to_size = n; for (size_t i = 0; i < n && i < sizeof g_got; i++) g_got[i] = ((const uint8_t *)d)[i]; }
uint32_t *refcpu_get_ram_ptr(RefCpuContext *) { return nullptr; }
uint32_t refcpu_load_word(RefCpuContext *, uint32_t) { return 0; }
void refcpu_clear_io_words(RefCpuContext *) {}
void refcpu_set_io_word(RefCpuContext *, uint32_t, uint32_t) {}
uint32_t refcpu_get_io_word(RefCpuContext *, uint32_t) { return 0; }
bool refcpu_probe_pc_translation(RefCpuContext *) { return true; }
}
uint32_t pmem_read(uint32_t) { return 0; }
void pmem_write(uint32_t, uint32_t) {}
uint32_t *pmem_ram_ptr() { return nullptr; }
bool pmem_is_ram_addr(uint32_t a, uint32_t n) { asked_addr = a; asked_size = n; return g_is_ram; }
void pmem_memcpy_from_ram(void *d, uint32_t a, size_t n) { from_addr = a; from_size = n; for (size_t i = 0; i < n && i < sizeof g_ram; i++) ((uint8_t *)d)[i] = g_ram[i]; }
static void arbitrary() {
  vc_havoc(&dut_cpu, sizeof dut_cpu, "dut"); vc_havoc(&g_ref, sizeof g_ref, "ref"); vc_havoc(&g_info, sizeof g_info, "step_info");
  vc_havoc(&sim_time, sizeof sim_time, "sim_time"); vc_assume(sim_time >= 0);
  bool *f[] = {&dut_cpu.store, &dut_cpu.page_fault_inst, &dut_cpu.page_fault_load, &dut_cpu.page_fault_store, &dut_cpu.reserve_valid, &g_ref.store, &g_ref.page_fault_inst, &g_ref.page_fault_load, &g_ref.page_fault_store, &g_ref.reserve_valid, &g_info.page_fault_inst, &g_info.page_fault_load, &g_info.page_fault_store};
  for (auto p : f) *(uint8_t *)p &= 1;
  steps = sets = order = 0;
}
// the pending bits driven by devices may differ in time between the models unless the instruction reads them
static const uint32_t ASYNC = 0x880u, SIP = 0x333u;
static bool reads_pending() { uint32_t i = g_info.instruction; return (i & 0x7f) == 0x73 && (i >> 20 == 0x344 || i >> 20 == 0x144); }
static bool csr_agrees(unsigned c) {
  uint32_t r = g_ref.csr[c], d = dut_cpu.csr[c];
  if (c == csr_mip && !reads_pending()) return ((r ^ d) & ~ASYNC) == 0;
  if (c == csr_sip && !reads_pending()) return ((g_ref.csr[csr_mip] ^ dut_cpu.csr[csr_mip]) & ~ASYNC & SIP) == 0;
  return r == d;
}
static bool agree() {
  bool ok = g_ref.pc == dut_cpu.pc && (g_info.page_fault_inst || g_info.instruction == dut_cpu.instruction) && g_info.page_fault_inst == dut_cpu.page_fault_inst && g_info.page_fault_load == dut_cpu.page_fault_load && g_info.page_fault_store == dut_cpu.page_fault_store;
  for (int i = 0; i < 32; i++) ok = ok & (g_ref.gpr[i] == dut_cpu.gpr[i]);
  for (int i = 0; i < 21; i++) ok = ok & csr_agrees(i);
  return ok && IMPLIES(g_ref.store, dut_cpu.store && dut_cpu.store_data == g_ref.store_data && dut_cpu.store_addr == g_ref.store_addr);
}
static CPU_state before;
static bool stepped() {
  return steps == 1 && step_n == 1 && faults_at != 0 && time_at != 0 && faults_at < step_at && time_at < step_at && f_inst == before.page_fault_inst && f_load == before.page_fault_load && f_store == before.page_fault_store && g_time == (uint64_t)sim_time;
}
// the simulation goes on only if the two models agree
VC_DRIVER(diff_catches) {
  arbitrary(); vc_allow_exit(); before = dut_cpu; faults_at = time_at = 0;
  difftest_step(true);
  unsigned r = vc_u8("reg") & 31, c = vc_u8("csr"); vc_assume(c < 21);
  vc_assert(g_ref.pc == dut_cpu.pc, "a different next address is reported");
  vc_assert(IMPLIES(!g_info.page_fault_inst, g_info.instruction == dut_cpu.instruction), "a different instruction is reported");
  vc_assert(g_info.page_fault_inst == dut_cpu.page_fault_inst && g_info.page_fault_load == dut_cpu.page_fault_load && g_info.page_fault_store == dut_cpu.page_fault_store, "a page fault taken by one model only is reported");
  vc_assert(g_ref.gpr[r] == dut_cpu.gpr[r], "a different register is reported");
  vc_assert(csr_agrees(c), "a different CSR is reported");
  vc_assert(IMPLIES(g_ref.store, dut_cpu.store && dut_cpu.store_data == g_ref.store_data && dut_cpu.store_addr == g_ref.store_addr), "a different store is reported");
  vc_assert(stepped(), "the reference model makes one step, knowing the time and the faults of the pipeline");
  vc_assert(vc_eq(&dut_cpu, &before, sizeof before) && sets == 0, "comparing changes neither model");
  vc_cover("agreement");
}
// agreement is never reported as an error
#ifdef VC_NATIVE
static bool finished;
static void at_exit() { if (!finished) { printf("REPLAY-FAIL: agreement is reported as an error\n"); fflush(stdout); _Exit(1); } }
#endif
VC_DRIVER(diff_quiet) {
  arbitrary(); before = dut_cpu; vc_assume(agree());
#ifdef VC_NATIVE
  atexit(at_exit);
#endif
  difftest_step(true);
#ifdef VC_NATIVE
  finished = true;
#endif
  vc_cover("agreement");
}
VC_DRIVER(diff_unchecked) {
  arbitrary(); before = dut_cpu; faults_at = time_at = 0;
#ifdef VC_NATIVE
  atexit(at_exit);
#endif
  difftest_step(false);
#ifdef VC_NATIVE
  finished = true;
#endif
  vc_assert(stepped() && sets == 0, "an unchecked step only steps");
  vc_cover("unchecked");
}
// states are handed over whole
VC_DRIVER(diff_sync) {
  arbitrary(); before = dut_cpu; faults_at = time_at = 0;
  uint8_t priv = vc_u8("privilege"); unsigned r = vc_u8("reg") & 31, c = vc_u8("csr"); vc_assume(c < 21);
  difftest_sync_from_dut(priv);
  const RefCpuState &s = g_set; const CPU_state &d = before;
  vc_assert(sets == 1 && steps == 0 && s.privilege == priv && s.pc == d.pc && s.gpr[r] == d.gpr[r] && s.csr[c] == d.csr[c], "the reference model takes over registers, CSRs, pc and privilege");
  vc_assert(s.reserve_valid == d.reserve_valid && IMPLIES(d.reserve_valid, s.reserve_addr == d.reserve_addr) && s.store == d.store && s.store_addr == d.store_addr && s.store_data == d.store_data && s.store_strb == d.store_strb, "the reference model takes over the reservation and the store");
  vc_assert(f_inst == d.page_fault_inst && f_load == d.page_fault_load && f_store == d.page_fault_store && g_time == (uint64_t)sim_time, "the reference model takes over time and faults");
  vc_cover("sync");
}
VC_DRIVER(diff_queries) {
  arbitrary(); *(uint8_t *)&g_info.sim_end &= 1;
  vc_assert(difftest_ref_sim_end() == g_info.sim_end && difftest_ref_last_inst_is_wfi() == (g_info.instruction == 0x10500073u), "end of simulation and WFI are those of the reference model");
  bool u = vc_bool("uart"), o = vc_bool("only"), d = vc_bool("dev");
  difftest_ref_set_uart_print(u); difftest_ref_set_ref_only(o); difftest_ref_set_device_effects(d);
  vc_assert(g_uart == u && g_only == o && g_dev == d && steps == 0 && sets == 0, "settings reach the reference model");
  vc_cover("queries");
}
// memory written behind the pipeline's back (DMA) is copied to the reference model
VC_DRIVER(diff_range) {
  static const uint32_t SIZES[] = {0, 1, 4, 64};
  arbitrary(); difftest_step(false);
  vc_havoc(g_ram, sizeof g_ram, "ram"); g_is_ram = vc_bool("is_ram"); ranges = 0;
  uint32_t a = vc_u32("paddr"), n = SIZES[vc_choose(4)];
  difftest_sync_ram_range_from_dut(a, n);
  if (n == 0 || !g_is_ram) vc_assert(ranges == 0, "nothing outside memory is copied");
  else {
    vc_assert(ranges == 1 && to_addr == a && to_size == n && from_addr == a && from_size == n && asked_addr == a && asked_size == n, "exactly the given range is copied");
    bool same = true; for (uint32_t i = 0; i < n; i++) same = same & (g_got[i] == g_ram[i]);
    vc_assert(same, "the reference model gets the contents of memory");
    vc_cover("copied");
  }
}
