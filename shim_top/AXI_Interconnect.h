// Stand-in for the headers of the absent axi-interconnect-kit submodule: types and
// declarations only, inferred from their use in rv_simu_mmu_v2.cpp.  No contract uses them.
#pragma once
#include <cstdint>
namespace sim_ddr {
struct SimDDR_IO_t {
  struct { bool arready, arvalid; uint32_t arid, araddr, arlen, arsize, arburst; } ar;
  struct { bool rvalid, rlast, rready; uint32_t rid, rdata, rresp; } r;
  struct { bool awready, awvalid; uint32_t awid, awaddr, awlen, awsize, awburst; } aw;
  struct { bool wready, wvalid, wlast; uint32_t wdata, wstrb; } w;
  struct { bool bvalid, bready; uint32_t bid, bresp; } b;
};
enum { SIM_DDR_LATENCY, SIM_DDR_WRITE_RESP_LATENCY, SIM_DDR_BEAT_BYTES, SIM_DDR_WRITE_QUEUE_DEPTH, SIM_DDR_WRITE_ACCEPT_GAP, SIM_DDR_WRITE_DATA_FIFO_DEPTH, SIM_DDR_WRITE_DRAIN_GAP, SIM_DDR_WRITE_DRAIN_HIGH_WATERMARK, SIM_DDR_WRITE_DRAIN_LOW_WATERMARK, SIM_DDR_READ_TO_WRITE_TURNAROUND, SIM_DDR_WRITE_TO_READ_TURNAROUND, SIM_DDR_MAX_OUTSTANDING };
struct SimDDR { SimDDR_IO_t io; void init(); void comb_outputs(); void comb_inputs(); void seq(); };
}
namespace axi_interconnect {
enum { MASTER_ICACHE, MASTER_DCACHE_R, MASTER_EXTRA_R, NUM_READ_MASTERS };
enum { MASTER_DCACHE_W, MASTER_EXTRA_W, NUM_WRITE_MASTERS };
enum { CACHELINE_WORDS = 16, MAX_READ_TRANSACTION_WORDS = 16, MAX_READ_TRANSACTION_BYTES = 64, AXI_UPSTREAM_PAYLOAD_BYTES = 64, MAX_OUTSTANDING = 8, MAX_READ_OUTSTANDING_PER_MASTER = 8 };
struct WideData { uint32_t w[CACHELINE_WORDS]; uint32_t &operator[](int i) { return w[i]; } const uint32_t &operator[](int i) const { return w[i]; } void clear() { for (auto &x : w) x = 0; } };
struct ReadMasterPort_t { struct { bool valid, ready, accepted, bypass; uint32_t addr, total_size, id, accepted_id; } req; struct { bool valid, ready; uint32_t id; WideData data; } resp; };
struct WriteMasterPort_t { struct { bool valid, ready, accepted, bypass; uint32_t addr, total_size, id; uint64_t wstrb; WideData wdata; } req; struct { bool valid, ready; uint32_t id; } resp; };
struct ReadReqHoldLatch { uint32_t x; };
struct AXI_LLC_LookupIn_t {}; struct AXI_LLC_TableOut_t {}; struct AXI_LLCPerfCounters_t {};
struct AXI_LLCConfig { bool enable; uint64_t size_bytes; uint32_t ways, mshr_num, lookup_latency; };
struct AXI_Interconnect {
  ReadMasterPort_t read_ports[NUM_READ_MASTERS]; WriteMasterPort_t write_ports[NUM_WRITE_MASTERS];
  bool req_ready_r[NUM_READ_MASTERS], req_drop_warned[NUM_READ_MASTERS], w_req_ready_r[NUM_WRITE_MASTERS], read_req_accepted[NUM_READ_MASTERS], write_req_accepted[NUM_WRITE_MASTERS];
  uint8_t read_req_accepted_id[NUM_READ_MASTERS]; ReadReqHoldLatch read_req_hold[NUM_READ_MASTERS];
  sim_ddr::SimDDR_IO_t axi_ddr_io, axi_mmio_io;
  void init(); void comb_outputs(); void comb_inputs(); void seq();
  void set_llc_config(const AXI_LLCConfig &); void set_llc_lookup_in(const AXI_LLC_LookupIn_t &);
  const AXI_LLC_TableOut_t &get_llc_table_out() const; const AXI_LLCPerfCounters_t &get_llc_perf_counters() const;
};
struct AXI_Router_AXI4 { void init(); };
}
namespace mmio {
struct UART16550_Device { UART16550_Device(uint32_t) {} void sync_from_backing(uint32_t *); };
struct MMIO_Bus_AXI4 { sim_ddr::SimDDR_IO_t io; void init(); void comb_outputs(); void comb_inputs(); void seq(); void add_device(uint32_t, uint32_t, UART16550_Device *); };
}
#ifndef MMIO_RANGE_BASE
#define MMIO_RANGE_BASE 0x10000000u
#endif
