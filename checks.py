# Modules (specification + real sources of /repo) and the drivers per property.
TRUSTED = [
    "clang 18 front end and the LLVM passes sroa, loop-simplify, lcssa (C++ to LLVM IR)",
    "verification condition generator /verif/engine (symbolic executor, simplifier, bit-blaster)",
    "cadical SAT solver (thorough tier: every obligation also decided by z3 5.3)",
    "x86-64 data layout; signed overflow wraps (-fwrapv); over-wide shifts give arbitrary values",
]
REF = dict(srcs=["diff/ref.cpp"], env=["ref_env.cpp", "fp_env.cpp"], libs=["libs/softfloat.a"])
MODULES = {
    "ref_int": dict(REF, spec="ref_int.cpp"),
    "ref_dev": dict(REF, spec="ref_dev.cpp"),
    "ref_trap": dict(REF, spec="ref_trap.cpp"),
    "ref_mem": dict(REF, spec="ref_mem.cpp"),
    "be_csr": dict(srcs=["back-end/Exu/Csr.cpp"], spec="be_csr.cpp"),
    "be_exec": dict(srcs=["back-end/Idu.cpp", "back-end/Dispatch.cpp"], spec="be_exec.cpp", env=["fp_env.cpp"], libs=["libs/softfloat.a"], shim=["shim"]),
    "be_exu": dict(srcs=["back-end/Exu/Exu.cpp"], spec="be_exu.cpp", flags=["-include", "stl_model.h"], env=["fp_env.cpp"], libs=["libs/softfloat.a"], shim=["shim"]),
    "be_isu": dict(srcs=["back-end/Isu.cpp"], spec="be_isu.cpp", flags=["-include", "stl_model.h"], env=["fp_env.cpp"], libs=["libs/softfloat.a"], shim=["shim"]),
    "be_dis": dict(srcs=["back-end/Dispatch.cpp"], spec="be_dis.cpp", shim=["shim"]),
    "be_lsu": dict(srcs=["back-end/Lsu/RealLsu.cpp", "back-end/Lsu/RealLsuPerf.cpp", "MemSubSystem/DcacheConfig.cpp"], spec="be_lsu.cpp", shim=["shim"]),
    "mem_dc": dict(srcs=["MemSubSystem/" + f for f in ("MemSubsystem.cpp", "RealDcache.cpp", "MSHR.cpp", "WriteBuffer.cpp", "DcacheConfig.cpp", "MemRouteBlock.cpp", "PeripheralAxi.cpp", "../back-end/PhysMemory.cpp")], spec="mem_dc.cpp", shim=["shim"], flags=["-DCONFIG_ICACHE_USE_AXI_MEM_PORT=0", "-include", "axi_llc.h"]),
    "mem_dev": dict(srcs=["MemSubSystem/PeripheralAxi.cpp", "back-end/PhysMemory.cpp", "back-end/Lsu/RealLsu.cpp", "back-end/Lsu/RealLsuPerf.cpp", "MemSubSystem/DcacheConfig.cpp"], spec="mem_dev.cpp", shim=["shim"]),
    "diff": dict(srcs=["diff/diff.cpp"], spec="diff.cpp", shim=["shim_diff", "shim"]),
    "top": dict(srcs=["rv_simu_mmu_v2.cpp"], spec="top.cpp", shim=["shim_top", "shim_diff", "shim"], ldflags=["-Wl,--unresolved-symbols=ignore-all"]),
    "mem_tlb": dict(srcs=["back-end/Lsu/TlbMmu.cpp", "MemSubSystem/PtwWalker.cpp"], spec="mem_tlb.cpp", shim=["shim"]),
    "mem_route": dict(srcs=["MemSubSystem/MemRouteBlock.cpp"], spec="mem_route.cpp", shim=["shim"], flags=["-DCONFIG_ICACHE_USE_AXI_MEM_PORT=0", "-include", "axi_llc.h"]),
    "fe_fifo": dict(srcs=["front-end/fifo/fetch_address_FIFO.cpp", "front-end/fifo/instruction_FIFO.cpp", "front-end/fifo/PTAB.cpp", "front-end/fifo/front2bank_FIFO.cpp", "front-end/predecode.cpp", "front-end/predecode_checker.cpp"], spec="fe_fifo.cpp", shim=["shim"]),
    "fe_top": dict(srcs=["front-end/front_top.cpp", "front-end/fifo/fetch_address_FIFO.cpp", "front-end/fifo/instruction_FIFO.cpp", "front-end/fifo/PTAB.cpp", "front-end/fifo/front2bank_FIFO.cpp", "front-end/predecode.cpp", "front-end/predecode_checker.cpp"], spec="fe_top.cpp", shim=["shim"]),
    "fe_bpu": dict(srcs=["front-end/front_top.cpp", "front-end/fifo/fetch_address_FIFO.cpp", "front-end/fifo/instruction_FIFO.cpp", "front-end/fifo/PTAB.cpp", "front-end/fifo/front2bank_FIFO.cpp", "front-end/predecode.cpp", "front-end/predecode_checker.cpp"], spec="fe_bpu.cpp", shim=["shim"]),
    "fe_icache": dict(srcs=["front-end/icache/icache.cpp", "front-end/icache/icache_module.cpp", "front-end/icache/ICacheTop.cpp", "back-end/Lsu/TlbMmu.cpp", "MemSubSystem/PtwWalker.cpp"], spec="fe_icache.cpp", shim=["shim", "shim_ic"], flags=["-DCONFIG_ICACHE_USE_AXI_MEM_PORT=0"]),
    "be_prf": dict(srcs=["back-end/Prf.cpp"], spec="be_prf.cpp", shim=["shim"]),
    "be_idu": dict(srcs=["back-end/Idu.cpp"], spec="be_idu.cpp", shim=["shim"]),
    "be_top": dict(srcs=["back-end/BackTop.cpp"], spec="be_top.cpp", shim=["shim"]),
    "be_pre": dict(srcs=["back-end/PreIduQueue.cpp", "back-end/InstructionBuffer.cpp"], spec="be_pre.cpp", shim=["shim"]),
    "be_ren": dict(srcs=["back-end/Ren.cpp"], spec="be_ren.cpp", shim=["shim"]),
    "be_rob": dict(srcs=["back-end/Rob.cpp"], spec="be_rob.cpp", shim=["shim"]),
}
UMAP = "contract of std::unordered_map<uint32_t,uint32_t> (find, erase, operator[])"
INIT = "reset (RefCpu::init) is not under contract"
PROPS = {
    "R01": dict(drivers=[("ref_int", "isa_table"), ("ref_int", "ref_compute"), ("ref_int", "ref_load_word")], trusted=[UMAP],
                assumptions=["instruction address is 4-byte aligned", "no enabled interrupt is pending (covered by R05)", "fetch untranslated (translated fetch: R03, R04)", INIT]),
    "R02": dict(drivers=[("ref_int", "ref_control"), ("ref_int", "ref_load_word")], trusted=[UMAP],
                assumptions=["instruction address is 4-byte aligned", "fetch untranslated", INIT]),
    "R03": dict(drivers=[("ref_mem", d) for d in ("ref_load", "ref_store", "ref_amo", "ref_lr", "ref_sc")] + [("ref_int", "ref_load_word")], trusted=[UMAP],
                assumptions=["naturally aligned accesses", "lock-step page-fault override off or in agreement (contract of va2pa_fix)", INIT]),
    "R04": dict(drivers=[("ref_mem", d) for d in ("ref_va2pa", "ref_va2pa_fix", "ref_fetch_fault", "ref_load")] + [("ref_int", "ref_load_word")], trusted=[UMAP],
                assumptions=["physical addresses are 32 bits wide", INIT]),
    "R05": dict(drivers=[("ref_trap", d) for d in ("ref_interrupt", "ref_no_interrupt", "ref_ecall", "ref_mret", "ref_sret", "ref_stop", "ref_time_illegal")] + [("ref_mem", "ref_fetch_fault"), ("ref_mem", "ref_load"), ("ref_mem", "ref_store")], trusted=[UMAP],
                assumptions=["machine interrupts are not delegated; enabled pending supervisor interrupts are", "MRET in M-mode, SRET in S- or M-mode", INIT]),
    "R06": dict(drivers=[("ref_trap", "ref_csr"), ("ref_trap", "ref_time_illegal")], trusted=[UMAP],
                assumptions=["sufficient privilege", "misa and mhartid are not written", INIT]),
    "R07": dict(drivers=[("ref_trap", "ref_zfinx")], trusted=[UMAP, "SoftFloat arithmetic (uninterpreted); comparisons by their IEEE definition"],
                assumptions=["dynamic rounding mode means round to nearest even", INIT]),
    "R08": dict(drivers=[("ref_dev", d) for d in ("ref_timer_load", "ref_timer_store", "ref_uart_plic")], trusted=[UMAP],
                assumptions=["word accesses to the timer", INIT]),
    "P03": dict(drivers=[("be_csr", d) for d in ("csr_read", "csr_commit", "csr_trap")],
                assumptions=["at most one commit event per cycle, none but the interrupt while one is requested (P04)", "machine interrupts are not delegated; enabled pending supervisor interrupts are", "MRET in M-mode, SRET in S- or M-mode"]),
    "P04": dict(drivers=[("be_rob", d) for d in ("rob_init", "rob_commit", "rob_branch", "rob_enqueue", "rob_complete")],
                assumptions=["a result is reported once per part of an instruction", "a redirect names a live entry", "fetch-faulting and illegal instructions are decoded as inert", "opaque stand-ins for the missing interconnect headers (types only)"]),
    "P01": dict(drivers=[("be_exec", "exec_" + d) for d in ("compute", "control", "memory", "atomic", "system", "csr", "fault")],
                assumptions=["operands delivered to the functional units are those of the named physical registers (P08)", "opaque stand-ins for the missing interconnect headers (types only)"]),
    "P02": dict(drivers=[("be_exec", "exec_fp")], trusted=["SoftFloat library (uninterpreted; NaN and range behaviour as built)"],
                assumptions=["operands delivered to the functional units are those of the named physical registers (P08)", "opaque stand-ins for the missing interconnect headers (types only)"]),
    "P05": dict(drivers=[("be_ren", "ren_" + d) for d in ("names", "flow", "update", "ckpt", "lemma", "ckpt_frame", "pool", "init")],
                assumptions=["commits name the oldest in-flight destinations in order, none on a misprediction (P04)", "live branches have distinct tags (P09)", "opaque stand-ins for the missing interconnect headers (types only)"]),
    "P08": dict(drivers=[("be_prf", "prf_" + d) for d in ("read", "write", "accept", "wake", "init")],
                assumptions=["at most one producer of a physical register per write-back stage (P05)", "load results return on load ports", "opaque stand-ins for the missing interconnect headers (types only)"]),
    "P09": dict(drivers=[("be_idu", "idu_tags"), ("be_idu", "idu_init"), ("be_top", "top_cycle")],
                assumptions=["execution reports live, uncancelled branches only (P10)", "opaque stand-ins for the missing interconnect headers (types only)"]),
    "P11": dict(drivers=[("be_pre", "pre_" + d) for d in ("issue", "order", "blocks", "lookup", "init")],
                assumptions=["decode takes a prefix of the offered instructions (P09)", "instructions commit in order and nothing commits on a misprediction (P04)", "opaque stand-ins for the missing interconnect headers (types only)"]),
    "P10": dict(drivers=[("be_exu", "exu_" + d) for d in ("hold", "deliver", "memory", "branch", "csr", "ready", "init")],
                assumptions=["std::vector and std::deque behave as sequences (specs/stl_model.h)", "SoftFloat operations are uninterpreted", "opaque stand-ins for the missing interconnect headers (types only)"]),
    "P07": dict(bounded=["iq_issue", "iq_wake", "iq_enter", "iq_cancel", "iq_clock", "iq_issue16", "iq_wake_all", "iq_enter16", "iq_cancel16"], drivers=[("be_isu", d) for d in ("iq_issue", "iq_wake", "iq_enter", "iq_cancel", "iq_clock", "isu_init", "isu_cycle", "isu_latency")],
                thorough=[("be_isu", d) for d in ("iq_issue16", "iq_wake_all", "iq_enter16", "iq_cancel16")],
                assumptions=["std::vector behaves as a sequence (specs/stl_model.h)", "queue contracts are instantiated for 4, 8 and (thorough) 16 slots instead of 16 and 32 (bounded)", "quick tier: two wake-up channels active at a time in the queue contract (thorough: all)", "opaque stand-ins for the missing interconnect headers (types only)"]),
    "P06": dict(drivers=[("be_dis", d) for d in ("dis_init", "dis_fire", "dis_alloc", "dis_queues", "dis_busy")],
                assumptions=["decoded instructions satisfy the decode contract (P01): atomics have an address register, stores and writing atomics a data register", "opaque stand-ins for the missing interconnect headers (types only)"]),
    "P12": dict(drivers=[("be_top", "top_" + d) for d in ("cycle", "status", "wiring", "restore")],
                assumptions=["the stages are represented by what they require and provide", "opaque stand-ins for the missing interconnect headers (types only)"]),
    "M01": dict(bounded="all", drivers=[("be_lsu", "lsu_" + d) for d in ("stlf", "stlf_queue", "translate", "translated_load", "read", "read_back", "report_load")],
                thorough=[("be_lsu", "lsu_stlf_all")],
                assumptions=["forwarding: one load against every occupancy of the store queue at sampled positions (thorough: every position); queue movement with up to three loads (bounded)", "the waiting queues start at three sampled positions and hold loads in three sampled orders, wrapping and not (bounded); the load in question is at every queue slot; contents and occupancy are unrestricted", "addresses are naturally aligned and below 0xfffffff0", "performance counters off (ctx null)", "opaque stand-ins for the missing interconnect headers (types only)"]),
    "M02": dict(bounded="all", drivers=[("be_lsu", "lsu_" + d) for d in ("translated_store", "commit", "write", "write_done", "retire", "report_store", "device")],
                assumptions=["write ordering is checked for up to seven committed stores at sampled ring positions (bounded)", "the waiting queues hold stores in three sampled orders, wrapping and not (bounded); contents and occupancy are unrestricted", "addresses are naturally aligned", "the reorder buffer commits completed stores in program order (P04)", "performance counters off (ctx null)", "opaque stand-ins for the missing interconnect headers (types only)"]),
    "M03": dict(bounded="all", drivers=[("be_lsu", "lsu_" + d) for d in ("offer", "alloc", "enter", "flush", "squash")],
                assumptions=["ring positions are sampled (three, wrapping and not; bounded); contents and occupancy are unrestricted", "execution units send an address or datum for an allocated entry once (P07)", "stores younger than a wrong-path store are on the wrong path (P02)", "performance counters off (ctx null)", "opaque stand-ins for the missing interconnect headers (types only)"]),
    "M04": dict(bounded="all", drivers=[("mem_dc", "dc_" + d) for d in ("cycle", "tick", "reset", "read", "write")],
                thorough=[("mem_dc", "dc_cycle_all"), ("mem_dc", "dc_tick_all")], timeout=270,
                assumptions=["the memory bus answers each read once with the contents of memory, and a write takes effect by the time it is answered",
                             "a line being filled is not in the cache already (the one-copy invariant, for that line)", "the word's position in its line and the queue positions are sampled (quick: 9 cases; thorough: every queue slot; bounded); array contents at three sampled sets", "performance counters off (ctx null)", "opaque stand-ins for the missing interconnect headers (types only)"],
                trusted=["the device side (PeripheralAxi, PeripheralModel) shares no state with the cache and is left out of the cycle"]),
    "M05": dict(drivers=[("mem_tlb", d) for d in ("tlb_data", "tlb_fetch", "tlb_flush", "tlb_cancel", "ptw_walk", "ptw_reset", "ptw_local")],
                assumptions=["between fences an address-space identifier names one address space, and a global mapping is the same in all of them (required of software by the architecture)", "privilege is U, S or M, and MPP is not the reserved value", "the memory answers a page-table read with the word asked for (M04, M06)", "performance counters off (ctx null)", "opaque stand-ins for the missing interconnect headers (types only)"]),
    "M06": dict(drivers=[("mem_route", "route_" + d) for d in ("answers", "requests", "reset")] + [("mem_dc", "ms_ports")],
                assumptions=["loads of the load/store unit carry request ids below 2^31 (they are queue indexes)", "the data cache answers a request in the next cycle (M04)", "performance counters off (ctx null)", "opaque stand-ins for the missing interconnect headers (types only)"],
                trusted=["the device side (PeripheralAxi, PeripheralModel) shares no state with the walker and is left out of the cycle"]),
    "M07": dict(drivers=[("mem_dev", "dev_" + d) for d in ("bridge", "once", "reset")] + [("be_lsu", "lsu_device")],
                assumptions=["between answer and request the load/store unit cancels the access or starts one only when there is none (M02, M03)", "a finished load finds room in the completion queue (M02)", "the bus accepts a request before it answers", "performance counters off (ctx null)", "opaque stand-ins for the missing interconnect headers (types only)"]),
    "M08": dict(drivers=[("mem_dev", "dev_" + d) for d in ("pmem", "read", "write", "other", "init", "tick", "dma")], trusted=[UMAP], bounded=["dev_dma"],
                assumptions=["naturally aligned accesses; words to timer and DMA registers", "transfers: word-aligned, lengths 4, 8, 16 and 64 (refused ones: any address, lengths 0 to 16)"]),
    "D01": dict(drivers=[("diff", "diff_" + d) for d in ("catches", "quiet", "unchecked", "sync", "queries", "range")], bounded=["diff_range"],
                assumptions=["interface of the absent reference-model library as inferred from its use (declarations only); the library itself answers arbitrarily"]),
    "D02": dict(drivers=[("top", "top_commit"), ("top", "top_compare")],
                assumptions=["the store-queue entry of the committing instruction is the one the load/store unit reports (M02)", "on a flush the committing entry carries the redirect address (P12)", "types of the absent interconnect and reference-model library inferred from their use (declarations only)"]),
    "D03": dict(drivers=[("top", "top_front"), ("top", "top_feedback"), ("top", "top_cycle"), ("top", "top_init"), ("top", "top_restore")],
                assumptions=["front end, back end and memory subsystem by contract (F02, P12, M04, M07)", "types of the absent interconnect inferred from their use (declarations only); it answers arbitrarily", "branch predictor enabled (default configuration)", "performance counters off the record"]),
    "F01": dict(drivers=[("fe_fifo", d) for d in ("q_fetch", "q_inst", "q_ptab", "q_back", "predecode_one", "checker")],
                assumptions=["each queue is filled through its own write phase from empty (every length, contents arbitrary)", "two-ahead prediction and the front-end bypasses off (default configuration)", "opaque stand-ins for the missing interconnect headers (types only)"],
                trusted=[]),
    "F02": dict(drivers=[("fe_top", "fe_cycle"), ("fe_top", "fe_commit")],
                assumptions=["instruction-cache contract as proved by F04: answers in request order with the requested address, only what was requested, and nothing in a redirect or reset cycle", "the oldest entries of instruction queue and prediction table belong to the same group (counting invariant checked here, order by F01)", "predictor contract as proved by F03", "two-ahead prediction and the front-end bypasses off (default configuration)", "opaque stand-ins for the missing interconnect headers (types only)"],
                trusted=[]),
    "F03": dict(bounded=["bpu_queue"], drivers=[("fe_bpu", "bpu_cycle"), ("fe_bpu", "bpu_queue")],
                assumptions=["fetch addresses are 4-aligned and below 0xffffff00", "bounded: queue positions 0, 3, last-1 and last with 0, 1, 4, Q_DEPTH-3 and Q_DEPTH-2 branches waiting; entries, addresses and commits arbitrary", "the back end commits no branch while the predictor says its queue is full", "two-ahead prediction off (default configuration)"],
                trusted=["direction, target and type tables (any answer is allowed)"]),
    "F04": dict(bounded=["ic_table_data"], drivers=[("fe_icache", "ic_cycle"), ("fe_icache", "ic_table_tag"), ("fe_icache", "ic_table_valid"), ("fe_icache", "ic_table_data")],
                assumptions=["the front end asks only when the cache says it is ready (F02)", "memory answers the transaction it accepted with the line asked for and reports an acceptance at the latest one cycle after showing ready", "a data-cache probe is answered for the last word asked for; when the data cache does not hold the line, memory's copy is the newest", "fetch addresses are 4-aligned", "lookup latency 0 (default configuration)", "bounded: the data table (ic_table_data) is checked for writes to rows 0, 37 and 63 only; tag and valid tables for all rows"],
                trusted=["translation (M05): any answer is allowed"]),
}
