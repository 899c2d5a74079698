# Source of properties.jsonl / MANIFEST.json (see gen.py).
def A(files, mech, state=(), observe=()):
    return {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": None}
def Q(over, text): return {"over": over, "text": text}
REFT = "The stable tests run 139 small guest programs on the reference model only; they sample a few operand values per instruction and a handful of machine states."
P = []
P.append(dict(id="R01", title="Reference model: integer computation follows the ISA for all operands",
  statement="For every defined RV32IM, Zba, Zbb, Zbc and Zbs computational instruction word and every register contents, one step of the reference model writes exactly the architectural result to the destination register and advances the pc by four. x0 always reads zero, and no other register, CSR, privilege level, reservation or memory word changes.",
  quantifier=Q(["inputs", "programs"], "every instruction word of the computational classes, all operand values, all machine states with no enabled interrupt pending"),
  why_tests_cant=REFT + " 2^32 encodings times 2^64 operand pairs cannot be sampled.",
  anchors=A(["diff/ref.cpp", "diff/include/ref.h"], [("instruction dispatch and integer execution", "diff/ref.cpp RefCpu::exec/RISCV/RV32IM")], [("state.gpr", "architectural registers", "diff/include/ref.h")], ["register file, pc and memory after a step"]),
  note="All obligations discharged without bounds, over all instruction words, operands and states. Oracle: independent ISA specification specs/isa_spec.h. Assumes aligned pc and no enabled interrupt."))
P.append(dict(id="R02", title="Reference model: jumps and branches follow the ISA",
  statement="For every JAL, JALR and conditional branch word, the reference model continues at the architecturally defined next pc, writes the link register only for JAL/JALR, and reports whether the transfer was taken. Nothing else changes.",
  quantifier=Q(["inputs", "programs"], "every control-transfer word, all operand values, all machine states with no enabled interrupt pending"),
  why_tests_cant=REFT,
  anchors=A(["diff/ref.cpp"], [("branch execution", "diff/ref.cpp RefCpu::RV32IM")], [], ["pc and registers after a step"]),
  note="All obligations discharged without bounds. Oracle: specs/isa_spec.h."))
P.append(dict(id="R03", title="Reference model: loads, stores, atomics and reservations",
  statement="Aligned loads return the sign- or zero-extended bytes at the translated address; stores and atomics change exactly the addressed bytes, and atomics return the old word. A store-conditional writes and returns 0 exactly when the reservation is valid for that address, otherwise it writes nothing, has no device side effect and returns 1; in both cases the reservation ends, and a store to the reserved address ends it too. An access whose translation is refused raises the page fault of its kind with the faulting virtual address and changes no register and no memory.",
  quantifier=Q(["inputs", "programs", "histories"], "all aligned accesses, all memory contents, privilege levels, MPRV/MPP settings, translation outcomes and reservation states"),
  why_tests_cant=REFT + " Memory is 1 GiB plus a sparse device map; faults, MPRV and reservations depend on history.",
  anchors=A(["diff/ref.cpp"], [("load/store/atomic execution", "diff/ref.cpp RefCpu::RV32IM, RV32A, store_data, load_word, store_word")], [("state.reserve_valid/reserve_addr", "load reservation", "diff/include/ref.h")], ["memory words, registers, trap CSRs after a step"]),
  note="All obligations discharged without bounds; memory is an unbounded array with an arbitrary probe address. Assumes naturally aligned accesses (the model has no misalignment handling) outside the timer/UART/interrupt-controller registers (those are R08)."))
P.append(dict(id="R04", title="Reference model: Sv32 translation and permissions",
  statement="With Sv32 active, a virtual address translates to the physical address given by the two-level page table for 4 KiB pages and aligned 4 MiB superpages, and the access is refused exactly when the entry is invalid, misaligned, lacks the needed permission or accessed/dirty bit, or violates the user/supervisor, SUM and MXR rules for the effective privilege. Supervisor code never executes from user pages. Instruction fetch goes through the same rules, a refused fetch raises an instruction page fault for that pc, and translation itself changes nothing.",
  quantifier=Q(["inputs", "configurations"], "all virtual addresses, page-table contents, satp, mstatus, privilege levels and access kinds"),
  why_tests_cant=REFT + " Page-table contents, permission bits and status bits multiply to far more combinations than the tests use.",
  anchors=A(["diff/ref.cpp"], [("page walk", "diff/ref.cpp RefCpu::va2pa, va2pa_fix, exec")], [], ["translated address / page fault trap"]),
  note="All obligations discharged without bounds for 32-bit physical addresses. Oracle: specs/priv_spec.h (sv32). Lock-step override of page faults by the pipeline is assumed to agree or be off."))
P.append(dict(id="R05", title="Reference model: trap entry, delegation, interrupts and trap return",
  statement="Interrupts and exceptions save pc, cause, trap value, previous privilege and interrupt enable in the CSRs of the mode selected by delegation, and continue at the direct or vectored handler address; traps taken in machine mode are never delegated. An interrupt is taken exactly when it is pending, enabled and not masked by the current mode, the highest-priority one (external, software, timer; machine before supervisor) is reported, and it precedes the interrupted instruction. MRET and SRET restore privilege, interrupt enable and pc.",
  quantifier=Q(["inputs", "histories", "configurations"], "all CSR contents, privilege levels, pending interrupts, instruction words and timer values"),
  why_tests_cant=REFT + " Interrupt timing, delegation and simultaneous causes are barely exercised.",
  anchors=A(["diff/ref.cpp"], [("trap logic", "diff/ref.cpp RefCpu::exception, RISCV")], [("state.csr", "CSR file", "diff/include/ref.h"), ("privilege", "current mode", "diff/include/ref.h")], ["CSRs, privilege and pc after a step"]),
  note="All obligations discharged without bounds. Assumes machine interrupts are not delegated and enabled pending supervisor interrupts are (the platform's mideleg), MRET in M-mode and SRET in S/M-mode, aligned xepc. MPRV after xRET is left open (differs between manual versions)."))
P.append(dict(id="R06", title="Reference model: CSR instructions",
  statement="Each CSR instruction returns the old value and performs the architected write, set or clear exactly when it must (write forms always, set/clear forms unless their source field is zero). Status, interrupt-enable and interrupt-pending registers honour their write masks, and the supervisor views always equal the masked machine registers. Accessing the unimplemented time registers raises an illegal-instruction trap with the instruction word as trap value.",
  quantifier=Q(["inputs", "programs"], "all six CSR instruction forms, all implemented CSRs, all register, CSR and immediate values"),
  why_tests_cant=REFT,
  anchors=A(["diff/ref.cpp", "back-end/Exu/include/Csr.h"], [("CSR execution", "diff/ref.cpp RefCpu::RV32CSR")], [("state.csr", "CSR file", "diff/include/ref.h")], ["destination register and CSR file after a step"]),
  note="All obligations discharged without bounds for the 21 implemented CSRs. Assumes sufficient privilege (the model has no CSR privilege check), no write to misa/mhartid, aligned xepc values."))
P.append(dict(id="R07", title="Reference model: single-precision floating point in integer registers",
  statement="Every defined Zfinx instruction writes to its integer destination the IEEE result of the named operation on its operands in the encoded rounding mode: sign injection, classification, comparison, minimum/maximum and conversions follow the ISA bit for bit, including NaN and signed-zero rules, and the fused forms negate the right operands. A NaN produced by arithmetic is the canonical NaN and conversions to integer saturate. No other register, CSR or memory word changes.",
  quantifier=Q(["inputs", "programs"], "all Zfinx encodings, rounding modes and operand values"),
  why_tests_cant=REFT + " No test contains floating-point code.",
  anchors=A(["diff/ref.cpp"], [("floating-point execution", "diff/ref.cpp RefCpu::RV32Zfinx")], [], ["destination register after a step"]),
  note="Bit-level operations proved exactly; add/sub/mul/div/sqrt/fma/conversions proved to be the right SoftFloat call with the right operands and rounding mode (SoftFloat itself is a prebuilt library and is treated as an uninterpreted function). Dynamic rounding is round-to-nearest-even as there is no fcsr."))
P.append(dict(id="R08", title="Reference model: timer, UART and interrupt controller registers",
  statement="The 64-bit timer and its compare value read back what was written, half by half, and the machine timer interrupt is pending exactly while time has reached the compare value. UART and interrupt-controller stores update exactly their registers: transmitting clears the data byte, enabling the transmit interrupt raises the external interrupt with the UART's id, and completing that id clears it.",
  quantifier=Q(["inputs", "histories"], "all timer, compare and simulated-time values, all stored values and access sizes at the device registers"),
  why_tests_cant=REFT + " Timer wrap-around and half-word update order depend on 64-bit history.",
  anchors=A(["diff/ref.cpp", "include/config.h"], [("device registers", "diff/ref.cpp RefCpu::store_data, store_word")], [], ["device register reads, interrupt-pending CSR"]),
  note="All obligations discharged without bounds; word accesses for the timer, all aligned sizes for UART and claim register."))
PIPE = "The out-of-order pipeline is not exercised by any stable test (they run the reference model only), and its behaviour depends on cycle-by-cycle histories."
P.append(dict(id="P03", title="Pipeline CSR unit: reads, commit-time writes, traps and returns",
  statement="In every clock cycle the CSR unit changes its registers and privilege level exactly as the committing event demands. A CSR write takes effect when, and only when, its instruction commits, with the architected write/set/clear semantics, write masks and supervisor views; a read returns the old value. Traps save pc, cause, value and status in the mode chosen by delegation and continue at the right vector; MRET/SRET restore them. An interrupt is requested exactly when one is pending, enabled and unmasked, and a write belonging to a cancelled instruction is never applied.",
  quantifier=Q(["inputs", "histories", "configurations"], "all CSR contents, privilege levels, pending writes, interrupt lines and commit events"),
  why_tests_cant=PIPE,
  anchors=A(["back-end/Exu/Csr.cpp", "back-end/Exu/include/Csr.h"], [("CSR unit cycle", "back-end/Exu/Csr.cpp Csr::comb_*, seq")], [("CSR_RegFile", "CSR file", "back-end/Exu/include/Csr.h")], ["CSR file, privilege, redirect pc and status outputs after a cycle"]),
  note="All obligations discharged without bounds for one arbitrary cycle from an arbitrary consistent state. Oracle: specs/priv_spec.h, shared with R05. Assumes at most one commit event per cycle (P04)."))
P.append(dict(id="P04", title="Reorder buffer: precise, in-order commit",
  statement="Instructions commit in program order, only when finished, with exactly the registers, faults and addresses recorded for them. A trapping or serialising instruction commits alone; the event it raises names its own pc, one cause and its trap value, and everything younger is discarded. A fence commits only when no older committed store is still pending. A requested interrupt pre-empts commit at the oldest instruction. On a misprediction exactly the instructions younger than the branch disappear and nothing commits. Results are recorded for their own instruction only, a finished oldest instruction is not held back, and head and tail always delimit the live entries.",
  quantifier=Q(["inputs", "histories", "schedules"], "all buffer contents, head/tail positions, completion, redirect, interrupt and dispatch inputs of a cycle"),
  why_tests_cant=PIPE,
  anchors=A(["back-end/Rob.cpp", "back-end/include/Rob.h"], [("commit arbitration", "back-end/Rob.cpp Rob::comb_commit"), ("completion, recovery, enqueue", "back-end/Rob.cpp Rob::comb_complete, comb_branch, comb_fire, comb_flush")], [("entry, enq_ptr, deq_ptr", "reorder buffer contents", "back-end/include/Rob.h")], ["commit entries, broadcast event and buffer state after a cycle"]),
  note="One arbitrary cycle from an arbitrary state satisfying the buffer invariant, which is shown to be preserved and to hold after reset. Assumes each unit reports a part of an instruction once and a redirect names a live entry."))
P.append(dict(id="P01", title="Pipeline: every instruction is decoded, split and computed as the ISA defines",
  statement="For every RV32IMA+Zb* instruction word, what decode produces, what dispatch makes of it and what the functional units compute from the source register values equals the ISA definition: destination register (never x0), result value, link address, branch direction and target, effective address, access size, store data and atomic read-modify-write value, CSR number and operand, and the kind of system event. A wrong branch prediction is always flagged and a right one never. An operation waits only for registers it reads. An undefined opcode becomes an illegal-instruction event and a fetch fault a page-fault event, each carrying the instruction word and having no other effect.",
  quantifier=Q(["inputs", "programs"], "all instruction words of the supported extensions, register values, pcs and predictions"),
  why_tests_cant=PIPE,
  anchors=A(["back-end/Idu.cpp", "back-end/Dispatch.cpp", "back-end/Exu/include/Fu.h", "back-end/include/IO.h"], [("decode", "back-end/Idu.cpp Idu::comb_decode, decode"), ("micro-operation splitting", "back-end/Dispatch.cpp Dispatch::comb_alloc, comb_dispatch, decompose_inst"), ("functional units", "back-end/Exu/include/Fu.h impl_compute of ALU, MUL, DIV, BRU, AGU, SDU")], [], ["micro-operations sent to the issue queues and their results"]),
  note="All obligations discharged without bounds. Oracle: specs/isa_spec.h, the same definition used for the reference model (R01-R03). CSR accesses: the CSRs the design implements."))
P.append(dict(id="P02", title="Pipeline: Zfinx floating-point results",
  statement="Every defined non-fused Zfinx instruction produces in the pipeline the IEEE result of the named operation in the encoded rounding mode, bit for bit the value the reference model must produce: sign injection, classification, comparison, minimum/maximum and conversions follow the ISA including NaN, signed-zero and saturation rules, and a NaN produced by arithmetic is the canonical NaN.",
  quantifier=Q(["inputs"], "all non-fused Zfinx encodings, rounding modes and operand values"),
  why_tests_cant=PIPE + " No test contains floating-point code.",
  anchors=A(["back-end/Exu/include/FPU.h", "back-end/Idu.cpp"], [("floating-point unit", "back-end/Exu/include/FPU.h FPUSoftfloat::impl_compute")], [], ["result of the floating-point micro-operation"]),
  note="Oracle specs/fp_spec.h, shared with R07. SoftFloat is a prebuilt library treated as uninterpreted operations. Fused multiply-add is not implemented by the pipeline and not specified."))
P.append(dict(id="P05", title="Register renaming: right names, no register lost or shared",
  statement="Each renamed instruction reads the physical registers of the newest earlier writers of its sources (including writers renamed in the same cycle), gets a fresh destination register, and remembers the mapping it replaces. Every physical register is at all times either the committed home of exactly one architectural register or in the pool of in-flight and free registers, exactly once. A flush returns to the committed mapping; a misprediction returns to the mapping and pool as they were just after the branch, while commits keep the committed mapping exact and traps and interrupts leave it untouched. An instruction proceeds only with its elders and only when it has its register, and none is lost or renamed twice.",
  quantifier=Q(["inputs", "histories", "schedules"], "all mapping tables, pool contents and positions, checkpoints, renamed instructions, commits, flushes and mispredictions of a cycle"),
  why_tests_cant=PIPE,
  anchors=A(["back-end/Ren.cpp", "back-end/include/Ren.h"], [("rename cycle", "back-end/Ren.cpp Ren::comb_alloc, comb_rename, comb_fire, comb_pipeline, seq, init")], [("spec_RAT, arch_RAT, RAT_checkpoint, free_list", "mappings, checkpoints and register pool", "back-end/include/Ren.h")], ["renamed instructions sent to dispatch; mappings after a cycle"]),
  note="One arbitrary cycle from an arbitrary state satisfying the pool and naming invariants; the invariants hold after reset and are preserved. Assumes commits name the oldest in-flight destinations (P04)."))
P.append(dict(id="P08", title="Physical registers: operands are current, x0 is zero, results land once",
  statement="An issued operation receives, for each source it uses, the current value of that physical register: the result being forwarded or written back if one is under way, else the stored value; x0 always reads zero, whatever is being written. It is passed on unchanged, with its own pc and branch prediction. A result is written exactly once to exactly its register unless its instruction was cancelled by a flush or an older mispredicted branch, and loaded registers are announced exactly when a live load delivers.",
  quantifier=Q(["inputs", "histories", "schedules"], "all register contents, issued operations, results under way, flushes and mispredictions of a cycle"),
  why_tests_cant=PIPE,
  anchors=A(["back-end/Prf.cpp", "back-end/include/Prf.h"], [("register file cycle", "back-end/Prf.cpp Prf::comb_read, comb_complete, comb_awake, comb_write, comb_pipeline, seq")], [("reg_file", "physical registers", "back-end/include/Prf.h")], ["operands handed to the functional units; register file after a cycle"]),
  note="One arbitrary cycle from an arbitrary state with x0 zero. Assumes at most one producer of a physical register in each stage (P05)."))
P.append(dict(id="P09", title="Branch tags, misprediction recovery and redirect",
  statement="Every unresolved branch holds a tag no other live branch holds, and every decoded instruction records exactly the unresolved branches older than it. When branches resolve, their tags become free and are forgotten everywhere; on a misprediction exactly the tags of the branches younger than the mispredicted one are released too, and a flush releases all. A branch without a free tag, and everything after it, waits. Each resolution is announced once, and fetch continues at the mispredicted branch's real target, or after a flush at the trap vector, the return address or the next instruction.",
  quantifier=Q(["inputs", "histories", "schedules"], "all sets and orders of live branches, resolutions, mispredictions, flushes and decoded instructions of a cycle"),
  why_tests_cant=PIPE,
  anchors=A(["back-end/Idu.cpp", "back-end/BackTop.cpp"], [("tag allocation and release", "back-end/Idu.cpp Idu::comb_decode, comb_branch, comb_fire, seq, init"), ("redirect", "back-end/BackTop.cpp BackTop::comb")], [("tag_vec, now_br_mask, br_mask_cp", "free tags, live branches and their elders", "back-end/include/Idu.h")], ["tags and branch masks of decoded instructions, recovery broadcast, redirect pc"]),
  note="One arbitrary cycle from an arbitrary state satisfying the tag invariant, which is preserved and holds after reset. Assumes execution reports live branches only (P10)."))
P.append(dict(id="P11", title="Fetch queue: instructions reach decode in order, once, with their own pc",
  statement="Every instruction accepted from fetch is offered to decode exactly once, in program order, with its own word, pc and fault flag, until a redirect empties the queue. A fetch block is accepted whole or not at all, only when there is room for it. The fetch target queue holds a block from acceptance until its last instruction commits, or until it is discarded because it is younger than a mispredicted branch or by a flush; while it does, lookups return the pc, predicted direction, next address and training metadata recorded for exactly that instruction.",
  quantifier=Q(["inputs", "histories", "schedules"], "all queue contents and positions, fetch blocks, decode, commit and redirect inputs of a cycle"),
  why_tests_cant=PIPE,
  anchors=A(["back-end/PreIduQueue.cpp", "back-end/InstructionBuffer.cpp"], [("queue cycle", "back-end/PreIduQueue.cpp PreIduQueue::comb_*, seq, init"), ("ring buffer", "back-end/InstructionBuffer.cpp InstructionBuffer")], [("ibuf", "instructions waiting for decode", "back-end/include/PreIduQueue.h"), ("ftq_lookup_entries, ftq_train_meta_fifo, ftq_valid", "fetch target queue", "back-end/include/PreIduQueue.h")], ["instructions offered to decode, lookup responses, commit information"]),
  note="One arbitrary cycle from an arbitrary state satisfying the queue invariants, which are preserved and hold after reset."))
P.append(dict(id="P12", title="Back end: stages connected, evaluated on current inputs, state handed over",
  statement="All stages of the back end are connected to each other's outputs, reset together and clocked once per cycle, and every stage is evaluated exactly once per cycle, after the stages whose outputs of the same cycle it uses. Flushes, fences and status reach the front end and the data TLB in the same cycle. When execution is handed over from the reference model, registers, CSRs, privilege, load reservation and pc are exactly those of the model.",
  quantifier=Q(["inputs", "histories"], "all commit, branch and CSR outputs of a cycle, all architectural states handed over"),
  why_tests_cant=PIPE,
  anchors=A(["back-end/BackTop.cpp", "back-end/include/BackTop.h"], [("cycle", "back-end/BackTop.cpp BackTop::comb, comb_csr_status, comb_lsu_mmu, seq"), ("connection and hand-over", "back-end/BackTop.cpp BackTop::init, restore_from_ref")], [], ["order of evaluation, redirect outputs, restored state"]),
  note="The stages are represented by contracts stating which signals of the cycle they need and produce. Checkpoint files and memory images are not covered."))
P.append(dict(id="P10", title="Execution: each accepted operation delivers its own result exactly once",
  statement="A functional unit accepts an operation only when it has room for it and is able to execute it. Every accepted operation is delivered exactly once, on its own port, with its own result and unchanged identity, after at most the latency of its unit, unless a flush or an older mispredicted branch cancels it; cancelled operations deliver nothing, whichever stage of a multi-cycle unit they are in. Addresses and store data reach the load/store unit unchanged, resolved branches report their real direction and target, and when several branches resolve together the oldest mispredicted one decides the redirect. CSR writes are passed on once.",
  quantifier=Q(["inputs", "histories", "schedules"], "all contents of the functional units, operations arriving, completion times, flushes and mispredictions of a cycle"),
  why_tests_cant=PIPE,
  anchors=A(["back-end/Exu/Exu.cpp", "back-end/Exu/include/AbstractFU.h", "back-end/Exu/include/Fu.h"], [("execution cycle", "back-end/Exu/Exu.cpp Exu::comb_begin, comb_to_csr, comb_exec, comb_ready, comb_pipeline, seq, init"), ("unit pipelines", "back-end/Exu/include/AbstractFU.h FixedLatencyFU, IterativeFU")], [("fu_inst_r", "operations held by the units", "back-end/Exu/include/Exu.h"), ("pipeline, busy, current_inst", "operations in flight", "back-end/Exu/include/AbstractFU.h")], ["write-back entries, load/store requests, branch report, readiness masks"]),
  note="One arbitrary cycle from an arbitrary state satisfying the unit invariants, which hold after reset and are preserved. At most one multiplication is in flight, which the two-cycle latency guarantees. What a unit computes is P01/P02."))
P.append(dict(id="P07", title="Issue: operations leave when operands and unit are ready, none is lost",
  statement="Every dispatched operation enters its issue queue once, unchanged, and leaves it only by being issued or cancelled. An operation is issued exactly once, unchanged, only when all its operands are available or will be when it reads them, only to a port whose unit executes it and has room, and never during a flush or recovery. Every register whose value becomes available - loads delivered, single-cycle results being issued, multiply, divide and floating-point results whose latency has passed - is announced to every queue, to operations entering in that cycle and to dispatch, even when several become available in one cycle, and no other is. Cancelled operations leave the queues and are not announced; resolved branches are forgotten.",
  quantifier=Q(["inputs", "histories", "schedules"], "all queue contents, wake-ups, dispatched operations, unit availabilities, pending latencies, flushes and mispredictions of a cycle"),
  why_tests_cant=PIPE,
  anchors=A(["back-end/Isu.cpp", "back-end/include/Isu.h", "back-end/include/IssueQueue.h"], [("issue cycle", "back-end/Isu.cpp Isu::comb_begin, comb_ready, comb_issue, comb_awake, comb_calc_latency_next, comb_enq, comb_flush, seq, init"), ("queue", "back-end/include/IssueQueue.h IssueQueue")], [("entry, count, wake_matrix_src1/2", "waiting operations and the registers they wait for", "back-end/include/IssueQueue.h"), ("mul_wake_pipe, div_wake_slots, fp_wake_slots", "announcements of multi-cycle results still due", "back-end/include/Isu.h")], ["operations sent to the register file, registers announced"]),
  note="One arbitrary cycle from an arbitrary state. The stage is verified against the queue's contract for all inputs; the queue's own contract is discharged per step, instantiated for 4, 8 (thorough: 16) slots, so that part is bounded in the queue size. The order in which ready operations are chosen is not specified."))
P.append(dict(id="P06", title="Dispatch: in order, everywhere at once, waiting exactly for missing values",
  statement="An instruction leaves dispatch in program order, exactly once, and only when the reorder buffer, every issue queue it needs and the load/store queues have room; it then enters all of them in the same cycle. Nothing is dispatched during a flush, a recovery or a stall. CSR, environment and atomic instructions wait until all older instructions have retired and nothing is dispatched together with an older atomic or wait-for-interrupt. The reorder buffer gets the instruction unchanged, with the set of micro-operations that must complete; each issue queue gets exactly the micro-operation it executes, with the operands that micro-operation reads, and each operand waits iff its register's value is still to be produced: it was awaited and is not announced in this cycle, or an older instruction dispatched in the same cycle produces it. Every store gets the next store-queue entry in order, every load the offered load-queue entry and the store-queue position that separates older from younger stores. A register is awaited from the dispatch of its producer until it is announced. Instructions that cannot leave stay unchanged; a flush or misprediction empties the stage.",
  quantifier=Q(["inputs", "histories", "schedules"], "all pairs of instructions, queue occupancies, awaited registers, announcements, flushes and mispredictions of a cycle"),
  why_tests_cant=PIPE,
  anchors=A(["back-end/Dispatch.cpp", "back-end/include/Dispatch.h", "back-end/include/util.h"], [("dispatch cycle", "back-end/Dispatch.cpp Dispatch::comb_begin, comb_alloc, comb_wake, comb_dispatch, comb_fire, comb_pipeline, seq, init")], [("inst_r, inst_valid", "instructions waiting to be dispatched", "back-end/include/Dispatch.h"), ("busy_table", "registers whose values are still to be produced", "back-end/include/Dispatch.h")], ["instructions sent to the reorder buffer, issue queues and load/store queues"]),
  note="One arbitrary cycle from an arbitrary state; the invariant over histories is the awaited-register table, whose update is a postcondition of every cycle."))
P.append(dict(id="M01", title="A load returns the youngest older store's bytes, or else memory's",
  statement="A load gets the translation of its own address, or a fault carrying that address. A translated memory load is then compared with every older store still in the store queue: it goes to the cache only if no older store that will write any of its bytes is left there; it takes a store's data only from the youngest older store covering all its bytes, whose address and data are known, and never from a failed, undecided or cancelled store; otherwise it is checked again. A load to a device goes out only as the oldest unfinished instruction with no older store left, one device access at a time, and is never served from cache or store queue. A read names the load's own address; an answer is accepted only for the request it belongs to, and delivers exactly the addressed bytes, sign- or zero-extended; a refused read is repeated. Each load is in exactly one waiting queue, reports exactly once, to its own register, and LR then reserves its address.",
  quantifier=Q(["inputs", "histories", "schedules"], "all contents and occupancies of the load, store and waiting queues, all answers of translation, cache and devices"),
  why_tests_cant=PIPE,
  anchors=A(["back-end/Lsu/RealLsu.cpp", "back-end/Lsu/include/RealLsu.h", "back-end/Lsu/include/MemUtils.h", "back-end/include/IO.h"], [("load path", "RealLsu::comb_tlb_out, comb_tlb_in_ldq, comb_stlf, comb_lsu2dcache_ldq, comb_dcache2lsu_ldq, comb_lsu2exe")], [("LsuState", "load queue, store queue, waiting queues, device access, reservation", "back-end/Lsu/include/RealLsu.h")], ["load results and faults", "cache and device requests"]),
  note="One arbitrary call of each function from an arbitrary state; queue orders and ring positions are sampled (bounded), contents are not."))
P.append(dict(id="M02", title="Stores write their bytes once, in order, and only after commit",
  statement="A store reports completion once its address is translated and its data is there, or reports the fault. The reorder buffer's commits mark the stores in program order; a store that traps and a failed SC are marked as writing nothing. Only committed stores are sent to the cache, each with its own word address, exactly its byte lanes and its data, never before an older store to any of the same bytes is done; a refused write is sent again, and a store is done exactly when the cache has taken it. A device store goes out only as the oldest committed store, with its address, data and size, one device access at a time, and is done when answered. Stores leave the queue in order, only when committed and done. SC succeeds (returns 0 and writes) exactly when the reservation is valid and holds its address, uses the reservation up, and otherwise returns 1 and writes nothing.",
  quantifier=Q(["inputs", "histories", "schedules"], "all contents and occupancies of the store queue and its waiting queues, all commits, all answers of translation, cache and devices"),
  why_tests_cant=PIPE,
  anchors=A(["back-end/Lsu/RealLsu.cpp", "back-end/Lsu/include/RealLsu.h", "back-end/Lsu/include/MemUtils.h", "back-end/include/IO.h"], [("store path", "RealLsu::comb_tlb_in_stq, comb_stq_commit, comb_lsu2dcache_stq, comb_dcache2lsu_stq, comb_check, comb_lsu2exe, comb_mmio_in, comb_mmio_out")], [("LsuState", "load queue, store queue, waiting queues, device access, reservation", "back-end/Lsu/include/RealLsu.h")], ["cache writes and device writes", "store-conditional results"]),
  note="One arbitrary call of each function from an arbitrary state; ring positions are sampled (bounded), contents are not."))
P.append(dict(id="M03", title="Load/store queue entries: allocation, address arrival, flush and recovery",
  statement="The load/store unit offers dispatch only free, distinct load entries and the next store slot, and no more than it has room to process. Dispatched loads and stores get a clean entry with their place in the program and the branches they depend on; stores in program order at the tail. An address or datum arriving from an execution unit goes to exactly the entry it names, with size, destination, store-queue position and LR/SC kind, and everything else stays unchanged. A flush removes every load and every uncommitted store, empties all waiting queues and keeps exactly the committed stores, unchanged, including a device store already in progress. A misprediction removes exactly the loads and stores on the wrong path, from every queue, together with a device access or reservation of theirs; all others stay unchanged. Resolved branches are cleared from every entry and from the reservation.",
  quantifier=Q(["inputs", "histories", "schedules"], "all queue contents and occupancies, dispatch groups, arriving operations, flushes, mispredictions and resolved branches"),
  why_tests_cant=PIPE,
  anchors=A(["back-end/Lsu/RealLsu.cpp", "back-end/Lsu/include/RealLsu.h", "back-end/Lsu/include/MemUtils.h", "back-end/include/IO.h"], [("entries", "RealLsu::comb_cal, comb_lsu2dis, comb_dis2lsu, comb_exe2lsu, comb_flush")], [("LsuState", "load queue, store queue, waiting queues, device access, reservation", "back-end/Lsu/include/RealLsu.h")], ["which loads and stores take effect"]),
  note="One arbitrary call of each function from an arbitrary state; ring positions are sampled (bounded), contents are not."))
P.append(dict(id="M04", title="Data cache: a load reads the last value stored, through misses and evictions",
  statement="At any time each word of memory has exactly one current value: that of its copy in the cache, in the write buffer, or in a pending miss or fill, or else that of memory, and never more than one such copy. A load answered as a hit carries the word's current value. A store answered as done changes exactly the enabled bytes of its word, two stores to one word in the same cycle in order; a store that has to be retried changes nothing; nothing else changes any value: not misses, fills, evictions, write-backs or bus responses. A line marked clean equals memory. Each request accepted is answered exactly once with its own id, and answers waiting for a line are completed when it arrives. Requests to memory name the line that is missing or evicted, with its current data. Extra cache clock ticks without requests inject none.",
  quantifier=Q(["inputs", "histories", "schedules"], "all cache, miss-queue and write-buffer contents satisfying the invariant, all addresses, data, byte enables and request combinations, all bus response timings"),
  why_tests_cant=PIPE,
  anchors=A(["MemSubSystem/RealDcache.cpp", "MemSubSystem/MSHR.cpp", "MemSubSystem/WriteBuffer.cpp", "MemSubSystem/DcacheConfig.cpp", "MemSubSystem/MemSubsystem.cpp", "back-end/include/IO.h"], [("cycle", "MemSubsystem::comb_outputs, comb_inputs, seq, dcache_fast_comb, dcache_fast_seq; RealDcache::stage1_comb, stage2_comb; MSHR and WriteBuffer comb_*; Dcache_Read, Dcache_Write")], [("cache arrays", "valid, dirty, tag, data", "MemSubSystem/DcacheConfig.cpp"), ("MSHR_STATE", "pending misses", "MemSubSystem/include/MSHR.h"), ("write buffer", "evicted lines", "MemSubSystem/include/WriteBuffer.h")], ["load results", "memory contents"]),
  note="One cycle from an arbitrary state satisfying an inductive invariant that the reset state satisfies. The probed word's position in its line and the queue positions are sampled (bounded); contents, addresses and timings are not."))
P.append(dict(id="M05", title="Address translation: TLBs and walker agree with the page tables and privileges",
  statement="When a data or fetch translation succeeds, the physical address is the one the page tables give for that virtual address in the current address space, and the access is one the leaf entry permits at the effective privilege (U, SUM, MXR, MPRV, accessed and dirty bits included); when it reports a page fault, the page tables forbid the access or have no valid leaf; otherwise it asks the walker for that page and is retried. Untranslated accesses keep their address. A TLB entry serves only its own address space unless global; superpages cover their range; SFENCE.VMA leaves no entry; a cancelled walk fills nothing. The walker reads the root word, then the second-level word only for a pointer, returns the leaf and its level or a fault, to the client that asked, keeps every accepted request until answered or flushed, and serves clients in turn.",
  quantifier=Q(["inputs", "histories", "schedules"], "all virtual addresses, page-table contents, SATP, privilege and status values, TLB contents consistent with the page tables, walker states, request timings and memory latencies"),
  why_tests_cant=PIPE,
  anchors=A(["back-end/Lsu/TlbMmu.cpp", "back-end/Lsu/include/TlbMmu.h", "MemSubSystem/include/MemPtwBlock.h", "MemSubSystem/PtwWalker.cpp"], [("translation", "TlbMmu::translate, translate_lsu_ports, flush, cancel_pending_walk"), ("walker", "MemPtwBlock::comb_begin, comb_finish, seq; PtwWalker::tick, start, flush")], [("TLB entries", "cached leaf entries", "back-end/Lsu/include/TlbMmu.h"), ("MemPtwBlock::State", "walk in progress and client queues", "MemSubSystem/include/MemPtwBlock.h")], ["physical addresses", "page faults"]),
  note="One tracked page with arbitrary page-table contents; one call or one cycle from an arbitrary state consistent with it."))
P.append(dict(id="M06", title="Shared cache port: every reader gets exactly the answer to its own request",
  statement="The last load port of the data cache is shared by loads, page-walk reads, TLB reads and instruction-cache probes. In each cycle at most one of the extra readers takes the port, one does whenever any may, and its address enters the cache under a fresh id; other ports carry the load/store unit's requests unchanged. An answer is delivered only to the reader that asked, with its data; answers to the load/store unit pass unchanged and it never sees the other readers' answers. A load displaced from the port is told to retry. A reader refused is woken at once, and a reader whose line is missing is woken when a line arrives, whatever other readers did meanwhile. Walk requests, consumed answers and flushes at a client's port reach the walker as that client's, and the walker's answers reach the port of the client they belong to.",
  quantifier=Q(["inputs", "histories", "schedules"], "all combinations of requests and answers, all waiting readers, all walker states, all ids and data"),
  why_tests_cant=PIPE,
  anchors=A(["MemSubSystem/MemRouteBlock.cpp", "MemSubSystem/include/MemRouteBlock.h", "MemSubSystem/MemSubsystem.cpp"], [("route", "MemRouteBlock::comb_response, comb_request, seq, init"), ("ports", "MemSubsystem::comb_outputs, comb_inputs, seq and the port adapters")], [("MemRouteBlockState", "request in the cache, waiting readers, displaced load", "MemSubSystem/include/MemRouteBlock.h")], ["page-walk results", "instruction-cache probe results", "load results"]),
  note="One cycle from an arbitrary state; the walker between ports and route is compared with a stand-alone walker given the same signals."))
P.append(dict(id="M07", title="Device accesses are performed once and each gets its own answer",
  statement="Every load or store to a device address is handed to the device side exactly once and is answered exactly once, with the data of its own access: a request is sent only when no earlier request or answer is outstanding, is taken as sent, and is not repeated while it waits; the answer to an access cancelled by a flush is not taken for the answer to the next one. An access to a modelled device reads the model once; any other goes to the bus with its address, size, data and byte enables until it is accepted, and a bus read returns the bus data sized and sign- or zero-extended as the load asks.",
  quantifier=Q(["inputs", "histories", "schedules"], "all addresses, sizes and data, all bus delays, cancellation and start of accesses at any point"),
  why_tests_cant=PIPE,
  anchors=A(["MemSubSystem/PeripheralAxi.cpp", "back-end/Lsu/RealLsu.cpp"], [("bridge", "PeripheralAxi::comb_outputs, comb_inputs, seq, init"), ("load/store unit", "RealLsu::comb_mmio_in, comb_mmio_out")], [("PeripheralAxiState", "access and answer in progress", "MemSubSystem/include/PeripheralAxi.h"), ("UncachedUnit", "device access of the load/store unit", "back-end/Lsu/include/RealLsu.h")], ["bus requests", "device reads", "results of device loads"]),
  note="One cycle of the load/store unit's device interface and the bridge together, from an arbitrary state satisfying the invariant that every access sent has exactly one answer coming."))
P.append(dict(id="M08", title="Simulated devices: timer, UART, interrupt controller, DMA, physical memory",
  statement="Physical memory is a function from words to values. A load from a modelled device returns the register addressed, sized and extended, and changes nothing. A store writes exactly the bytes addressed and has the side effects of the register: the two halves of the 64-bit time and of the compare value are set independently; the timer interrupt line is up exactly when the time has reached the compare value; UART command 7 raises the UART interrupt source and command 5 sets the status nibble; the interrupt controller shows the pending source (DMA before UART), a completion write lowers the source it names, and the external line is up exactly while a source is pending; DMA status bits are cleared by writing ones. A DMA transfer copies the source range as it was over the destination range and nothing else, reports completion, interrupts when asked to and tells the caches; a transfer of length zero or outside RAM copies nothing and reports an error.",
  quantifier=Q(["inputs", "histories"], "all device states, addresses, sizes, data and times, all memory contents"),
  why_tests_cant="The tests run the reference model only and never execute the simulator's devices.",
  anchors=A(["MemSubSystem/include/PeripheralModel.h", "back-end/PhysMemory.cpp"], [("devices", "PeripheralModel::read_load, on_commit_store, tick, is_modeled_mmio"), ("memory", "pmem_read, pmem_write, pmem_is_ram_addr, pmem_memcpy_from_ram, pmem_memcpy_to_ram")], [("PeripheralModel", "timer, DMA registers, pending sources", "MemSubSystem/include/PeripheralModel.h")], ["device load results", "interrupt lines", "memory contents"]),
  note="One access from an arbitrary device and memory state; DMA transfers for word-aligned ranges of 4, 8, 16 and 64 bytes at any address."))
P.append(dict(id="F01", title="Fetch queues keep order; predecode corrects wrong predictions",
  statement="The fetch-address, instruction, prediction and front-to-back queues are first-in first-out: an entry written when there is room comes out exactly once, unchanged and in order; an entry leaves only when it is asked for; a redirect or reset removes everything queued before it; the empty and full signals agree with the number of entries. Predecoding classifies every instruction word as jump, conditional branch, indirect jump or other, with the target of a direct one being its address plus its encoded offset. The check of a predicted group leaves no taken prediction on an instruction that cannot jump and no not-taken prediction on a JAL; the next address it gives follows from the first taken instruction (the encoded target for direct ones, the prediction for indirect ones) or is the sequential one; and it asks for a redirect exactly when that address differs from the predicted one.",
  quantifier=Q(["inputs", "histories"], "all queue lengths and contents, all write, read, redirect and reset combinations, all instruction words, addresses and predictions"),
  why_tests_cant=PIPE,
  anchors=A(["front-end/fifo/fetch_address_FIFO.cpp", "front-end/fifo/instruction_FIFO.cpp", "front-end/fifo/PTAB.cpp", "front-end/fifo/front2bank_FIFO.cpp", "front-end/predecode.cpp", "front-end/predecode_checker.cpp"], [("queues", "X_seq_read, X_comb_calc, X_seq_write of each queue"), ("predecode", "predecode_comb, predecode_checker_comb")], [("queue storage", "entries in flight", "front-end/fifo")], ["instructions and predictions delivered to the back end"]),
  note="A queue of every length is built through its own write phase, one arbitrary cycle is run, and the queue is drained and compared."))
P.append(dict(id="F02", title="Front end: one ordered group per fetch, with its prediction, none lost",
  statement="Every fetch group that the predictor issues is fetched once, in order, and reaches the back end as one group with its own instructions, addresses, page-fault marks and predictions, unless a redirect removes it; no group is lost, duplicated, reordered or paired with another group's prediction, whatever queue is full or empty. When the check of a group finds a wrong next address, the group is delivered with the corrected next address and fetching restarts there; a redirect from the back end wins over it and removes everything queued. A redirect or reset leaves nothing of the old path behind. Nothing is delivered unless the back end asks for it. FENCE.I and TLB flushes reach the instruction cache. Committed branches reach the predictor unchanged.",
  quantifier=Q(["inputs", "histories", "schedules"], "all queue contents and lengths satisfying the invariant, all answers of instruction cache and predictor, all back-end requests, redirects and resets"),
  why_tests_cant=PIPE,
  anchors=A(["front-end/front_top.cpp", "front-end/train_IO.h", "front-end/front_IO.h"], [("cycle", "front_comb_calc, front_seq_read, front_seq_write, front_top")], [("queues and latches", "groups in flight, pending redirect", "front-end/front_top.cpp")], ["instructions, addresses and predictions delivered to the back end", "addresses requested from the instruction cache"]),
  note="One cycle from an arbitrary state satisfying an inductive invariant; predictor and instruction cache by contract."))
P.append(dict(id="F03", title="Predictor: connected fetch stream, restored history, no lost training",
  statement="Whatever the direction, target and type tables answer, the branch predictor offers one fetch group per cycle except in a redirect cycle, starting at its current address, and records a prediction exactly when the group is accepted. The next group starts exactly at the next address recorded with the accepted one: the target (for a return, the top of the return stack) of the first instruction predicted taken whose target is known, else the next sequential address, clipped to the cache line. A refused group is offered again; a redirect restarts at its address and resets speculative history and return stack to the committed ones. A predicted call pushes its return address, a return pops; committed calls, returns and branch directions update the committed stack and history. Every committed branch is queued in order in its bank and trains the tables once, oldest first; the predictor reports full whenever one more cycle of commits might not fit.",
  quantifier=Q(["inputs", "histories", "schedules"], "all table answers, histories, return stacks, addresses, acceptances, redirects and committed branches"),
  why_tests_cant=PIPE,
  anchors=A(["front-end/BPU/BPU.h"], [("cycle", "BPU_TOP::bpu_seq_read, bpu_comb_calc, bpu_seq_write")], [("pc_reg, histories, return stacks, update queues", "predictor state", "front-end/BPU/BPU.h")], ["fetch addresses and recorded predictions"]),
  note="One cycle from an arbitrary state. Positions in the training queue are sampled (bounded); everything else is not."))
P.append(dict(id="F04", title="Instruction cache: answers each fetch once, with the newest words of its page",
  statement="A fetch accepted by the instruction cache is answered exactly once, with the requested address, unless a redirect, invalidation, FENCE.I or reset cancels it; nothing else is answered, and nothing is answered in a cycle that cancels. The page of the request is translated as a fetch under the current control state; a failed translation marks every lane of the group as page fault. Otherwise the lanes inside the cache line carry the words of that physical line: on a hit the cached ones (valid way, matching tag), on a miss the newest ones (the data cache's if it holds the line, else memory's); lanes beyond the line are invalid. A miss asks memory and data cache for exactly the missing line and stores it in one way of the right set with its tag. An answer to a cancelled memory transaction is drained and never delivered or stored; a transaction id is not reused while outstanding and is freed by its answer. FENCE.I and reset empty the cache; TLB flushes reach the translator before the next translation.",
  quantifier=Q(["inputs", "histories", "schedules"], "all cache contents, requests, translations, cancellations, and orders of memory and data-cache answers, in every state of the miss machine"),
  why_tests_cant=PIPE,
  anchors=A(["front-end/icache/icache_module.cpp", "front-end/icache/ICacheTop.cpp", "front-end/icache/icache.cpp", "front-end/icache/GenericTable.h"], [("cycle", "icache_comb_calc, icache_peek_ready, ICache::comb_lookup_meta/comb_lookup_data/seq")], [("request slot, miss registers, transaction bits, cache tables", "fetches and refills in flight", "front-end/icache/include/icache_module.h")], ["instructions, addresses and page-fault marks delivered to the front end", "requests to memory and data cache"]),
  note="One cycle from an arbitrary state satisfying an inductive invariant; storage tables by contract (checked separately), translation by contract (M05)."))
P.append(dict(id="D01", title="Lock-step comparer: reports every disagreement, and only those",
  statement="A checked lock-step comparison lets the simulation go on exactly if the pipeline and the reference model agree: same next address, same instruction (unless its fetch faulted), same three page-fault marks, same 32 registers, same CSRs, and, if the reference model stored, a pipeline store of the same data to the same address. The machine timer and external pending bits are compared only for instructions that access mip or sip. Any disagreement ends the simulation as an error; agreement never does. Before comparing, the reference model makes exactly one step, having been told the pipeline's page faults and the current time; comparing changes neither model, and an unchecked step only steps. Synchronising hands the reference model the pipeline's whole state and the given privilege.",
  quantifier=Q(["inputs", "histories"], "all states of pipeline and reference model, all step results"),
  why_tests_cant="Tests never run the comparer: the full simulator is not built here, and a run that agrees shows nothing about the disagreements it would miss.",
  anchors=A(["diff/diff.cpp"], [("comparer", "difftest_step, difftest_sync_from_dut, difftest_ref_sim_end, difftest_ref_last_inst_is_wfi")], [("dut_cpu", "committed state of the pipeline", "diff/diff.cpp")], ["difftest verdict", "state of the reference model"]),
  note="The reference-model library is absent; its interface is inferred from its use and it answers arbitrarily."))
P.append(dict(id="D02", title="Commit: devices see each store once; the comparer gets the committed state",
  statement="When an instruction commits, its store is passed on to the device models exactly once, with its physical address, data and width, if and only if it takes effect: not when it faulted, when it is a failed store-conditional, or when an interrupt is taken at it (it will be executed again). With lock-step comparison on, each committed instruction is either compared (one checked step) or, only if its outcome depends on devices or timing (a non-faulting device access, a store not yet complete, a read of mip or sip while an interrupt line is driven, an instruction marked to be skipped, an interrupt), handed over with the current privilege. The state given is the committed one: registers through the committed renaming, CSRs (pending bits show the interrupt lines to an instruction that reads them; sip is the visible part of mip), the store performed (bytes in their lanes), the next address (target of a jump or of a flush, else pc+4), the instruction, its address and its page faults.",
  quantifier=Q(["inputs", "histories"], "all committing instructions, store-queue entries, register and CSR contents, interrupt lines"),
  why_tests_cant=PIPE,
  anchors=A(["rv_simu_mmu_v2.cpp"], [("commit", "SimContext::run_commit_inst, run_difftest_inst, SimCpu::commit_sync, difftest_prepare")], [("dut_cpu", "state given to the comparer", "rv_simu_mmu_v2.cpp")], ["device writes", "difftest verdict"]),
  note="One arbitrary commit; load/store unit, devices and comparer by contract."))
P.append(dict(id="D03", title="Top level: one cycle connects front end, back end, memory and bus",
  statement="In every cycle the top level evaluates front end, back end and memory subsystem once, in an order in which each sees this cycle's inputs, and clocks each once after evaluation; the bus makes its configured number of ticks. The front end is asked for a group when the back end has room or redirects, and is told redirect address and flushes in the same cycle; the back end gets the group's instructions up to the first predicted jump, with addresses, instruction words, page faults and predictions; from a stalled group the instructions not yet taken, and only those, stay offered. Committed instructions, and only those, train the predictor with their address, kind, direction, target and the prediction made for them. Data-cache, write-buffer and device ports of the memory subsystem are connected to their own bus ports in both directions, device accesses uncached, in the main tick and (data cache) in the extra ticks, in which no other request is repeated. Reset connects and resets every part once; a restored address is where execution restarts.",
  quantifier=Q(["inputs", "histories", "schedules"], "all outputs of front end, back end, memory subsystem and bus in a cycle"),
  why_tests_cant=PIPE,
  anchors=A(["rv_simu_mmu_v2.cpp"], [("cycle", "SimCpu::cycle, front_cycle, back2front_comb, init, restore_pc")], [("SimCpu", "signals between the parts", "include/SimCpu.h")], ["instructions delivered", "bus requests"]),
  note="One arbitrary cycle; the parts by contract. The interconnect library is absent; its types are inferred from their use."))
NOT_CLAIMED = [
 dict(id="N01", title="Every fetched instruction eventually commits or is redirected (no deadlock)",
  statement="From every reachable state, whatever fair answers memory and devices give, the processor commits another instruction or takes a trap after finitely many cycles.",
  quantifier=Q(["schedules", "histories"], "all reachable states of the whole pipeline and all fair environments"),
  why_tests_cant="A deadlock needs one particular combination of full queues and delayed answers.",
  anchors=A(["back-end/BackTop.cpp", "front-end/front_top.cpp", "MemSubSystem/MemSubsystem.cpp"], [("cycle", "BackTop, front_top and MemSubsystem cycles")], [("all queues", "occupancy and stall conditions of every stage", "back-end, front-end, MemSubSystem")], ["committed instructions per cycle"]),
  reason="liveness of the composed pipeline: it needs one ranking function over the state of all stages, the interconnect and the memory (the interconnect's source is not in the repository); the function contracts here state safety only, plus local progress where a function decides alone (for example P07 issue, F04 hit)"),
 dict(id="N02", title="The simulator and the reference model agree after every committed instruction",
  statement="In lock step, the registers, pc, CSRs and memory of the out-of-order core equal those of the reference model after every commit, for every program and interrupt timing.",
  quantifier=Q(["programs", "schedules"], "all programs, all interrupt and memory timings"),
  why_tests_cant="Tests run some programs on the reference model only; the full simulator cannot even be built here.",
  anchors=A(["rv_simu_mmu_v2.cpp", "diff/diff.cpp"], [("cycle", "SimCpu::cycle, commit_sync, difftest_step")], [("whole machine", "architectural state of both models", "rv_simu_mmu_v2.cpp")], ["difftest verdict"]),
  reason="the full simulator needs the interconnect submodule, which is absent, and the end-to-end claim is the composition of P01-P12, M01-M08, F01-F04 and D01-D03 with R01-R08; that composition is argued in DESIGN.md, not discharged by the verifier"),
 dict(id="N03", title="Floating-point arithmetic is correctly rounded for all operands and modes",
  statement="Every single-precision operation returns the correctly rounded IEEE 754 result for all operands and rounding modes.",
  quantifier=Q(["inputs"], "all operands and rounding modes"),
  why_tests_cant="The input space is 2^64 to 2^96 operand combinations per operation.",
  anchors=A(["diff/ref.cpp", "back-end/Exu"], [("calls", "f32_add, f32_mul, f32_div, f32_sqrt, f32_mulAdd")], [], ["result registers of FP instructions"]),
  reason="the arithmetic is done by the prebuilt SoftFloat library, whose source is not in the repository; R07 and P02 prove that the right library function is called with the right operands and rounding mode"),
]
