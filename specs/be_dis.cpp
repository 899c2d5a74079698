// Contract of the dispatch stage (Dispatch.cpp): instructions enter the reorder buffer,
// the issue queues and the load/store queues together, in order, exactly once and only
// when all of them have room; operands wait exactly for values not yet produced.
#include "vc.h"
#include "Dispatch.h"
#include "SimCpu.h"
#include "util.h"
#include "config.h"
long long sim_time;
static Raw<SimContext> g_ctx; static Raw<Dispatch> g_dis;
#define D (g_dis.v)
static RenDisIO ren2dis; static RobDisIO rob2dis; static IssDisIO iss2dis; static LsuDisIO lsu2dis; static PrfAwakeIO pawk; static IssAwakeIO iawk; static RobBroadcastIO rbc; static DecBroadcastIO dbc;
static DisRenIO dis2ren; static DisRobIO dis2rob; static DisIssIO dis2iss; static DisLsuIO dis2lsu;
static const int W = DECODE_WIDTH;
typedef RenDisIO::RenDisInst Inst;
static bool iv[W]; static Inst in_[W]; static bool busy[PRF_NUM];

static void connect() {
  D.ctx = &g_ctx.v;
  D.in.ren2dis = &ren2dis; D.in.rob2dis = &rob2dis; D.in.iss2dis = &iss2dis; D.in.lsu2dis = &lsu2dis; D.in.prf_awake = &pawk; D.in.iss_awake = &iawk; D.in.rob_bcast = &rbc; D.in.dec_bcast = &dbc;
  D.out.dis2ren = &dis2ren; D.out.dis2rob = &dis2rob; D.out.dis2iss = &dis2iss; D.out.dis2lsu = &dis2lsu;
}
static void setup() {
  vc_havoc(&D, sizeof D, "dispatch"); connect();
  vc_havoc(&ren2dis, sizeof ren2dis, "ren2dis"); vc_havoc(&rob2dis, sizeof rob2dis, "rob2dis"); vc_havoc(&iss2dis, sizeof iss2dis, "iss2dis"); vc_havoc(&lsu2dis, sizeof lsu2dis, "lsu2dis"); vc_havoc(&pawk, sizeof pawk, "prf_awake"); vc_havoc(&iawk, sizeof iawk, "iss_awake"); vc_havoc(&rbc, sizeof rbc, "rob_bcast"); vc_havoc(&dbc, sizeof dbc, "dec_bcast");
  vc_havoc(&dis2ren, sizeof dis2ren, "dis2ren"); vc_havoc(&dis2rob, sizeof dis2rob, "dis2rob"); vc_havoc(&dis2iss, sizeof dis2iss, "dis2iss"); vc_havoc(&dis2lsu, sizeof dis2lsu, "dis2lsu");
  lsu2dis.stq_tail &= STQ_SIZE - 1; rob2dis.enq_idx &= ROB_LINE_NUM - 1;
  for (int w = 0; w < LSU_LOAD_WB_WIDTH; w++) pawk.wake[w].preg &= PRF_NUM - 1;
  for (int w = 0; w < MAX_WAKEUP_PORTS; w++) iawk.wake[w].preg &= PRF_NUM - 1;
  for (int i = 0; i < W; i++) {
    auto &u = D.inst_r[i];
    u.src1_preg &= PRF_NUM - 1; u.src2_preg &= PRF_NUM - 1; u.dest_preg &= PRF_NUM - 1;
    vc_assume(u.type < INST_TYPE_COUNT);
    vc_assume(IMPLIES(u.dest_en, u.dest_areg != 0));              // decode gives x0 no destination (P01)
    vc_assume(IMPLIES(u.type == AMO, u.src1_en));                 // atomics have an address register
    vc_assume(IMPLIES(u.type == STORE || (u.type == AMO && (u.func7 >> 2) != AmoOp::LR), u.src2_en)); // and data
    vc_assume(IMPLIES(u.type == JALR, u.src1_en));
    iv[i] = D.inst_valid[i]; in_[i] = u;
  }
  for (int p = 0; p < PRF_NUM; p++) busy[p] = D.busy_table[p];
}
static void cycle() { D.comb_begin(); D.comb_alloc(); D.comb_wake(); D.comb_dispatch(); D.comb_fire(); D.comb_pipeline(); D.seq(); }

// ---- what an instruction needs ----
static bool amo(const Inst &u, int op) { return u.type == AMO && (u.func7 >> 2) == op; }
static bool loads(const Inst &u) { return u.type == LOAD || (u.type == AMO && !amo(u, AmoOp::SC)); }
static bool stores(const Inst &u) { return u.type == STORE || (u.type == AMO && !amo(u, AmoOp::LR)); }
static bool jumps(const Inst &u) { return u.type == JAL || u.type == JALR; }
static bool uses_queue(const Inst &u, int q) {
  if (q == IQ_LD) return loads(u);
  if (q == IQ_STA || q == IQ_STD) return stores(u);
  if (q == IQ_BR) return u.type == BR || jumps(u);
  return !loads(u) && !stores(u) && u.type != BR;
}
static bool woken(uint32_t p) {
  bool w = false;
  for (int k = 0; k < LSU_LOAD_WB_WIDTH; k++) w = w || (pawk.wake[k].valid && pawk.wake[k].preg == p);
  for (int k = 0; k < MAX_WAKEUP_PORTS; k++) w = w || (iawk.wake[k].valid && iawk.wake[k].preg == p);
  return w;
}
static bool serial(const Inst &u) { return u.type == CSR || u.type == AMO || u.type == MRET || u.type == ECALL || u.type == EBREAK; }
// Which slots can leave: in order, with room everywhere.
static bool can[W];
static void compute_can() {
  bool open = rob2dis.ready && !rbc.flush && !dbc.mispred && !rob2dis.stall; bool any = false;
  int used[IQ_NUM]; for (int q = 0; q < IQ_NUM; q++) used[q] = 0;
  int nl = 0, ns = 0;
  for (int i = 0; i < W; i++) {
    can[i] = false;
    if (!iv[i]) continue;
    const Inst &u = in_[i]; bool ok = open;
    for (int q = 0; q < IQ_NUM; q++) if (uses_queue(u, q)) ok = ok && used[q] < GLOBAL_IQ_CONFIG[q].dispatch_width && used[q] < iss2dis.ready_num[q];
    if (loads(u)) ok = ok && nl < lsu2dis.ldq_free && nl < MAX_LDQ_DISPATCH_WIDTH && nl < GLOBAL_IQ_CONFIG[IQ_LD].dispatch_width && lsu2dis.ldq_alloc_valid[nl];
    if (stores(u)) ok = ok && ns < lsu2dis.stq_free && ns < MAX_STQ_DISPATCH_WIDTH;
    if (serial(u)) ok = ok && rob2dis.empty && !any;
    can[i] = ok;
    if (!ok) open = false; // nothing overtakes
    else { any = true; if (u.type == AMO || u.type == WFI) open = false; for (int q = 0; q < IQ_NUM; q++) if (uses_queue(u, q)) used[q]++; if (loads(u)) nl++; if (stores(u)) ns++; }
  }
}
static bool same_inst(const Inst &a, const Inst &b) { // identity of an instruction (not busy flags and branch mask)
  return a.diag_val == b.diag_val && a.dest_areg == b.dest_areg && a.src1_areg == b.src1_areg && a.src2_areg == b.src2_areg && a.dest_preg == b.dest_preg && a.src1_preg == b.src1_preg && a.src2_preg == b.src2_preg && a.old_dest_preg == b.old_dest_preg &&
         a.ftq_idx == b.ftq_idx && a.ftq_offset == b.ftq_offset && a.ftq_is_last == b.ftq_is_last && a.type == b.type && a.dest_en == b.dest_en && a.src1_en == b.src1_en && a.src2_en == b.src2_en && a.is_atomic == b.is_atomic &&
         a.src1_is_pc == b.src1_is_pc && a.src2_is_imm == b.src2_is_imm && a.func3 == b.func3 && a.func7 == b.func7 && a.imm == b.imm && a.br_id == b.br_id && a.csr_idx == b.csr_idx && a.page_fault_inst == b.page_fault_inst && a.illegal_inst == b.illegal_inst && a.is_ret == b.is_ret &&
         a.dbg.pc == b.dbg.pc && a.dbg.instruction == b.dbg.instruction;
}
static wire<BR_MASK_WIDTH> mask_of(const Inst &u) { return u.br_mask & ~dbc.clear_mask; }

// Which instructions leave, and what stays.
VC_DRIVER(dis_fire) {
  setup(); compute_can(); cycle();
  bool all = true, any = false;
  for (int i = 0; i < W; i++) {
    bool f = dis2rob.dis_fire[i];
    vc_assert(IMPLIES(f, iv[i]), "only a waiting instruction is dispatched");
    for (int j = 0; j < i; j++) vc_assert(IMPLIES(f && iv[j], dis2rob.dis_fire[j]), "no instruction overtakes an older one");
    vc_assert(IMPLIES(f, !rbc.flush && !dbc.mispred && !rob2dis.stall && rob2dis.ready), "nothing is dispatched during a flush, a recovery or without reorder-buffer space");
    vc_assert(IMPLIES(f && serial(in_[i]), rob2dis.empty), "CSR and atomic instructions wait until all older instructions have retired");
    for (int j = 0; j < i; j++) {
      vc_assert(IMPLIES(f && serial(in_[i]), !dis2rob.dis_fire[j]), "CSR and atomic instructions enter alone after older ones");
      vc_assert(IMPLIES(f && dis2rob.dis_fire[j], in_[j].type != AMO && in_[j].type != WFI), "nothing is dispatched together with an older atomic or wait instruction");
    }
    vc_assert(f == can[i], "an instruction is dispatched as soon as it and its elders have room everywhere");
    if (iv[i]) all = all && f;
    any = any || iv[i];
  }
  vc_assert(IMPLIES(dis2ren.ready, all), "new instructions are accepted only when all present ones have left");
  vc_assert(IMPLIES(!any, dis2ren.ready), "an empty stage accepts instructions");
  bool kill = rbc.flush || dbc.mispred;
  for (int i = 0; i < W; i++) {
    bool stays = iv[i] && !dis2rob.dis_fire[i];
    bool next = D.inst_valid[i];
    vc_assert(next == (!kill && (dis2ren.ready ? (bool)ren2dis.valid[i] : stays)), "after the cycle the stage holds the accepted or the remaining instructions; a flush or misprediction empties it");
    vc_assert(IMPLIES(next && dis2ren.ready, same_inst(D.inst_r[i], ren2dis.uop[i]) && D.inst_r[i].br_mask == mask_of(ren2dis.uop[i])), "an accepted instruction is unchanged except for resolved branches");
    vc_assert(IMPLIES(next && !dis2ren.ready, same_inst(D.inst_r[i], in_[i]) && D.inst_r[i].br_mask == mask_of(in_[i])), "a remaining instruction is unchanged except for resolved branches");
  }
  vc_cover("fire");
}

// What the reorder buffer and the load/store queues are told.
VC_DRIVER(dis_alloc) {
  setup(); cycle();
  int nl = 0, ns = 0;
  for (int i = 0; i < W; i++) {
    const Inst &u = in_[i]; auto &r = dis2rob.uop[i]; bool f = dis2rob.dis_fire[i];
    vc_assert(IMPLIES(f, dis2rob.valid[i]), "a dispatched instruction is valid for the reorder buffer");
    vc_assert(IMPLIES(f, r.diag_val == u.diag_val && r.dest_areg == u.dest_areg && r.src1_areg == u.src1_areg && r.dest_preg == u.dest_preg && r.old_dest_preg == u.old_dest_preg && r.ftq_idx == u.ftq_idx && r.ftq_offset == u.ftq_offset && r.ftq_is_last == u.ftq_is_last &&
        r.type == u.type && r.dest_en == u.dest_en && r.is_atomic == u.is_atomic && r.func3 == u.func3 && r.func7 == u.func7 && r.imm == u.imm && r.page_fault_inst == u.page_fault_inst && r.illegal_inst == u.illegal_inst && r.is_ret == u.is_ret && r.dbg.pc == u.dbg.pc && r.dbg.instruction == u.dbg.instruction), "the reorder buffer gets the instruction unchanged");
    vc_assert(IMPLIES(f, !r.mispred && !r.flush_pipe && r.br_mask == mask_of(u)), "the reorder buffer gets the unresolved branches of the instruction");
    vc_assert(IMPLIES(f, r.rob_idx == rob2dis.enq_idx * W + i && r.rob_flag == rob2dis.rob_flag), "an instruction gets the reorder-buffer entry of its slot");
    int groups = 0;
    if (uses_queue(u, IQ_INT) || uses_queue(u, IQ_LD) || amo(u, AmoOp::SC)) groups |= ROB_CPLT_G0;
    if (uses_queue(u, IQ_BR) || (uses_queue(u, IQ_STA) && !amo(u, AmoOp::SC))) groups |= ROB_CPLT_G1;
    if (uses_queue(u, IQ_STD)) groups |= ROB_CPLT_G2;
    vc_assert(IMPLIES(f, r.expect_mask == groups && r.cplt_mask == 0), "an instruction completes when all its micro-operations have");
    if (f && stores(u)) {
      int pos = lsu2dis.stq_tail + ns;
      vc_assert(ns < MAX_STQ_DISPATCH_WIDTH && dis2lsu.alloc_req[ns] && dis2lsu.br_mask[ns] == mask_of(u) && dis2lsu.rob_idx[ns] == r.rob_idx && dis2lsu.rob_flag[ns] == r.rob_flag && dis2lsu.func3[ns] == u.func3 && dis2lsu.stq_flag[ns] == r.stq_flag, "every dispatched store allocates a store-queue entry, in order");
      vc_assert(r.stq_idx == pos % STQ_SIZE && r.stq_flag == (bool)(lsu2dis.stq_tail_flag ^ (pos >= STQ_SIZE)), "a store knows the entry it allocates");
    }
    if (f && loads(u)) {
      vc_assert(nl < MAX_LDQ_DISPATCH_WIDTH && dis2lsu.ldq_alloc_req[nl] && dis2lsu.ldq_idx[nl] == lsu2dis.ldq_alloc_idx[nl] && dis2lsu.ldq_br_mask[nl] == mask_of(u) && dis2lsu.ldq_rob_idx[nl] == r.rob_idx && dis2lsu.ldq_rob_flag[nl] == r.rob_flag, "every dispatched load allocates the offered load-queue entry");
      vc_assert(r.ldq_idx == lsu2dis.ldq_alloc_idx[nl], "a load knows the entry it allocates");
      int pos = lsu2dis.stq_tail + ns;
      if (!stores(u)) vc_assert(r.stq_idx == pos % STQ_SIZE && r.stq_flag == (bool)(lsu2dis.stq_tail_flag ^ (pos >= STQ_SIZE)), "a load knows where the stores before it end");
      nl++;
    }
    if (f && stores(u)) ns++;
  }
  for (int k = 0; k < MAX_STQ_DISPATCH_WIDTH; k++) vc_assert(dis2lsu.alloc_req[k] == (k < ns), "no store-queue entry is allocated without a dispatched store");
  for (int k = 0; k < MAX_LDQ_DISPATCH_WIDTH; k++) vc_assert(dis2lsu.ldq_alloc_req[k] == (k < nl), "no load-queue entry is allocated without a dispatched load");
  vc_assert(ns <= lsu2dis.stq_free && nl <= lsu2dis.ldq_free, "the load/store queues are not overfilled");
  vc_cover("alloc");
}

// What the issue queues are sent.
VC_DRIVER(dis_queues) {
  int q = vc_choose(IQ_NUM), i = vc_choose(W);
  setup(); cycle();
  int sent = 0, want = 0;
  for (int w = 0; w < MAX_IQ_DISPATCH_WIDTH; w++) sent += dis2iss.req[q][w].valid ? 1 : 0;
  for (int j = 0; j < W; j++) if (dis2rob.dis_fire[j] && uses_queue(in_[j], q)) want++;
  vc_assert(sent == want, "a queue receives exactly the micro-operations of the dispatched instructions");
  vc_assert(IMPLIES(want > 0, want <= iss2dis.ready_num[q] && want <= GLOBAL_IQ_CONFIG[q].dispatch_width), "a queue is not overfilled");
  for (int w = GLOBAL_IQ_CONFIG[q].dispatch_width; w < MAX_IQ_DISPATCH_WIDTH; w++) vc_assert(!dis2iss.req[q][w].valid, "only existing queue inputs are used");
  const Inst &u = in_[i]; auto &r = dis2rob.uop[i];
  if (dis2rob.dis_fire[i] && uses_queue(u, q)) {
    bool swap = amo(u, AmoOp::SWAP), rmw = u.type == AMO && loads(u) && stores(u);
    int op = q == IQ_LD ? UOP_LOAD : q == IQ_STA ? UOP_STA : q == IQ_STD ? UOP_STD : q == IQ_BR ? (u.type == BR ? UOP_BR : UOP_JUMP) : -1;
    if (q == IQ_INT) switch (u.type) {
      case ADD: case NOP: case JAL: case JALR: op = UOP_ADD; break; case MUL: op = UOP_MUL; break; case DIV: op = UOP_DIV; break; case FP: op = UOP_FP; break; case CSR: op = UOP_CSR; break; case FENCE: op = UOP_FENCE; break;
      case ECALL: op = UOP_ECALL; break; case EBREAK: op = UOP_EBREAK; break; case WFI: op = UOP_WFI; break; case SFENCE_VMA: op = UOP_SFENCE_VMA; break; case FENCE_I: op = UOP_FENCE_I; break; case MRET: op = UOP_MRET; break; case SRET: op = UOP_SRET; break;
    }
    // operands the micro-operation reads, and whether their values are still to come
    bool link = jumps(u) && q == IQ_INT;
    bool use1 = u.src1_en && !link && !(q == IQ_STD && !rmw), use2 = u.src2_en && !link && q != IQ_STA && !(q == IQ_LD && u.type == AMO);
    uint32_t p1 = rmw && q == IQ_STD ? (uint32_t)u.dest_preg : (uint32_t)u.src1_preg, p2 = u.src2_preg;
    bool wait1 = busy[p1] && !woken(p1), wait2 = busy[p2] && !woken(p2);
    for (int j = 0; j < i; j++) if (dis2rob.dis_fire[j] && in_[j].dest_en) { wait1 = wait1 || in_[j].dest_preg == p1; wait2 = wait2 || in_[j].dest_preg == p2; }
    if (rmw && q == IQ_STD) wait1 = !swap; // the store data of a read-modify-write needs the loaded value
    bool dest = q == IQ_INT || q == IQ_LD ? (bool)u.dest_en : q == IQ_STA && amo(u, AmoOp::SC) ? true : false;
    int found = 0;
    for (int w = 0; w < MAX_IQ_DISPATCH_WIDTH; w++) {
      auto &x = dis2iss.req[q][w]; auto &o = x.uop;
      if (!(x.valid && o.rob_idx == r.rob_idx && o.rob_flag == r.rob_flag)) continue;
      found++;
      vc_assert((int)o.op == op, "the micro-operation is the one the queue executes for the instruction");
      vc_assert(o.ftq_idx == u.ftq_idx && o.ftq_offset == u.ftq_offset && o.func3 == u.func3 && o.func7 == u.func7 && o.br_id == u.br_id && o.csr_idx == u.csr_idx && o.br_mask == mask_of(u) && o.dest_preg == u.dest_preg && o.imm == (link ? 4u : (uint32_t)u.imm) &&
                o.src1_is_pc == u.src1_is_pc && o.src2_is_imm == u.src2_is_imm && o.dbg.pc == u.dbg.pc && o.dbg.instruction == u.dbg.instruction, "the micro-operation belongs to its instruction");
      vc_assert(o.stq_idx == r.stq_idx && o.stq_flag == r.stq_flag && o.ldq_idx == r.ldq_idx, "the micro-operation knows its load/store queue entries");
      if (q == IQ_STD) vc_assert(o.is_atomic == (u.type == AMO ? true : (bool)u.is_atomic), "store data of an atomic is marked");
      else vc_assert(o.is_atomic == u.is_atomic, "the micro-operation belongs to its instruction");
      if (q != IQ_STD && q != IQ_STA && q != IQ_BR) vc_assert(o.dest_en == dest, "the micro-operation writes the destination of its instruction");
      if ((q == IQ_STA || q == IQ_STD || q == IQ_BR) && u.type != STORE && u.type != BR) vc_assert(o.dest_en == dest, "only one micro-operation writes the destination");
      vc_assert((bool)o.src1_en == use1 || (q == IQ_STD && rmw), "the first operand is read iff the micro-operation uses it");
      vc_assert(IMPLIES(q != IQ_STD, (bool)o.src2_en == use2), "the second operand is read iff the micro-operation uses it");
      vc_assert(IMPLIES(use1, o.src1_preg == p1), "the first operand is the renamed source");
      vc_assert(IMPLIES(use2, o.src2_preg == p2), "the second operand is the renamed source");
      vc_assert(IMPLIES(use1, (bool)o.src1_busy == wait1), "the first operand waits iff its value is still to be produced");
      vc_assert(IMPLIES(use2, (bool)o.src2_busy == wait2), "the second operand waits iff its value is still to be produced");
    }
    vc_assert(found == 1, "every micro-operation of a dispatched instruction is sent once");
    vc_cover("sent");
  }
}

// Which registers have values still to come.
VC_DRIVER(dis_busy) {
  setup(); uint32_t p = vc_u8("probe") & (PRF_NUM - 1);
  cycle();
  bool made = false;
  for (int i = 0; i < W; i++) made = made || (dis2rob.dis_fire[i] && in_[i].dest_en && in_[i].dest_preg == p);
  vc_assert((bool)D.busy_table[p] == ((busy[p] && !woken(p)) || made), "a register is awaited from the dispatch of its producer until it is announced");
  vc_cover("busy");
}
VC_DRIVER(dis_init) {
  vc_havoc(&D, sizeof D, "dispatch"); connect();
  D.init();
  for (int i = 0; i < W; i++) vc_assert(!D.inst_valid[i], "the stage starts empty");
  for (int p = 0; p < PRF_NUM; p++) vc_assert(!D.busy_table[p], "no register is awaited after reset");
  vc_cover("init");
}
