// Contract of the reorder buffer (back-end/Rob.cpp): precise in-order commit.
// One clock cycle in the order the back end calls it.
#include "vc.h"
#include "Rob.h"
#include "SimCpu.h"
#include "util.h"
#include "config.h"
long long sim_time;
static Raw<Rob> g_r;
#define R (g_r.v)
static Raw<SimContext> g_ctx;
static DisRobIO dis; static CsrRobIO csr; static LsuRobIO lsu; static DecBroadcastIO dbc; static ExuRobIO exu; static FtqRobPcRespIO resp; static wire<1> fstall;
static RobDisIO o_dis; static RobCsrIO o_csr; static RobCommitIO o_com; static RobBroadcastIO o_bc; static FtqRobPcReqIO o_req;
static RobStoredEntry E[ROB_BANK_NUM][ROB_LINE_NUM];
static uint32_t deq, enq; static bool deqf, enqf;

static bool window(uint32_t l, uint32_t d, bool df, uint32_t e, bool ef) { return df == ef ? (l >= d && l < e) : (l >= d || l < e); }
static bool ptrs_ok(uint32_t d, bool df, uint32_t e, bool ef) { return d < ROB_LINE_NUM && e < ROB_LINE_NUM && (df == ef ? e >= d : e <= d); }
static uint32_t pc_of(uint32_t idx, uint32_t off) { return vc_uf("ftq_pc", 2, idx, off, 0, 0); }

static void begin() {
  R.stall_cycle = 0;
  R.ctx = &g_ctx.v; g_ctx.v.exit_reason = ExitReason::NONE; g_ctx.v.cpu = nullptr;
  R.in.dis2rob = &dis; R.in.csr2rob = &csr; R.in.lsu2rob = &lsu; R.in.dec_bcast = &dbc; R.in.exu2rob = &exu; R.in.ftq_pc_resp = &resp; R.in.front_stall = &fstall;
  R.out.rob2dis = &o_dis; R.out.rob2csr = &o_csr; R.out.rob_commit = &o_com; R.out.rob_bcast = &o_bc; R.out.ftq_pc_req = &o_req;
  memset(&dis, 0, sizeof dis); memset(&csr, 0, sizeof csr); memset(&lsu, 0, sizeof lsu); memset(&dbc, 0, sizeof dbc); memset(&exu, 0, sizeof exu); memset(&resp, 0, sizeof resp);
  fstall = false;
  vc_havoc(&R.entry, sizeof R.entry, "entry"); vc_havoc(&R.entry_1, sizeof R.entry_1, "entry_1");
  vc_havoc(&o_dis, sizeof o_dis, "o_dis"); vc_havoc(&o_csr, sizeof o_csr, "o_csr"); vc_havoc(&o_com, sizeof o_com, "o_com"); vc_havoc(&o_bc, sizeof o_bc, "o_bc"); vc_havoc(&o_req, sizeof o_req, "o_req");
  R.enq_flag = vc_bool("enq_flag"); R.deq_flag = vc_bool("deq_flag");
  vc_havoc(&R.enq_ptr_1, 1, "e1"); vc_havoc(&R.deq_ptr_1, 1, "d1");
  R.enq_flag_1 = vc_bool("ef1"); R.deq_flag_1 = vc_bool("df1");
}
static void pre() {
  deq = R.deq_ptr; enq = R.enq_ptr; deqf = R.deq_flag; enqf = R.enq_flag;
  vc_assume(ptrs_ok(deq, deqf, enq, enqf));
  for (uint32_t l = 0; l < ROB_LINE_NUM; l++)
    for (int b = 0; b < ROB_BANK_NUM; b++) vc_assume(!R.entry[b][l].valid || window(l, deq, deqf, enq, enqf));
  memcpy(&E, &R.entry, sizeof E);
}
static void cycle() {
  R.comb_begin();
  R.comb_ready();
  R.comb_ftq_pc_req();
  resp.resp[0].valid = o_req.req[0].valid;
  resp.resp[0].pc = o_req.req[0].valid ? pc_of(o_req.req[0].ftq_idx, o_req.req[0].ftq_offset) : vc_u32("no_pc");
  R.comb_commit();
  R.comb_complete();
  R.comb_branch();
  R.comb_fire();
  R.comb_flush();
  R.seq();
}
static void post_inv() {
  vc_assert(ptrs_ok(R.deq_ptr, R.deq_flag, R.enq_ptr, R.enq_flag), "pointers stay consistent");
  uint32_t l = vc_u32("line"), b = vc_u32("bank"); vc_assume(l < ROB_LINE_NUM && b < ROB_BANK_NUM);
  vc_assert(!R.entry[b][l].valid || window(l, R.deq_ptr, R.deq_flag, R.enq_ptr, R.enq_flag), "every live entry lies between head and tail");
}
static bool pf(const RobStoredInst &u) { return u.page_fault_inst || u.page_fault_load || u.page_fault_store; }
static bool trap(const RobStoredInst &u) { return pf(u) || u.illegal_inst || u.type == ECALL; }
static bool flushes(const RobStoredInst &u) { return trap(u) || u.flush_pipe || u.type == CSR || u.type == MRET || u.type == SRET || u.type == SFENCE_VMA || u.type == FENCE_I || u.type == EBREAK; }
static bool fence(const RobStoredInst &u) { return u.type == FENCE || u.type == FENCE_I || u.type == SFENCE_VMA; }
static bool complete(const RobStoredInst &u) { return u.cplt_mask == u.expect_mask; }
#define SAME(f) c.f == e.f
static bool payload(const RobCommitIO::RobCommitInst &c, const RobStoredInst &e) {
  return SAME(diag_val) && SAME(dest_areg) && SAME(dest_preg) && SAME(old_dest_preg) && SAME(ftq_idx) && SAME(ftq_offset) && SAME(ftq_is_last) && SAME(mispred) && SAME(br_taken) &&
         SAME(dest_en) && SAME(func7) && SAME(rob_idx) && SAME(rob_flag) && SAME(stq_idx) && SAME(stq_flag) && SAME(page_fault_inst) && SAME(page_fault_load) && SAME(page_fault_store) &&
         SAME(illegal_inst) && SAME(is_ret) && SAME(type) && SAME(flush_pipe) && SAME(dbg.pc) && SAME(dbg.instruction) && SAME(tma.mem_commit_is_load) && SAME(tma.mem_commit_is_store);
}
static bool same_uop(const RobStoredInst &c, const RobStoredInst &e) {
  return SAME(diag_val) && SAME(dest_areg) && SAME(dest_preg) && SAME(old_dest_preg) && SAME(ftq_idx) && SAME(ftq_offset) && SAME(ftq_is_last) && SAME(mispred) && SAME(br_taken) &&
         SAME(dest_en) && SAME(func7) && SAME(rob_idx) && SAME(rob_flag) && SAME(stq_idx) && SAME(stq_flag) && SAME(page_fault_inst) && SAME(page_fault_load) && SAME(page_fault_store) &&
         SAME(illegal_inst) && SAME(is_ret) && SAME(type) && SAME(flush_pipe) && SAME(dbg.pc) && SAME(dbg.instruction) && SAME(tma.mem_commit_is_load) && SAME(tma.mem_commit_is_store) &&
         SAME(expect_mask) && SAME(cplt_mask);
}

VC_DRIVER(rob_commit) {
  begin();
  R.deq_ptr = vc_choose(ROB_LINE_NUM); R.enq_ptr = vc_u8("enq");
  pre();
  csr.interrupt_req = vc_bool("irq"); lsu.committed_store_pending = vc_bool("stores"); fstall = vc_bool("front_stall"); dbc.mispred = false;
  const RobStoredEntry *H[2] = {&E[0][deq], &E[1][deq]};
  for (int i = 0; i < 2; i++) {
    vc_assume(H[i]->uop.type <= FP);
    // decode marks a faulting or illegal fetch as an otherwise inert instruction
    vc_assume(!(H[i]->uop.page_fault_inst || H[i]->uop.illegal_inst) || (H[i]->uop.type != ECALL && H[i]->uop.type != MRET && H[i]->uop.type != SRET));
    vc_assume(!(H[i]->uop.page_fault_load || H[i]->uop.page_fault_store) || H[i]->uop.type == LOAD || H[i]->uop.type == STORE || H[i]->uop.type == AMO);
    vc_assume(!(H[i]->uop.page_fault_inst && (H[i]->uop.illegal_inst)));
  }
  vc_cover("a cycle without a misprediction");
  cycle();
  bool empty = deq == enq && deqf == enqf, full = deq == enq && deqf != enqf, some = false, complete_h = false, irq = o_csr.interrupt_resp;
  int hd = H[0]->valid ? 0 : 1; bool hv = H[hd]->valid;
  bool c[2] = {(bool)o_com.commit_entry[0].valid, (bool)o_com.commit_entry[1].valid};
  const RobStoredInst &h = H[hd]->uop;
  vc_assert(o_dis.ready == !full && o_dis.empty == empty && o_dis.enq_idx == enq && o_dis.rob_flag == enqf, "free space and tail as seen by dispatch");
  vc_assert(o_bc.head_valid == hv && (!hv || o_bc.head_rob_idx == deq * 2 + hd), "oldest instruction is broadcast");
  bool inc = (H[0]->valid && !complete(H[0]->uop)) || (H[1]->valid && !complete(H[1]->uop));
  vc_assert(o_bc.head_incomplete_valid == inc && (!inc || o_bc.head_incomplete_rob_idx == deq * 2 + (H[0]->valid && !complete(H[0]->uop) ? 0 : 1)), "oldest unfinished instruction of the head line is broadcast");
  for (int i = 0; i < 2; i++) {
    vc_assert(!c[i] || H[i]->valid, "only live instructions commit");
    vc_assert(!c[i] || payload(o_com.commit_entry[i].uop, H[i]->uop), "an instruction commits what was recorded for it");
    vc_assert(!c[i] || irq || complete(H[i]->uop), "only finished instructions commit");
    vc_assert(!c[i] || !(flushes(H[i]->uop) || irq) || !c[1 - i], "a trapping, serialising or interrupted instruction commits alone");
    vc_assert(!c[i] || irq || !fence(H[i]->uop) || !lsu.committed_store_pending, "a fence does not commit before older stores are visible");
    some = some || c[i];
  }
  vc_assert(!c[1] || !H[0]->valid || c[0], "commit in program order");
  vc_assert(!c[1] || irq || !fence(H[1]->uop) || !c[0], "a fence does not commit together with an older instruction");
  vc_assert(!irq || (csr.interrupt_req && hv && c[hd]), "an interrupt is taken only when requested, at the oldest instruction");
  vc_assert(!some || irq || !csr.interrupt_req, "a requested interrupt pre-empts commit");
  vc_assert(o_bc.interrupt == irq, "interrupt broadcast");
  vc_assert(!hv || !csr.interrupt_req || irq, "a requested interrupt is taken");
  vc_assert(!(hv && complete(h) && !csr.interrupt_req && !fstall && !(fence(h) && lsu.committed_store_pending)) || c[hd], "a finished oldest instruction commits");
  // events
  bool k = some && !irq; RobStoredInst u; memcpy(&u, &h, sizeof u);
  bool fl = irq || (k && flushes(u)), t = u.page_fault_store || u.page_fault_load || u.page_fault_inst || u.illegal_inst; uint32_t pc = pc_of(u.ftq_idx, u.ftq_offset);
  vc_assert(o_bc.flush == fl, "the pipeline is flushed exactly at a flushing instruction");
  vc_assert(o_bc.exception == (irq || (k && trap(u))), "exception is signalled exactly at a trap");
  vc_assert(!fl || o_bc.pc == pc, "the event carries the pc of the committing instruction");
  vc_assert(o_bc.ecall == (k && u.type == ECALL) && o_bc.mret == (k && u.type == MRET) && o_bc.sret == (k && u.type == SRET), "ecall, mret, sret");
  bool ps = k && u.page_fault_store, pl = k && !u.page_fault_store && u.page_fault_load, pi = k && !u.page_fault_store && !u.page_fault_load && u.page_fault_inst;
  vc_assert(o_bc.page_fault_store == ps && o_bc.page_fault_load == pl && o_bc.page_fault_inst == pi && o_bc.illegal_inst == (k && u.illegal_inst && !pf(u)), "one cause is reported");
  vc_assert(!(k && t) || o_bc.trap_val == (pi ? pc : u.diag_val), "trap value");
  vc_assert(o_csr.commit == (k && u.type == CSR && !t), "CSR writes take effect at commit");
  vc_assert(o_bc.fence == (k && u.type == SFENCE_VMA && !t) && o_bc.fence_i == (k && u.type == FENCE_I && !t), "fences are broadcast at commit");
  vc_assert(!(k && !t && u.type == EBREAK) || g_ctx.v.exit_reason == ExitReason::EBREAK, "ebreak stops the run");
  vc_assert(!(k && !t && u.type == WFI && !u.flush_pipe && c[hd]) || g_ctx.v.exit_reason == ExitReason::WFI, "wfi stops the run");
  vc_assert(g_ctx.v.exit_reason == ExitReason::NONE || (k && (u.type == EBREAK || u.type == WFI)), "nothing else stops the run");
  // state
  uint32_t l = vc_u32("l"), b = vc_u32("b"); vc_assume(l < ROB_LINE_NUM && b < 2);
  bool live = E[b][l].valid && !(l == deq && c[b]) && !fl;
  vc_assert(R.entry[b][l].valid == live, "exactly the committed or flushed entries leave");
  vc_assert(!live || same_uop(R.entry[b][l].uop, E[b][l].uop), "waiting entries are unchanged");
  if (!fl) {
    bool drained = !((H[0]->valid && !c[0]) || (H[1]->valid && !c[1])), adv = !empty && drained && (some || !hv);
    vc_assert(R.enq_ptr == enq && R.enq_flag == enqf, "tail unchanged");
    vc_assert(R.deq_ptr == (adv ? (deq + 1) % ROB_LINE_NUM : deq) && R.deq_flag == (adv && deq == ROB_LINE_NUM - 1 ? !deqf : deqf), "head moves over drained lines only");
  } else vc_assert(R.deq_ptr == R.enq_ptr && R.deq_flag == R.enq_flag, "empty after a flush");
  post_inv();
}

VC_DRIVER(rob_branch) {
  begin();
  uint32_t rl = vc_u32("rl"), rb = vc_u32("rb"), l = vc_choose(ROB_LINE_NUM), b = vc_choose(2);
  vc_assume(rl < ROB_LINE_NUM && rb < 2);
  R.deq_ptr = vc_u8("deq"); R.enq_ptr = vc_u8("enq");
  pre();
  csr.interrupt_req = vc_bool("irq"); lsu.committed_store_pending = vc_bool("stores"); fstall = vc_bool("front_stall");
  dbc.mispred = true; dbc.redirect_rob_idx = rl * 2 + rb; 
  vc_assume(E[rb][rl].valid);
  vc_cover("a misprediction");
  cycle();
  vc_assert(!o_com.commit_entry[0].valid && !o_com.commit_entry[1].valid && !o_bc.flush && !o_csr.interrupt_resp && !o_csr.commit && !o_bc.interrupt, "nothing commits in the cycle of a misprediction");
  uint32_t age = (l - deq) % ROB_LINE_NUM * 2 + b, rage = (rl - deq) % ROB_LINE_NUM * 2 + rb;
  vc_assert(R.entry[b][l].valid == (E[b][l].valid && age <= rage), "exactly the instructions younger than the branch leave");
  if (E[b][l].valid && age <= rage) {
    bool br = l == rl && b == rb; RobStoredInst x; memcpy(&x, &E[b][l].uop, sizeof x);
    if (br) x.ftq_is_last = true;
    vc_assert(same_uop(R.entry[b][l].uop, x), "older instructions are unchanged; the branch ends its fetch block");
  }
  vc_assert(R.deq_ptr == deq && R.deq_flag == deqf, "head unchanged");
  vc_assert(R.enq_ptr == (rl + 1) % ROB_LINE_NUM, "tail follows the branch");
  vc_assert(ptrs_ok(R.deq_ptr, R.deq_flag, R.enq_ptr, R.enq_flag), "pointers stay consistent");
  vc_assert(!R.entry[b][l].valid || window(l, R.deq_ptr, R.deq_flag, R.enq_ptr, R.enq_flag), "every live entry lies between head and tail");
}

VC_DRIVER(rob_enqueue) {
  begin();
  R.deq_ptr = vc_u8("deq"); R.enq_ptr = vc_choose(ROB_LINE_NUM);
  pre();
  bool ready = !(deq == enq && deqf != enqf);
  for (int i = 0; i < 2; i++) { vc_havoc(&dis.uop[i], sizeof dis.uop[i], "uop"); dis.dis_fire[i] = vc_bool("fire") && ready; dis.valid[i] = vc_bool("valid"); }
  // nothing is committable in this driver: the enqueue is seen alone
  for (int b = 0; b < 2; b++) for (int l = 0; l < ROB_LINE_NUM; l++) vc_assume(!R.entry[b][l].valid || !complete(R.entry[b][l].uop));
  memcpy(&E, &R.entry, sizeof E);
  bool any = dis.dis_fire[0] || dis.dis_fire[1];
  vc_cover("an enqueue");
  R.comb_begin(); R.comb_ready(); o_bc.flush = false; R.comb_branch(); R.comb_fire(); R.comb_flush(); R.seq();
  for (uint32_t b = 0; b < 2; b++) {
    const RobStoredEntry &n = R.entry[b][enq]; const auto &e = dis.uop[b]; const RobStoredInst &c = n.uop;
    if (!ready) continue;
    vc_assert(n.valid == dis.dis_fire[b], "a dispatched instruction occupies its slot");
    vc_assert(!dis.dis_fire[b] || (SAME(diag_val) && SAME(dest_areg) && SAME(dest_preg) && SAME(old_dest_preg) && SAME(ftq_idx) && SAME(ftq_offset) && SAME(ftq_is_last) && SAME(mispred) && SAME(br_taken) &&
      SAME(dest_en) && SAME(func3) && SAME(func7) && SAME(rob_idx) && SAME(rob_flag) && SAME(stq_idx) && SAME(stq_flag) && SAME(page_fault_inst) && SAME(illegal_inst) && SAME(is_ret) && SAME(type) &&
      SAME(flush_pipe) && SAME(dbg.pc) && SAME(dbg.instruction) && SAME(tma.mem_commit_is_load) && SAME(tma.mem_commit_is_store) && SAME(expect_mask)), "with everything dispatch recorded");
    vc_assert(!dis.dis_fire[b] || (c.cplt_mask == 0 && !c.page_fault_load && !c.page_fault_store), "and not yet finished");
  }
  uint32_t l = vc_u32("l"), b = vc_u32("b"); vc_assume(l < ROB_LINE_NUM && b < 2);
  vc_assert((l == enq && ready) || (R.entry[b][l].valid == E[b][l].valid && (!E[b][l].valid || same_uop(R.entry[b][l].uop, E[b][l].uop))), "other entries unchanged");
  vc_assert(R.deq_ptr == deq && R.deq_flag == deqf, "head unchanged");
  vc_assert(R.enq_ptr == (any ? (enq + 1) % ROB_LINE_NUM : enq) && R.enq_flag == (any && enq == ROB_LINE_NUM - 1 ? !enqf : enqf), "tail moves by one line");
  post_inv();
}

static bool ld_port(int i) { return i >= IQ_LD_PORT_BASE && i < IQ_LD_PORT_BASE + LSU_LDU_COUNT; }
static bool sta_port(int i) { return i >= IQ_STA_PORT_BASE && i < IQ_STA_PORT_BASE + LSU_STA_COUNT; }
static bool std_port(int i) { return i >= IQ_STD_PORT_BASE && i < IQ_STD_PORT_BASE + LSU_SDU_COUNT; }
VC_DRIVER(rob_complete) {
  begin();
  R.deq_ptr = vc_u8("deq"); R.enq_ptr = vc_u8("enq");
  pre();
  vc_havoc(&exu, sizeof exu, "exu");
  uint32_t bank = vc_choose(2), line = vc_choose(ROB_LINE_NUM), idx = line * 2 + bank;
  const RobStoredInst &o = E[bank][line].uop;
  uint32_t bits = 0, n_addr = 0, n_br = 0, val = 0; bool pl = false, ps = false, fl = false, mis = false, tk = false;
  for (int i = 0; i < ISSUE_WIDTH; i++) {
    auto &x = exu.entry[i]; uint32_t g = ld_port(i) || !(sta_port(i) || std_port(i) || (i >= IQ_BR_PORT_BASE && i < IQ_BR_PORT_BASE + BRU_NUM)) ? 1 : std_port(i) ? 4 : 2;
    vc_assume(x.uop.rob_idx < ROB_NUM && x.uop.op < MAX_UOP_TYPE);
    vc_assume(!x.uop.page_fault_inst);
    bool hit = x.valid && x.uop.rob_idx == idx;
    vc_assume(!hit || !(bits & g)); // one result per uop
    vc_assume(!hit || !(o.cplt_mask & g));
    vc_assume(!hit || !(x.uop.op == UOP_BR || x.uop.op == UOP_JUMP) || !(ld_port(i) || sta_port(i) || std_port(i)));
    if (!hit) continue;
    bits |= g; fl = fl || x.uop.flush_pipe;
    bool br = x.uop.op == UOP_BR || x.uop.op == UOP_JUMP;
    if (ld_port(i) || sta_port(i)) { n_addr++; bool f = x.uop.page_fault_load || x.uop.page_fault_store; val = f ? x.uop.result : x.uop.diag_val; pl = pl || x.uop.page_fault_load; ps = ps || x.uop.page_fault_store; }
    if (br) { n_addr++; n_br++; val = x.uop.diag_val; mis = x.uop.mispred; tk = x.uop.br_taken; }
  }
  vc_cover("results arrive");
  R.comb_begin(); R.comb_complete(); R.seq();
  const RobStoredInst &c = R.entry[bank][line].uop, &e = o;
  vc_assert(R.entry[bank][line].valid == E[bank][line].valid, "completion neither adds nor removes instructions");
  vc_assert(c.cplt_mask == (o.cplt_mask | bits), "a finished part is recorded for its instruction only");
  vc_assert(c.page_fault_store == (o.page_fault_store || ps) && (c.page_fault_store || c.page_fault_load == (o.page_fault_load || pl)) && c.page_fault_inst == o.page_fault_inst, "faults are recorded");
  vc_assert(n_addr > 1 || c.diag_val == (n_addr ? val : o.diag_val), "faulting address or resolved target is recorded");
  vc_assert(c.flush_pipe == (o.flush_pipe || fl), "a flush request is kept");
  vc_assert(n_br > 1 || (n_br ? (c.mispred == mis && c.br_taken == tk) : (c.mispred == o.mispred && c.br_taken == o.br_taken)), "branch outcome");
  vc_assert(SAME(dest_areg) && SAME(dest_preg) && SAME(old_dest_preg) && SAME(ftq_idx) && SAME(ftq_offset) && SAME(ftq_is_last) && SAME(dest_en) && SAME(func7) && SAME(rob_idx) && SAME(rob_flag) &&
    SAME(stq_idx) && SAME(stq_flag) && SAME(illegal_inst) && SAME(type) && SAME(expect_mask) && SAME(dbg.pc) && SAME(dbg.instruction) && SAME(tma.mem_commit_is_load) && SAME(tma.mem_commit_is_store), "the rest is unchanged");
  vc_assert(R.deq_ptr == deq && R.deq_flag == deqf && R.enq_ptr == enq && R.enq_flag == enqf, "pointers unchanged");
}
VC_DRIVER(rob_init) {
  begin(); R.deq_ptr = vc_u8("d"); R.enq_ptr = vc_u8("e");
  vc_cover("reset");
  R.init();
  vc_assert(R.deq_ptr == R.enq_ptr && R.deq_flag == R.enq_flag, "empty after reset");
  post_inv();
}
