// Contracts of the fetch queues (front-end/fifo/*.cpp), of the predecoder and of the check of the
// prediction against the decoded instructions.
#include "vc.h"
#include "train_IO.h"
#include <cstring>
uint32_t *p_memory;
static const uint32_t PM = (1u << pcpn_t_BITS) - 1, IM = (1u << tage_idx_t_BITS) - 1, TM = (1u << tage_tag_t_BITS) - 1;
template <class A, class B> static bool meta_eq(const A &a, const B &b) {
  bool r = true;
  for (int i = 0; i < FETCH_WIDTH; i++) {
    r = r & (a.alt_pred[i] == b.alt_pred[i]) & (a.altpcpn[i] == b.altpcpn[i]) & (a.pcpn[i] == b.pcpn[i]) & (a.sc_used[i] == b.sc_used[i]) & (a.sc_pred[i] == b.sc_pred[i]) & (a.sc_sum[i] == b.sc_sum[i]) & (a.loop_used[i] == b.loop_used[i]) & (a.loop_hit[i] == b.loop_hit[i]) & (a.loop_pred[i] == b.loop_pred[i]) & (a.loop_idx[i] == b.loop_idx[i]) & (a.loop_tag[i] == b.loop_tag[i]) & (a.predict_base_pc[i] == b.predict_base_pc[i]);
    for (int j = 0; j < TN_MAX; j++) r = r & (a.tage_idx[i][j] == b.tage_idx[i][j]) & (a.tage_tag[i][j] == b.tage_tag[i][j]);
    for (int j = 0; j < BPU_SCL_META_NTABLE; j++) r = r & (a.sc_idx[i][j] == b.sc_idx[i][j]);
  }
  return r;
}
template <class A> static void meta_mask(A &a) {
  for (int i = 0; i < FETCH_WIDTH; i++) {
    a.altpcpn[i] &= PM; a.pcpn[i] &= PM;
    for (int j = 0; j < TN_MAX; j++) { a.tage_idx[i][j] &= IM; a.tage_tag[i][j] &= TM; }
  }
}
template <class A, class B> static void meta_copy(A &a, const B &b) {
  for (int i = 0; i < FETCH_WIDTH; i++) {
    a.alt_pred[i] = b.alt_pred[i]; a.altpcpn[i] = b.altpcpn[i]; a.pcpn[i] = b.pcpn[i]; a.sc_used[i] = b.sc_used[i]; a.sc_pred[i] = b.sc_pred[i]; a.sc_sum[i] = b.sc_sum[i]; a.loop_used[i] = b.loop_used[i]; a.loop_hit[i] = b.loop_hit[i]; a.loop_pred[i] = b.loop_pred[i]; a.loop_idx[i] = b.loop_idx[i]; a.loop_tag[i] = b.loop_tag[i]; a.predict_base_pc[i] = b.predict_base_pc[i];
    for (int j = 0; j < TN_MAX; j++) { a.tage_idx[i][j] = b.tage_idx[i][j]; a.tage_tag[i][j] = b.tage_tag[i][j]; }
    for (int j = 0; j < BPU_SCL_META_NTABLE; j++) a.sc_idx[i][j] = b.sc_idx[i][j];
  }
}
// One description per queue: its types, how an input becomes an entry, what a reader must see.
struct FA {
  using In = fetch_address_FIFO_in; using Out = fetch_address_FIFO_out; using Rd = fetch_address_FIFO_read_data; using Req = FetchAddrCombOut; using Ent = fetch_addr_t;
  static const int SIZE = FETCH_ADDR_FIFO_SIZE, FULL = FETCH_ADDR_FIFO_SIZE - 1;
  static void seq_read(In *i, Rd *r) { fetch_address_FIFO_seq_read(i, r); }
  static void comb(In *i, Rd *r, Out *o, Rd *n, Req *q) { fetch_address_FIFO_comb_calc(i, r, o, n, q); }
  static void seq_write(Req *q) { fetch_address_FIFO_seq_write(q); }
  static void fix(Ent &) {}
  static Ent entry(const In &i) { return i.fetch_address; }
  static bool eq(const Out &o, const Ent &e) { return o.fetch_address == e; }
  static int valid(const Out &o) { return o.read_valid; }
  static void push(Req &q, const Ent &e) { q.push_en = true; q.push_data = e; }
  static void nodummy(In &) {}
};
struct IF {
  using In = instruction_FIFO_in; using Out = instruction_FIFO_out; using Rd = instruction_FIFO_read_data; using Req = InstructionCombOut; using Ent = instruction_FIFO_entry;
  static const int SIZE = INSTRUCTION_FIFO_SIZE, FULL = INSTRUCTION_FIFO_SIZE;
  static void seq_read(In *i, Rd *r) { instruction_FIFO_seq_read(i, r); }
  static void comb(In *i, Rd *r, Out *o, Rd *n, Req *q) { instruction_FIFO_comb_calc(i, r, o, n, q); }
  static void seq_write(Req *q) { instruction_FIFO_seq_write(q); }
  static void fix(Ent &) {}
  static Ent entry(const In &i) {
    Ent e{};
    for (int k = 0; k < FETCH_WIDTH; k++) { e.instructions[k] = i.fetch_group[k]; e.pc[k] = i.pc[k]; e.page_fault_inst[k] = i.page_fault_inst[k]; e.inst_valid[k] = i.inst_valid[k]; e.predecode_type[k] = i.predecode_type[k]; e.predecode_target_address[k] = i.predecode_target_address[k]; }
    e.seq_next_pc = i.seq_next_pc;
    return e;
  }
  static bool eq(const Out &o, const Ent &e) {
    bool r = o.seq_next_pc == e.seq_next_pc;
    for (int k = 0; k < FETCH_WIDTH; k++) r = r & (o.instructions[k] == e.instructions[k]) & (o.pc[k] == e.pc[k]) & (o.page_fault_inst[k] == e.page_fault_inst[k]) & (o.inst_valid[k] == e.inst_valid[k]) & (o.predecode_type[k] == e.predecode_type[k]) & (o.predecode_target_address[k] == e.predecode_target_address[k]);
    return r;
  }
  static int valid(const Out &o) { return o.FIFO_valid; }
  static void push(Req &q, const Ent &e) { q.push_en = true; q.push_entry = e; }
  static void nodummy(In &) {}
};
struct PT {
  using In = PTAB_in; using Out = PTAB_out; using Rd = PTAB_read_data; using Req = PtabCombOut; using Ent = PTAB_entry;
  static const int SIZE = PTAB_SIZE, FULL = PTAB_SIZE - 1;
  static void seq_read(In *i, Rd *r) { PTAB_seq_read(i, r); }
  static void comb(In *i, Rd *r, Out *o, Rd *n, Req *q) { PTAB_comb_calc(i, r, o, n, q); }
  static void seq_write(Req *q) { PTAB_seq_write(q); }
  static void fix(Ent &e) { meta_mask(e); }
  static Ent entry(const In &i) {
    Ent e{};
    meta_copy(e, i); meta_mask(e);
    for (int k = 0; k < FETCH_WIDTH; k++) e.predict_dir[k] = i.predict_dir[k];
    e.predict_next_fetch_address = i.predict_next_fetch_address;
    return e;
  }
  static bool eq(const Out &o, const Ent &e) {
    bool r = o.predict_next_fetch_address == e.predict_next_fetch_address && o.dummy_entry == e.dummy_entry && meta_eq(o, e);
    for (int k = 0; k < FETCH_WIDTH; k++) r = r & (o.predict_dir[k] == e.predict_dir[k]);
    return r;
  }
  static int valid(const Out &) { return -1; }
  static void push(Req &q, const Ent &e) { q.push_write_en = true; q.push_write_entry = e; }
  static void nodummy(In &i) { i.need_mini_flush = false; }
};
struct FB {
  using In = front2back_FIFO_in; using Out = front2back_FIFO_out; using Rd = front2back_FIFO_read_data; using Req = Front2BackCombOut; using Ent = front2back_FIFO_entry;
  static const int SIZE = FRONT2BACK_FIFO_SIZE, FULL = FRONT2BACK_FIFO_SIZE;
  static void seq_read(In *i, Rd *r) { front2back_FIFO_seq_read(i, r); }
  static void comb(In *i, Rd *r, Out *o, Rd *n, Req *q) { front2back_FIFO_comb_calc(i, r, o, n, q); }
  static void seq_write(Req *q) { front2back_FIFO_seq_write(q); }
  static void fix(Ent &e) { meta_mask(e); }
  static Ent entry(const In &i) {
    Ent e{};
    meta_copy(e, i); meta_mask(e);
    for (int k = 0; k < FETCH_WIDTH; k++) { e.fetch_group[k] = i.fetch_group[k]; e.page_fault_inst[k] = i.page_fault_inst[k]; e.inst_valid[k] = i.inst_valid[k]; e.predict_dir_corrected[k] = i.predict_dir_corrected[k]; }
    e.predict_next_fetch_address_corrected = i.predict_next_fetch_address_corrected;
    return e;
  }
  static bool eq(const Out &o, const Ent &e) {
    bool r = o.predict_next_fetch_address_corrected == e.predict_next_fetch_address_corrected && meta_eq(o, e);
    for (int k = 0; k < FETCH_WIDTH; k++) r = r & (o.fetch_group[k] == e.fetch_group[k]) & (o.page_fault_inst[k] == e.page_fault_inst[k]) & (o.inst_valid[k] == e.inst_valid[k]) & (o.predict_dir_corrected[k] == e.predict_dir_corrected[k]);
    return r;
  }
  static int valid(const Out &o) { return o.front2back_FIFO_valid; }
  static void push(Req &q, const Ent &e) { q.push_en = true; q.push_entry = e; }
  static void nodummy(In &) {}
};
// From any contents, one cycle of arbitrary use; what is left is then read out to the last entry.
template <class X> static void queue_contract() {
  static typename X::Ent e[X::SIZE + 1]; static typename X::In in; static typename X::Out out; static typename X::Rd rd, nrd; static typename X::Req req;
  int n = vc_choose(X::SIZE + 1);
  for (int i = 0; i < n; i++) {
    vc_havoc(&e[i], sizeof e[i], "entry"); X::fix(e[i]);
    memset((void *)&req, 0, sizeof req); X::push(req, e[i]); X::seq_write(&req);
  }
  vc_havoc(&in, sizeof in, "in"); X::nodummy(in);
  bool clr = in.reset || in.refetch, wr = in.write_enable && !in.reset, re = in.read_enable && !in.reset;
  vc_assume(!(wr && !clr && n == X::SIZE));
  int left = clr ? 0 : n; // entries kept
  X::seq_read(&in, &rd);
  X::comb(&in, &rd, &out, &nrd, &req);
  typename X::Ent w = X::entry(in);
  bool got = re && (left > 0 || wr);
  if (X::valid(out) >= 0) vc_assert((X::valid(out) != 0) == got, "read_valid_iff_something_read");
  if (got) {
    if (left > 0) vc_assert(X::eq(out, e[0]), "oldest_entry_is_read"); else vc_assert(X::eq(out, w), "new_entry_is_read_when_queue_was_empty");
  }
  int after = left + wr - got;
  vc_assert(out.full == (after >= X::FULL && !in.reset), "full_flag");
  vc_assert(out.empty == (after == 0), "empty_flag");
  vc_assert(nrd.size == after, "next_size");
  if (after > 0 && nrd.head_valid) {
    // a head announced for a second access in this cycle is the real one
    typename X::Out o2; typename X::Rd r3; typename X::Req q2; static typename X::In i2; memset((void *)&i2, 0, sizeof i2); i2.read_enable = true;
    X::comb(&i2, &nrd, &o2, &r3, &q2);
    if (left > (got ? 1 : 0)) vc_assert(X::eq(o2, e[got ? 1 : 0]), "announced_head"); else vc_assert(X::eq(o2, w), "announced_head_new");
  }
  if (left > 0 && !got) vc_assert(nrd.head_valid, "head_still_known");
  X::seq_write(&req);
  memset((void *)&in, 0, sizeof in); in.read_enable = true;
  int first = got && left > 0 ? 1 : 0;
  for (int i = 0; i < X::SIZE + 1; i++) {
    X::seq_read(&in, &rd);
    int k = first + i; bool old = k < left, neu = !old && i == after - 1 && after > 0 && wr;
    X::comb(&in, &rd, &out, &nrd, &req);
    if (X::valid(out) >= 0) vc_assert((X::valid(out) != 0) == (i < after), "drain_valid");
    vc_assert(rd.size == (i < after ? after - i : 0), "drain_size");
    if (i < after) {
      if (old) vc_assert(X::eq(out, e[k]), "entries_leave_in_order"); else { vc_assert(neu, "drain_new"); vc_assert(X::eq(out, w), "new_entry_leaves_last"); }
    }
    X::seq_write(&req);
  }
  vc_cover("queue");
}
VC_DRIVER(q_fetch) { queue_contract<FA>(); }
VC_DRIVER(q_inst) { queue_contract<IF>(); }
VC_DRIVER(q_ptab) { queue_contract<PT>(); }
VC_DRIVER(q_back) { queue_contract<FB>(); }

// Decoded kind and target of an instruction, written from the encoding tables of the ISA manual.
static int kind(uint32_t i) { return (i & 0x7f) == 0x6f ? PREDECODE_JAL : (i & 0x7f) == 0x63 ? PREDECODE_DIRECT_JUMP_NO_JAL : (i & 0x7f) == 0x67 ? PREDECODE_JALR : PREDECODE_NON_BRANCH; }
static uint32_t jal_off(uint32_t i) { return (uint32_t)((int32_t)(i & 0x80000000u) >> 11) | (i & 0xff000u) | ((i >> 9) & 0x800u) | ((i >> 20) & 0x7feu); }
static uint32_t br_off(uint32_t i) { return (uint32_t)((int32_t)(i & 0x80000000u) >> 19) | ((i << 4) & 0x800u) | ((i >> 20) & 0x7e0u) | ((i >> 7) & 0x1eu); }
VC_DRIVER(predecode_one) {
  predecode_in in{vc_u32("inst"), vc_u32("pc")}; predecode_read_data rd; PredecodeResult r; vc_havoc(&r, sizeof r, "r");
  predecode_seq_read(&in, &rd); predecode_comb(rd, r);
  vc_assert(r.type == kind(in.inst), "kind_of_instruction");
  if (r.type == PREDECODE_JAL) vc_assert(r.target_address == in.pc + jal_off(in.inst), "jump_target");
  if (r.type == PREDECODE_DIRECT_JUMP_NO_JAL) vc_assert(r.target_address == in.pc + br_off(in.inst), "branch_target");
  vc_cover("predecode");
}
VC_DRIVER(checker) {
  predecode_checker_in in; predecode_checker_read_data rd; predecode_checker_out o; vc_havoc(&in, sizeof in, "in"); vc_havoc(&o, sizeof o, "o");
  for (int i = 0; i < FETCH_WIDTH; i++) in.predecode_type[i] &= 3;
  predecode_checker_in c = in;
  predecode_checker_seq_read(&in, &rd); predecode_checker_comb(rd, o);
  uint32_t next = c.seq_next_pc; bool seen = false;
  for (int i = 0; i < FETCH_WIDTH; i++) {
    int t = c.predecode_type[i]; bool taken = t == PREDECODE_JAL || t == PREDECODE_JALR || (t == PREDECODE_DIRECT_JUMP_NO_JAL && c.predict_dir[i]);
    vc_assert(o.predict_dir_corrected[i] == taken, "corrected_direction");
    if (taken && !seen) { next = t == PREDECODE_JALR ? c.predict_next_fetch_address : c.predecode_target_address[i]; seen = true; }
  }
  vc_assert(o.predict_next_fetch_address_corrected == next, "corrected_next_address");
  vc_assert(o.predecode_flush_enable == (next != c.predict_next_fetch_address), "redirect_iff_prediction_wrong");
  vc_cover("checker");
}
