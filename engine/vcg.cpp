// Verification condition generator over LLVM IR.
//
// Input: one LLVM module containing the real code of /repo plus a contract
// driver (C++ in /verif/specs).  The driver is executed symbolically with
// state merging at every control-flow join; every loop is unrolled until the
// back edge is infeasible; calls listed with vc_replace() are replaced by the
// contract stub given there.  Every vc_assert, array bound, division, shift,
// unreachable and no-throw condition becomes one obligation, which is
// discharged by bit-blasting to CNF and an external SAT solver (cadical).
#include "blast.h"
#include "expr.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include <chrono>
#include <cmath>
#include <cstring>
#include <functional>
#include <memory>
#include <set>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <z3.h>

using namespace llvm;
typedef std::string str;

[[noreturn]] static void die(const str &m) { fprintf(stderr, "vcg: error: %s\n", m.c_str()); exit(3); }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static Module *M;
static const DataLayout *DL;
static int verbose = 0;

// ---------------------------------------------------------------- memory
static const int PG = 64;
struct Slot { E *e; uint32_t idx; uint32_t base; bool operator==(const Slot &o) const { return e == o.e && idx == o.idx && base == o.base; } };
struct Page { Slot s[PG]; };
struct Obj { std::vector<std::shared_ptr<Page>> pages; E *arr = nullptr; };
struct Chunk { std::shared_ptr<Obj> o[64]; };
struct ObjInfo {
  str name; uint64_t size; enum K { NUL, STACK, GLOBAL, HEAP, FUNC } kind; uint32_t base = 0;
  Function *fn = nullptr; GlobalVariable *gv = nullptr; unsigned elem = 0;
};
static std::vector<ObjInfo> infos;
struct Leaf { uint32_t off, len; bool isBool; str path; };
struct BaseCell { E *v; uint32_t len; };
struct Base { str name; bool fresh; std::map<uint32_t, BaseCell> cells; std::shared_ptr<std::vector<Leaf>> layout; uint32_t layoutOff = 0; };
static std::vector<Base> bases(1);
static std::map<GlobalValue *, uint32_t> gvObj;

struct Path { std::shared_ptr<Path> parent; E *cond; int depth; };
typedef std::shared_ptr<Path> PathP;

struct State {
  PathP path;
  bool dead = false;
  std::vector<std::shared_ptr<Chunk>> ch;
};

struct Val { E *s = nullptr; std::shared_ptr<std::vector<Val>> agg; Val() {} Val(E *e) : s(e) {} };

struct Obligation { str name, kind, loc; E *path; E *cond; str status; double t = 0; str backend; size_t gates = 0; std::vector<int> choices; };
static std::vector<int> choices, choiceN; static size_t choicePos; // values taken by vc_choose in this run
static bool splitChoice(size_t pos);
static std::vector<Obligation> obls;
struct Cover { str name; E *path; str status; };
static std::vector<Cover> covers;
static std::map<Function *, Function *> replaced;
static std::set<str> usedFns, replacedFns, externFns, assumedNotes;
static std::map<str, int> nameCount;
static uint64_t nTriv = 0, nInstr = 0;
static bool allowExit = false;

static std::unordered_map<uint64_t, E *> dummy;
static E *pathConj(const PathP &p) {
  std::vector<E *> v;
  for (Path *q = p.get(); q; q = q->parent.get()) v.push_back(q->cond);
  E *r = mkTrue();
  for (size_t i = v.size(); i-- > 0;) r = mkAnd(r, v[i]);
  return r;
}
static E *negOf(E *c) { return mkNot(c); }
// simplify a 1-bit condition using facts on the path
static E *factLookup(const PathP &p, E *c) {
  if (isC(c)) return c;
  E *n = negOf(c);
  E *base = c, *k = nullptr; bool eq = false;
  if (c->op == EQ && isC(c->b)) { eq = true; base = c->a; k = c->b; }
  uint64_t lo = 0, hi = 0; bool ult = false;
  if (c->op == ULT && isC(c->b)) { ult = true; lo = 0; hi = c->b->k; }
  (void)lo;
  int cnt = 0;
  for (Path *q = p.get(); q && cnt < 4000; q = q->parent.get(), cnt++) {
    E *f = q->cond;
    if (f == c) return mkTrue();
    if (f == n) return mkFalse();
    if (eq && f->op == EQ && f->a == base && isC(f->b)) return mkConst(1, f->b == k);
    if (eq && f->op == ULT && f->a == base && isC(f->b) && k->k >= f->b->k) return mkFalse();
    if (ult && f->op == EQ && f->a == c->a && isC(f->b)) return mkConst(1, f->b->k < hi);
    if (ult && f->op == ULT && f->a == c->a && isC(f->b) && f->b->k <= hi) return mkTrue();
  }
  return c;
}
static E *simpUnder(const PathP &p, E *c, int depth = 3) {
  if (isC(c)) return c;
  E *r = factLookup(p, c);
  if (isC(r) || depth == 0) return r;
  if (c->w == 1 && c->op == AND) { E *a = simpUnder(p, c->a, depth - 1), *b = simpUnder(p, c->b, depth - 1); if (a != c->a || b != c->b) return mkAnd(a, b); }
  else if (c->w == 1 && c->op == OR) { E *a = simpUnder(p, c->a, depth - 1), *b = simpUnder(p, c->b, depth - 1); if (a != c->a || b != c->b) return mkOr(a, b); }
  else if (c->w == 1 && c->op == XOR && isC(c->b, 1)) { E *a = simpUnder(p, c->a, depth - 1); if (a != c->a) return mkNot(a); }
  return c;
}
static void addCond(State &st, E *c) {
  if (st.dead) return;
  if (isT(c)) return;
  if (isF(c)) { st.dead = true; return; }
  if (c->op == AND) { addCond(st, c->a); addCond(st, c->b); return; }
  E *r = factLookup(st.path, c);
  if (isT(r)) return;
  if (isF(r)) { st.dead = true; return; }
  auto p = std::make_shared<Path>();
  p->parent = st.path; p->cond = c; p->depth = st.path ? st.path->depth + 1 : 1;
  st.path = p;
}

// ------------------------------------------------------- z3 feasibility
static Z3_context zc; static Z3_solver zs;
static std::unordered_map<E *, Z3_ast> zmemo;
static std::unordered_map<uint64_t, Z3_func_decl> zuf;
static uint64_t nFeas = 0; static double tFeas = 0;
static Z3_ast zt(E *root) {
  std::vector<std::pair<E *, bool>> stk{{root, false}};
  while (!stk.empty()) {
    auto [e, done] = stk.back(); stk.pop_back();
    if (zmemo.count(e)) continue;
    if (!done) {
      stk.push_back({e, true});
      for (E *x : {e->a, e->b, e->c}) if (x) stk.push_back({x, false});
      if (e->args) for (E *x : *e->args) stk.push_back({x, false});
      continue;
    }
    Z3_ast r = nullptr;
    auto A = [&] { return zmemo[e->a]; }; auto B = [&] { return zmemo[e->b]; }; auto C = [&] { return zmemo[e->c]; };
    Z3_sort s = Z3_mk_bv_sort(zc, e->w);
    Z3_ast one = Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1)), zero = Z3_mk_unsigned_int64(zc, 0, Z3_mk_bv_sort(zc, 1));
    switch (e->op) {
    case CONST: r = Z3_mk_unsigned_int64(zc, e->k, s); break;
    case PTR: r = Z3_mk_unsigned_int64(zc, e->k << 40, s); break;
    case VAR: { str n = "v" + std::to_string(e->k); r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, n.c_str()), s); break; }
    case UF: {
      auto &fd = zuf[e->k]; std::vector<Z3_ast> as; std::vector<Z3_sort> ss;
      for (E *x : *e->args) { as.push_back(zmemo[x]); ss.push_back(Z3_mk_bv_sort(zc, x->w)); }
      if (!fd) { str n = "uf" + std::to_string(e->k); fd = Z3_mk_func_decl(zc, Z3_mk_string_symbol(zc, n.c_str()), ss.size(), ss.data(), s); Z3_inc_ref(zc, Z3_func_decl_to_ast(zc, fd)); }
      r = Z3_mk_app(zc, fd, as.size(), as.data()); break; }
    case ADD: r = Z3_mk_bvadd(zc, A(), B()); break; case SUB: r = Z3_mk_bvsub(zc, A(), B()); break;
    case MUL: r = Z3_mk_bvmul(zc, A(), B()); break; case UDIV: r = Z3_mk_bvudiv(zc, A(), B()); break;
    case UREM: r = Z3_mk_bvurem(zc, A(), B()); break; case SDIV: r = Z3_mk_bvsdiv(zc, A(), B()); break;
    case SREM: r = Z3_mk_bvsrem(zc, A(), B()); break; case AND: r = Z3_mk_bvand(zc, A(), B()); break;
    case OR: r = Z3_mk_bvor(zc, A(), B()); break; case XOR: r = Z3_mk_bvxor(zc, A(), B()); break;
    case SHL: r = Z3_mk_bvshl(zc, A(), B()); break; case LSHR: r = Z3_mk_bvlshr(zc, A(), B()); break;
    case ASHR: r = Z3_mk_bvashr(zc, A(), B()); break; case CONCAT: r = Z3_mk_concat(zc, A(), B()); break;
    case EXTRACT: r = Z3_mk_extract(zc, e->k >> 8, e->k & 0xff, A()); break;
    case ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->a->w, A()); break; case SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, A()); break;
    case ITE: r = Z3_mk_ite(zc, Z3_mk_eq(zc, A(), one), B(), C()); break;
    case EQ: r = Z3_mk_ite(zc, Z3_mk_eq(zc, A(), B()), one, zero); break;
    case ULT: r = Z3_mk_ite(zc, Z3_mk_bvult(zc, A(), B()), one, zero); break;
    case SLT: r = Z3_mk_ite(zc, Z3_mk_bvslt(zc, A(), B()), one, zero); break;
    default: die("zt array");
    }
    Z3_inc_ref(zc, r);
    zmemo[e] = r;
  }
  return zmemo[root];
}
static std::unordered_map<const BasicBlock *, bool> slowLoop;
static bool loopQueries = true;
static bool feasible(const PathP &p, E *c) {
  if (isF(c)) return false;
  double t0 = now();
  if (!zc) {
    Z3_config cfg = Z3_mk_config(); zc = Z3_mk_context_rc(cfg);
    zs = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_UFBV")); Z3_solver_inc_ref(zc, zs);
    Z3_params ps = Z3_mk_params(zc); Z3_params_inc_ref(zc, ps); Z3_params_set_uint(zc, ps, Z3_mk_string_symbol(zc, "timeout"), 3000); Z3_solver_set_params(zc, zs, ps);
  }
  nFeas++;
  Z3_solver_push(zc, zs);
  Z3_ast one = Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1));
  for (Path *q = p.get(); q; q = q->parent.get()) Z3_solver_assert(zc, zs, Z3_mk_eq(zc, zt(q->cond), one));
  Z3_solver_assert(zc, zs, Z3_mk_eq(zc, zt(c), one));
  Z3_lbool r = Z3_solver_check(zc, zs);
  Z3_solver_pop(zc, zs, 1);
  tFeas += now() - t0;
  return r != Z3_L_FALSE;
}

// ------------------------------------------------------------- bases
static uint32_t newBase(const str &name, bool fresh) { bases.push_back(Base{name, fresh, {}, nullptr, 0}); return bases.size() - 1; }
static E *baseByteCover(Base &b, uint32_t off, uint32_t n, bool isBool);
static E *baseLoad(uint32_t id, uint32_t off, uint32_t n, bool boolHint) {
  Base &b = bases[id];
  auto it = b.cells.find(off);
  if (it != b.cells.end() && it->second.len == n) return it->second.v;
  return baseByteCover(b, off, n, boolHint);
}
static E *mkCell(Base &b, uint32_t off, uint32_t len, bool isBool) {
  E *v;
  if (isBool) v = mkZext(mkVar(1, b.name, off, len, b.fresh), 8 * len);
  else v = mkVar(8 * len, b.name, off, len, b.fresh);
  b.cells[off] = {v, len};
  return v;
}
static const Leaf *findLeaf(Base &b, uint32_t off) {
  if (!b.layout) return nullptr;
  uint32_t o = off + b.layoutOff;
  auto &L = *b.layout;
  size_t lo = 0, hi = L.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (L[m].off <= o) lo = m + 1; else hi = m; }
  if (lo == 0) return nullptr;
  const Leaf &l = L[lo - 1];
  if (o < l.off + l.len) return &l;
  return nullptr;
}
static E *baseByteCover(Base &b, uint32_t off, uint32_t n, bool isBool) {
  if (const Leaf *l = findLeaf(b, off)) {
    uint32_t lo = l->off - b.layoutOff;
    if (l->len <= 8 && !b.cells.count(lo)) mkCell(b, lo, l->len, l->isBool);
  }
  auto ov = [&](uint32_t o) -> std::map<uint32_t, BaseCell>::iterator {
    auto it = b.cells.upper_bound(o);
    if (it == b.cells.begin()) return b.cells.end();
    --it;
    if (o < it->first + it->second.len) return it;
    return b.cells.end();
  };
  auto it = b.cells.find(off);
  if (it != b.cells.end() && it->second.len == n) return it->second.v;
  bool any = false;
  if (b.layout) any = n > 1 && findLeaf(b, off) != nullptr;
  for (uint32_t i = 0; i < n && !any; i++) {
    if (ov(off + i) != b.cells.end()) any = true;
  }
  if (!any) return mkCell(b, off, n, isBool && n == 1);
  E *r = nullptr;
  for (uint32_t i = 0; i < n;) {
    if (const Leaf *l = findLeaf(b, off + i)) { uint32_t lo = l->off - b.layoutOff; if (l->len <= 8 && !b.cells.count(lo) && ov(off + i) == b.cells.end()) mkCell(b, lo, l->len, l->isBool); }
    auto c = ov(off + i);
    E *p; uint32_t adv;
    if (c == b.cells.end()) { p = mkCell(b, off + i, 1, false); adv = 1; }
    else {
      uint32_t s = off + i - c->first; adv = std::min(c->second.len - s, n - i);
      p = mkExtract(c->second.v, 8 * (s + adv) - 1, 8 * s);
    }
    r = r ? mkConcat(p, r) : p;
    i += adv;
  }
  return r;
}
// extent of the natural cell starting at base offset (0 when unknown)
static uint32_t baseExtent(uint32_t id, uint32_t off) {
  Base &b = bases[id];
  auto it = b.cells.find(off);
  if (it != b.cells.end()) return it->second.len;
  if (const Leaf *l = findLeaf(b, off)) if (l->off - b.layoutOff == off && l->len <= 8) return l->len;
  return 0;
}

static E *slotsLoad(const Slot *s, uint32_t n, bool boolHint = false) {
  if (n > 8) die("load wider than 8 bytes");
  // single expression?
  if (s[0].e) {
    bool same = true;
    for (uint32_t i = 1; i < n && same; i++) same = s[i].e == s[0].e && s[i].idx == s[0].idx + i;
    if (same) { E *e = s[0].e; if (s[0].idx == 0 && e->w == 8 * n) return e; return mkExtract(e, 8 * (s[0].idx + n) - 1, 8 * s[0].idx); }
  } else {
    bool same = true;
    for (uint32_t i = 1; i < n && same; i++) same = !s[i].e && s[i].base == s[0].base && s[i].idx == s[0].idx + i;
    if (same) return baseLoad(s[0].base, s[0].idx, n, boolHint);
  }
  E *r = nullptr;
  for (uint32_t i = 0; i < n;) {
    uint32_t j = i + 1; E *p;
    if (s[i].e) { while (j < n && s[j].e == s[i].e && s[j].idx == s[i].idx + (j - i)) j++; p = mkExtract(s[i].e, 8 * (s[i].idx + (j - i)) - 1, 8 * s[i].idx); }
    else { while (j < n && !s[j].e && s[j].base == s[i].base && s[j].idx == s[i].idx + (j - i)) j++; p = baseLoad(s[i].base, s[i].idx, j - i, false); }
    r = r ? mkConcat(p, r) : p; i = j;
  }
  return r;
}
static uint32_t slotExtent(const Slot *s, uint32_t maxn) {
  uint32_t n;
  if (s[0].e) {
    if (s[0].idx != 0) return 0;
    n = s[0].e->w / 8;
    if (n > maxn) return 0;
    for (uint32_t i = 1; i < n; i++) if (s[i].e != s[0].e || s[i].idx != i) return 0;
    return n;
  }
  n = baseExtent(s[0].base, s[0].idx);
  if (n > maxn) return 0;
  for (uint32_t i = 1; i < n; i++) if (s[i].e || s[i].base != s[0].base || s[i].idx != s[0].idx + i) return 0;
  return n;
}
// out = cond ? A : B  (out may alias B)
static void mergeSlots(E *cond, const Slot *A, const Slot *B, Slot *out, uint32_t n) {
  for (uint32_t i = 0; i < n;) {
    if (A[i] == B[i]) { if (out != B) out[i] = B[i]; i++; continue; }
    uint32_t ea = slotExtent(A + i, n - i), eb = slotExtent(B + i, n - i);
    uint32_t ext = std::max(ea, eb);
    if (ext == 0) {
      // both unknown: widest run of plain base references up to 1 byte
      ext = 1;
    }
    E *a = slotsLoad(A + i, ext), *b = slotsLoad(B + i, ext);
    E *r = mkIte(cond, a, b);
    for (uint32_t j = 0; j < ext; j++) out[i + j] = Slot{r, j, 0};
    i += ext;
  }
}

// ------------------------------------------------------------ objects
static uint32_t newObjInfo(const str &name, uint64_t size, ObjInfo::K k) {
  ObjInfo oi; oi.name = name; oi.size = size; oi.kind = k;
  infos.push_back(oi);
  return infos.size() - 1;
}
static std::shared_ptr<Obj> &objRef(State &st, uint32_t id) { // ensures chunk exclusive
  size_t c = id / 64;
  if (st.ch.size() <= c) st.ch.resize(c + 1);
  auto &p = st.ch[c];
  if (!p) p = std::make_shared<Chunk>();
  else if (p.use_count() > 1) p = std::make_shared<Chunk>(*p);
  return p->o[id % 64];
}
static Obj *objGet(State &st, uint32_t id) {
  size_t c = id / 64;
  if (st.ch.size() <= c || !st.ch[c]) return nullptr;
  return st.ch[c]->o[id % 64].get();
}
static std::shared_ptr<Obj> initialContent(uint32_t id);
static Obj *objForRead(State &st, uint32_t id) {
  Obj *o = objGet(st, id);
  if (o) return o;
  if (infos[id].kind == ObjInfo::GLOBAL) { auto &r = objRef(st, id); r = initialContent(id); return r.get(); }
  return nullptr;
}
static Obj *objForWrite(State &st, uint32_t id) {
  if (!objForRead(st, id)) return nullptr;
  auto &r = objRef(st, id);
  if (r.use_count() > 1) r = std::make_shared<Obj>(*r);
  return r.get();
}
static Page defPage(uint32_t base, uint32_t off) { Page p; for (int i = 0; i < PG; i++) p.s[i] = Slot{nullptr, off + i, base}; return p; }
static Page *pageForWrite(Obj *o, uint32_t id, uint32_t pi) {
  if (o->pages.size() <= pi) o->pages.resize(pi + 1);
  auto &p = o->pages[pi];
  if (!p) p = std::make_shared<Page>(defPage(infos[id].base, pi * PG));
  else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
  return p.get();
}
static void readSlots(State &st, uint32_t id, uint32_t off, uint32_t n, Slot *out) {
  Obj *o = objForRead(st, id);
  if (!o) die("read of dead object " + infos[id].name);
  if (o->arr) {
    unsigned eb = infos[id].elem;
    for (uint32_t i = 0; i < n;) {
      uint32_t a = off + i; E *v = mkARead(o->arr, mkConst(64, a / eb));
      uint32_t s = a % eb;
      for (; s < eb && i < n; s++, i++) out[i] = Slot{v, s, 0};
    }
    return;
  }
  for (uint32_t i = 0; i < n; i++) {
    uint32_t a = off + i, pi = a / PG;
    if (pi < o->pages.size() && o->pages[pi]) out[i] = o->pages[pi]->s[a % PG];
    else out[i] = Slot{nullptr, a, infos[id].base};
  }
}
static void writeSlots(State &st, uint32_t id, uint32_t off, uint32_t n, const Slot *in) {
  Obj *o = objForWrite(st, id);
  if (!o) die("write to dead object " + infos[id].name);
  if (o->arr) {
    unsigned eb = infos[id].elem;
    for (uint32_t i = 0; i < n;) {
      uint32_t a = off + i, s = a % eb, m = std::min(eb - s, n - i);
      E *ix = mkConst(64, a / eb);
      E *v = slotsLoad(in + i, m);
      if (m != eb) {
        E *old = mkARead(o->arr, ix); E *r = v;
        if (s) r = mkConcat(r, mkExtract(old, 8 * s - 1, 0));
        if (s + m < eb) r = mkConcat(mkExtract(old, 8 * eb - 1, 8 * (s + m)), r);
        v = r;
      }
      o->arr = mkAStore(o->arr, ix, v);
      i += m;
    }
    return;
  }
  for (uint32_t i = 0; i < n;) {
    uint32_t a = off + i, pi = a / PG;
    Page *p = pageForWrite(o, id, pi);
    for (; i < n && (off + i) / PG == pi; i++) p->s[(off + i) % PG] = in[i];
  }
}
static void writeE(State &st, uint32_t id, uint32_t off, E *v) {
  uint32_t n = (v->w + 7) / 8;
  if (v->w % 8) v = mkZext(v, n * 8);
  Slot s[8];
  for (uint32_t i = 0; i < n; i++) s[i] = Slot{v, i, 0};
  writeSlots(st, id, off, n, s);
}
static uint32_t newObj(State &st, const str &name, uint64_t size, ObjInfo::K k) {
  uint32_t id = newObjInfo(name, size, k);
  infos[id].base = newBase("undef!" + name + "#" + std::to_string(id), true);
  objRef(st, id) = std::make_shared<Obj>();
  return id;
}

// ------------------------------------------------------------ merge
static void mergeState(State &into, const State &other, E *&condOther) {
  if (into.dead) { into = other; condOther = mkTrue(); return; }
  if (other.dead) { condOther = mkFalse(); return; }
  // find common path prefix
  Path *a = into.path.get(), *b = other.path.get();
  PathP pa = into.path, pb = other.path;
  std::vector<E *> ra, rb;
  while (pa != pb) {
    int da = pa ? pa->depth : 0, db = pb ? pb->depth : 0;
    if (da >= db) { ra.push_back(pa->cond); pa = pa->parent; }
    else { rb.push_back(pb->cond); pb = pb->parent; }
  }
  (void)a; (void)b;
  E *ca = mkTrue(), *cb = mkTrue();
  for (size_t i = ra.size(); i-- > 0;) ca = mkAnd(ca, ra[i]);
  for (size_t i = rb.size(); i-- > 0;) cb = mkAnd(cb, rb[i]);
  // choose selector: the shorter side
  E *sel; // true -> other
  if (ra.size() < rb.size()) sel = mkNot(ca); else sel = cb;
  condOther = sel;
  into.path = pa;
  size_t n = std::max(into.ch.size(), other.ch.size());
  into.ch.resize(n);
  for (size_t c = 0; c < n; c++) {
    std::shared_ptr<Chunk> oc = c < other.ch.size() ? other.ch[c] : nullptr;
    if (oc == into.ch[c]) continue;
    if (!oc) {
      // other side has only initial contents for globals in this chunk
      bool g = false; for (int i = 0; i < 64; i++) if (into.ch[c]->o[i] && infos[c * 64 + i].kind == ObjInfo::GLOBAL) g = true;
      if (!g) continue;
      oc = std::make_shared<Chunk>();
    }
    if (!into.ch[c]) into.ch[c] = std::make_shared<Chunk>();
    if (into.ch[c].use_count() > 1) into.ch[c] = std::make_shared<Chunk>(*into.ch[c]);
    for (int i = 0; i < 64; i++) {
      auto x = into.ch[c]->o[i]; auto y = oc->o[i];
      if (x == y) continue;
      uint32_t id = c * 64 + i;
      if (id < infos.size() && infos[id].kind == ObjInfo::GLOBAL) {
        if (!x) x = initialContent(id);
        if (!y) y = initialContent(id);
      }
      if (!y) continue;
      if (!x) { into.ch[c]->o[i] = y; continue; }
      auto r = std::make_shared<Obj>(*x);
      if (x->arr || y->arr) { r->arr = (x->arr && y->arr) ? mkAIte(sel, y->arr, x->arr) : x->arr ? x->arr : y->arr; }
      else {
        size_t np = std::max(x->pages.size(), y->pages.size());
        r->pages.resize(np);
        for (size_t p = 0; p < np; p++) {
          auto px = p < x->pages.size() ? x->pages[p] : nullptr, py = p < y->pages.size() ? y->pages[p] : nullptr;
          if (px == py) continue;
          Page dp; if (!px || !py) dp = defPage(infos[id].base, p * PG);
          Page out;
          mergeSlots(sel, py ? py->s : dp.s, px ? px->s : dp.s, out.s, PG);
          r->pages[p] = std::make_shared<Page>(out);
        }
      }
      into.ch[c]->o[i] = r;
    }
  }
  E *o = mkOr(ca, cb);
  into.dead = false;
  addCond(into, o);

}
static Val mergeVal(E *sel, const Val &o, const Val &i) {
  if (o.agg || i.agg) {
    Val r; r.agg = std::make_shared<std::vector<Val>>();
    for (size_t k = 0; k < o.agg->size(); k++) r.agg->push_back(mergeVal(sel, (*o.agg)[k], (*i.agg)[k]));
    return r;
  }
  if (!o.s || !i.s) return o.s ? o : i;
  return Val(mkIte(sel, o.s, i.s));
}

// ------------------------------------------------------------ constants
static Val constVal(Constant *c);
static uint32_t globalObj(GlobalValue *g) {
  auto it = gvObj.find(g);
  if (it != gvObj.end()) return it->second;
  if (auto *ga = dyn_cast<GlobalAlias>(g)) { uint32_t id = globalObj(cast<GlobalValue>(ga->getAliasee()->stripPointerCasts())); gvObj[g] = id; return id; }
  uint32_t id;
  if (auto *f = dyn_cast<Function>(g)) { id = newObjInfo(f->getName().str(), 1, ObjInfo::FUNC); infos[id].fn = f; }
  else {
    auto *v = cast<GlobalVariable>(g);
    uint64_t sz = v->getValueType()->isSized() ? DL->getTypeAllocSize(v->getValueType()).getFixedValue() : 64;
    id = newObjInfo(v->getName().str(), sz, ObjInfo::GLOBAL); infos[id].gv = v;
    if (!v->hasInitializer()) infos[id].base = newBase("ext!" + v->getName().str(), false);
    else infos[id].base = newBase("init!" + v->getName().str(), true);
  }
  gvObj[g] = id;
  return id;
}
static Val undefVal(Type *t) {
  if (auto *s = dyn_cast<StructType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (auto *e : s->elements()) r.agg->push_back(undefVal(e)); return r; }
  if (auto *s = dyn_cast<ArrayType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < s->getNumElements(); i++) r.agg->push_back(undefVal(s->getElementType())); return r; }
  return Val(mkVar(DL->getTypeSizeInBits(t).getFixedValue(), "undef", 0, 0, true));
}
static E *gepOffset(GEPOperator *g, std::function<E *(Value *)> val, std::vector<std::pair<E *, uint64_t>> *bounds) {
  E *off = mkConst(64, 0);
  Type *cont = nullptr; // containing aggregate of the current index
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    ArrayType *arrTy = cont ? dyn_cast<ArrayType>(cont) : nullptr;
    cont = it.getIndexedType();
    if (StructType *s = it.getStructTypeOrNull()) {
      unsigned f = cast<ConstantInt>(it.getOperand())->getZExtValue();
      off = mkAdd(off, mkConst(64, DL->getStructLayout(s)->getElementOffset(f).getFixedValue()));
    } else {
      E *i = val(it.getOperand());
      if (i->w < 64) i = mkSext(i, 64); else if (i->w > 64) i = mkExtract(i, 63, 0);
      uint64_t stride = DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
      if (arrTy && arrTy->getNumElements() && bounds) bounds->push_back({i, arrTy->getNumElements()});
      off = mkAdd(off, mkMul(i, mkConst(64, stride)));
    }
  }
  return off;
}
static Val constVal(Constant *c) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() <= 64) die("wide constant"); die("wide constant"); }
    return Val(mkConst(ci->getBitWidth(), ci->getZExtValue()));
  }
  if (isa<ConstantPointerNull>(c)) return Val(mkConst(64, 0));
  if (auto *f = dyn_cast<ConstantFP>(c)) { auto b = f->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) return Val(mkConst(64, 0)); return Val(mkConst(b.getBitWidth(), b.getZExtValue())); }
  if (isa<UndefValue>(c)) return undefVal(t);
  if (auto *g = dyn_cast<GlobalValue>(c)) { uint32_t id = globalObj(g); return Val(mkPtr(id)); }
  if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    Val r; r.agg = std::make_shared<std::vector<Val>>();
    unsigned n = 0;
    if (auto *s = dyn_cast<StructType>(t)) n = s->getNumElements();
    else if (auto *a = dyn_cast<ArrayType>(t)) n = a->getNumElements();
    else die("vector constant");
    for (unsigned i = 0; i < n; i++) r.agg->push_back(constVal(c->getAggregateElement(i)));
    return r;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    auto op = [&](unsigned i) { return constVal(ce->getOperand(i)).s; };
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { E *b = op(0); E *o = gepOffset(cast<GEPOperator>(ce), [&](Value *v) { return constVal(cast<Constant>(v)).s; }, nullptr); return Val(mkAdd(b, o)); }
    case Instruction::PtrToInt: { E *v = op(0); unsigned w = t->getIntegerBitWidth(); return Val(w == 64 ? v : w < 64 ? mkExtract(v, w - 1, 0) : v); }
    case Instruction::IntToPtr: return Val(mkZext(op(0), 64));
    case Instruction::BitCast: return Val(op(0));
    case Instruction::Trunc: return Val(mkExtract(op(0), t->getIntegerBitWidth() - 1, 0));
    case Instruction::Sub: return Val(mkSub(op(0), op(1)));
    case Instruction::Add: return Val(mkAdd(op(0), op(1)));
    default: die(str("constant expression ") + ce->getOpcodeName());
    }
  }
  str s; raw_string_ostream os(s); c->print(os);
  die("constant " + s);
}
static void initBytes(Constant *c, uint32_t off, std::function<void(uint32_t, E *)> put, std::function<void(uint32_t, uint64_t)> zero) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { zero(off, DL->getTypeAllocSize(t).getFixedValue()); return; }
  if (isa<UndefValue>(c)) { zero(off, DL->getTypeAllocSize(t).getFixedValue()); return; }
  if (auto *s = dyn_cast<StructType>(t)) {
    auto *L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) initBytes(c->getAggregateElement(i), off + L->getElementOffset(i).getFixedValue(), put, zero);
    return;
  }
  if (auto *a = dyn_cast<ArrayType>(t)) {
    uint64_t st = DL->getTypeAllocSize(a->getElementType()).getFixedValue();
    for (uint64_t i = 0; i < a->getNumElements(); i++) initBytes(c->getAggregateElement(i), off + i * st, put, zero);
    return;
  }
  E *v = constVal(c).s;
  unsigned n = DL->getTypeStoreSize(t).getFixedValue();
  put(off, mkZext(v, 8 * n));
}
static std::map<uint32_t, std::shared_ptr<Obj>> initCache;
static std::shared_ptr<Obj> initialContent(uint32_t id) {
  auto it = initCache.find(id);
  if (it != initCache.end()) return it->second;
  auto o = std::make_shared<Obj>();
  GlobalVariable *g = infos[id].gv;
  if (g && g->hasInitializer() && infos[id].size <= (1u << 24)) {
    E *z = mkConst(8, 0);
    Obj *raw = o.get();
    auto putSlot = [&](uint32_t a, Slot s) { Page *p = pageForWrite(raw, id, a / PG); p->s[a % PG] = s; };
    // padding reads as zero for globals
    for (uint64_t i = 0; i < infos[id].size; i++) putSlot(i, Slot{z, 0, 0});
    initBytes(g->getInitializer(), 0,
      [&](uint32_t off, E *v) { for (unsigned i = 0; i < v->w / 8u; i++) putSlot(off + i, Slot{v, i, 0}); },
      [&](uint32_t off, uint64_t n) { (void)off; (void)n; });
  }
  initCache[id] = o;
  return o;
}

// ------------------------------------------------------------ debug info layout
static void diLeaves(const DIType *t, uint64_t off, const str &path, std::vector<Leaf> &out, int depth = 0) {
  if (!t || depth > 40) return;
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_atomic_type:
      diLeaves(d->getBaseType(), off, path, out, depth + 1); return;
    case dwarf::DW_TAG_pointer_type: case dwarf::DW_TAG_reference_type: case dwarf::DW_TAG_rvalue_reference_type:
      out.push_back({(uint32_t)off, 8, false, path}); return;
    case dwarf::DW_TAG_ptr_to_member_type: { uint32_t n = d->getSizeInBits() / 8; for (uint32_t i = 0; i < n; i += 8) out.push_back({(uint32_t)off + i, 8, false, path}); return; }
    default: return;
    }
  }
  if (auto *b = dyn_cast<DIBasicType>(t)) {
    uint32_t n = b->getSizeInBits() / 8;
    out.push_back({(uint32_t)off, n, b->getEncoding() == dwarf::DW_ATE_boolean, path}); return;
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    switch (c->getTag()) {
    case dwarf::DW_TAG_enumeration_type: out.push_back({(uint32_t)off, (uint32_t)(c->getSizeInBits() / 8), false, path}); return;
    case dwarf::DW_TAG_array_type: {
      const DIType *et = c->getBaseType();
      std::vector<uint64_t> dims;
      for (auto *e : c->getElements()) if (auto *s = dyn_cast<DISubrange>(e)) { uint64_t n = 0; if (auto ci = dyn_cast_if_present<ConstantInt *>(s->getCount())) n = ci->getZExtValue(); dims.push_back(n); }
      // element size
      const DIType *q = et; uint64_t es = 0;
      while (q) { if (q->getSizeInBits()) { es = q->getSizeInBits() / 8; break; } if (auto *dd = dyn_cast<DIDerivedType>(q)) q = dd->getBaseType(); else break; }
      uint64_t tot = 1; for (auto d : dims) tot *= d;
      for (uint64_t i = 0; i < tot; i++) {
        str ix; uint64_t r = i; for (size_t d = dims.size(); d-- > 0;) { ix = "[" + std::to_string(r % dims[d]) + "]" + ix; r /= dims[d]; }
        diLeaves(et, off + i * es, path + ix, out, depth + 1);
      }
      return; }
    case dwarf::DW_TAG_union_type: {
      const DIDerivedType *only = nullptr; int n = 0;
      for (auto *e : c->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) if (m->getTag() == dwarf::DW_TAG_member && !m->isStaticMember()) { only = m; n++; }
      if (n == 1) diLeaves(only->getBaseType(), off + only->getOffsetInBits() / 8, path + "." + only->getName().str(), out, depth + 1);
      return; }
    default:
      for (auto *e : c->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) {
        if (m->isStaticMember()) continue;
        if (m->getTag() == dwarf::DW_TAG_inheritance) { if (m->isVirtual()) continue; diLeaves(m->getBaseType(), off + m->getOffsetInBits() / 8, path, out, depth + 1); }
        else if (m->getTag() == dwarf::DW_TAG_member) {
          if (m->isBitField()) continue;
          if (m->getName().starts_with("_vptr")) { out.push_back({(uint32_t)(off + m->getOffsetInBits() / 8), 8, false, path + "._vptr"}); continue; }
          diLeaves(m->getBaseType(), off + m->getOffsetInBits() / 8, path + "." + m->getName().str(), out, depth + 1);
        }
      }
    }
  }
}
static std::map<GlobalVariable *, std::shared_ptr<std::vector<Leaf>>> gvLayouts;
static std::shared_ptr<std::vector<Leaf>> gvLayout(GlobalVariable *g) {
  auto it = gvLayouts.find(g);
  if (it != gvLayouts.end()) return it->second;
  std::shared_ptr<std::vector<Leaf>> r;
  SmallVector<DIGlobalVariableExpression *, 2> es;
  g->getDebugInfo(es);
  if (!es.empty()) {
    r = std::make_shared<std::vector<Leaf>>();
    diLeaves(es[0]->getVariable()->getType(), 0, "", *r);
    std::stable_sort(r->begin(), r->end(), [](const Leaf &a, const Leaf &b) { return a.off < b.off; });
    // drop overlapping leaves
    std::vector<Leaf> o; uint32_t end = 0;
    for (auto &l : *r) if (l.len && l.off >= end) { o.push_back(l); end = l.off + l.len; }
    *r = o;
    if (r->empty()) r = nullptr;
  }
  gvLayouts[g] = r;
  return r;
}

// ------------------------------------------------------------ execution
struct FnOrder { std::map<BasicBlock *, int> pos; std::vector<BasicBlock *> seq; std::map<BasicBlock *, int> loopDepth; std::set<BasicBlock *> headers; std::map<BasicBlock *, BasicBlock *> hdrOf; std::map<std::pair<BasicBlock*,BasicBlock*>,bool> back; std::unique_ptr<DominatorTree> dt; std::unique_ptr<LoopInfo> li; };
static std::map<Function *, std::unique_ptr<FnOrder>> orders;
static FnOrder *fnOrder(Function *f) {
  auto &u = orders[f];
  if (u) return u.get();
  u = std::make_unique<FnOrder>();
  FnOrder *o = u.get();
  o->dt = std::make_unique<DominatorTree>(*f);
  o->li = std::make_unique<LoopInfo>(*o->dt);
  LoopInfo &LI = *o->li;
  // recursive ordering with loops collapsed
  std::function<void(Loop *, BasicBlock *, std::vector<BasicBlock *> &)> go = [&](Loop *L, BasicBlock *hdr, std::vector<BasicBlock *> &out) {
    // node representative: block itself or header of the child loop
    auto rep = [&](BasicBlock *b) -> BasicBlock * {
      Loop *x = LI.getLoopFor(b);
      if (x == L) return b;
      while (x && x->getParentLoop() != L) x = x->getParentLoop();
      return x ? x->getHeader() : nullptr;
    };
    auto inside = [&](BasicBlock *b) { return !L || L->contains(b); };
    std::set<BasicBlock *> vis;
    std::vector<BasicBlock *> post;
    std::function<void(BasicBlock *)> dfs = [&](BasicBlock *n) {
      if (!vis.insert(n).second) return;
      Loop *c = LI.getLoopFor(n);
      std::vector<BasicBlock *> succ;
      if (c == L) { for (BasicBlock *s : successors(n)) if (inside(s) && !(L && s == L->getHeader())) succ.push_back(s); }
      else { SmallVector<BasicBlock *, 8> ex; // collapse
        while (c->getParentLoop() != L) c = c->getParentLoop();
        c->getExitBlocks(ex);
        for (auto *s : ex) if (inside(s) && !(L && s == L->getHeader())) succ.push_back(s); }
      for (auto *s : succ) dfs(rep(s));
      post.push_back(n);
    };
    dfs(rep(hdr) ? rep(hdr) : hdr);
    for (size_t i = post.size(); i-- > 0;) {
      BasicBlock *n = post[i];
      Loop *c = LI.getLoopFor(n);
      if (c == L) out.push_back(n);
      else { while (c->getParentLoop() != L) c = c->getParentLoop(); go(c, c->getHeader(), out); }
    }
  };
  // a loop header belongs to its own loop: within go(L, header) rep(header)==header since LI.getLoopFor(header)==L
  go(nullptr, &f->getEntryBlock(), o->seq);
  for (size_t i = 0; i < o->seq.size(); i++) o->pos[o->seq[i]] = i;
  for (auto *b : o->seq) if (LI.isLoopHeader(b)) o->headers.insert(b);
  return o;
}

struct Frame {
  Function *f; FnOrder *ord;
  DenseMap<const Value *, Val> env;
  std::vector<uint32_t> allocas;
  std::map<BasicBlock *, int> iter;
};
static int callDepth = 0;
static std::vector<str> callStack;

static str locOf(const Instruction *i) {
  const DebugLoc &d = i->getDebugLoc();
  str fn = demangle(i->getFunction()->getName().str());
  if (fn.size() > 80) fn = fn.substr(0, 80);
  if (!d) return fn;
  str file = d->getFilename().str();
  size_t p = file.rfind('/');
  (void)p;
  return file + ":" + std::to_string(d.getLine()) + " in " + fn;
}
static std::set<std::pair<E *, E *>> seenObl;
static void oblige(State &st, E *c, const str &name, const str &kind, const str &loc) {
  if (st.dead) return;
  c = simpUnder(st.path, c);
  if (isT(c)) { nTriv++; if (kind == "assert") obls.push_back({name, kind, loc, mkTrue(), mkTrue(), "proved", 0, "simplifier", 0, choices}); return; }
  E *p = pathConj(st.path);
  if (kind != "assert" && !seenObl.insert({p, c}).second) return;
  obls.push_back({name, kind, loc, p, c, "", 0, "", 0, choices});
}
static Val evalOperand(Frame &fr, Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
  auto it = fr.env.find(v);
  if (it == fr.env.end()) { str s; raw_string_ostream os(s); v->print(os); die("no value for " + s + " in " + fr.f->getName().str()); }
  return it->second;
}

struct Target { E *cond; uint32_t obj; E *off; };
static void resolvePtr(E *p, E *cond, std::vector<Target> &out) {
  if (isF(cond)) return;
  if (p->op == PTR) { out.push_back({cond, (uint32_t)p->k, mkConst(64, 0)}); return; }
  if (p->op == CONST) {
    out.push_back({cond, (uint32_t)(p->k >> 40), mkConst(64, p->k & maskw(40))}); return; }
  if (p->op == ITE) { resolvePtr(p->b, mkAnd(cond, p->a), out); resolvePtr(p->c, mkAnd(cond, mkNot(p->a)), out); return; }
  if (p->op == ADD) {
    E *b = p->a->hasPtr ? p->a : p->b->hasPtr ? p->b : nullptr;
    if (!b && isC(p->b)) b = nullptr;
    if (b) {
      E *o = b == p->a ? p->b : p->a;
      std::vector<Target> t; resolvePtr(b, cond, t);
      for (auto &x : t) out.push_back({x.cond, x.obj, mkAdd(x.off, o)});
      return;
    }
  }
  out.push_back({cond, 0, p}); // not an object: invalid
}
static void linear(E *e, int64_t scale, std::vector<std::pair<E *, int64_t>> &terms, int64_t &c) {
  switch (e->op) {
  case CONST: c += scale * (int64_t)e->k; return;
  case ADD: linear(e->a, scale, terms, c); linear(e->b, scale, terms, c); return;
  case SUB: linear(e->a, scale, terms, c); linear(e->b, -scale, terms, c); return;
  case SHL: if (isC(e->b)) { linear(e->a, scale * (1ll << e->b->k), terms, c); return; } break;
  case MUL: if (isC(e->b)) { linear(e->a, scale * (int64_t)e->b->k, terms, c); return; } break;
  default: break;
  }
  for (auto &t : terms) if (t.first == e) { t.second += scale; return; }
  terms.push_back({e, scale});
}
struct Cand { E *cond; uint32_t off; };
static const size_t CAND_LIMIT = 20000;
static void factBounds(const PathP &p, E *t, uint64_t &lo, uint64_t &hi) {
  E *u = t; if (t->op == ZEXT) u = t->a;
  int cnt = 0;
  for (Path *q = p.get(); q && cnt < 2000; q = q->parent.get(), cnt++) {
    E *f = q->cond;
    if (f->op == ULT) {
      if ((f->a == u || f->a == t) && isC(f->b)) { if (f->b->k && f->b->k - 1 < hi) hi = f->b->k - 1; }
      if ((f->b == u || f->b == t) && isC(f->a)) { if (f->a->k + 1 > lo) lo = f->a->k + 1; }
    } else if (f->op == XOR && isC(f->b, 1) && f->a->op == ULT) {
      E *g = f->a;
      if ((g->a == u || g->a == t) && isC(g->b)) { if (g->b->k > lo) lo = g->b->k; }
      if ((g->b == u || g->b == t) && isC(g->a)) { if (g->a->k < hi) hi = g->a->k; }
    } else if (f->op == EQ && (f->a == u || f->a == t) && isC(f->b)) { lo = hi = f->b->k; }
  }
}
static bool enumCands(const PathP &path, E *off, uint64_t size, uint32_t n, std::vector<Cand> &out) {
  if (isC(off)) { if (off->k + n <= size) out.push_back({mkTrue(), (uint32_t)off->k}); return true; }
  std::vector<std::pair<E *, int64_t>> terms; int64_t c = 0;
  linear(off, 1, terms, c);
  std::vector<std::pair<uint64_t, uint64_t>> rng;
  for (auto &t : terms) { uint64_t lo = t.first->lo, hi = t.first->hi; factBounds(path, t.first, lo, hi); rng.push_back({lo, hi}); }
  bool ok = true;
  std::function<void(size_t, int64_t, E *)> rec = [&](size_t i, int64_t acc, E *cond) {
    if (!ok) return;
    if (i == terms.size()) {
      if (acc >= 0 && (uint64_t)acc + n <= size) { out.push_back({cond, (uint32_t)acc}); if (out.size() > CAND_LIMIT) ok = false; }
      return;
    }
    int64_t s = terms[i].second; uint64_t lo = rng[i].first, hi = rng[i].second;
    if (s > 0) {
      int64_t room = (int64_t)size - acc; // remaining terms assumed >= 0 when scales positive
      bool othersPos = true; for (size_t j = i + 1; j < terms.size(); j++) if (terms[j].second < 0) othersPos = false;
      if (othersPos) { if (room < 0) return; uint64_t mx = (uint64_t)room / s; if (hi > mx) hi = mx; }
    }
    if (hi < lo) return;
    if (hi - lo > CAND_LIMIT) { ok = false; return; }
    for (uint64_t k = lo; k <= hi; k++) {
      E *e = mkEq(terms[i].first, mkConst(64, k));
      if (isF(e)) continue;
      e = factLookup(path, e);
      if (isF(e)) continue;
      rec(i + 1, acc + s * (int64_t)k, mkAnd(cond, e));
      if (!ok) return;
    }
  };
  rec(0, c, mkTrue());
  return ok;
}
static E *idxOf(E *off, unsigned eb) { return mkLshr(off, mkConst(64, __builtin_ctz(eb))); }

static bool accessTargets(State &st, E *p, uint32_t n, const str &loc, const char *what, std::vector<Target> &ts) {
  std::vector<Target> all; resolvePtr(p, mkTrue(), all);
  E *bad = mkFalse(); str why;
  for (auto &t : all) {
    E *c = simpUnder(st.path, t.cond);
    if (isF(c)) continue;
    ObjInfo &oi = infos[t.obj];
    bool invalid = t.obj == 0 || oi.kind == ObjInfo::FUNC || !objForRead(st, t.obj);
    if (invalid) { bad = mkOr(bad, c); why = t.obj == 0 ? (isC(t.off) ? "null" : "non-object pointer " + exprStr(t.off, 3)) : "dead/func " + oi.name; continue; }
    E *oob;
    if (isC(t.off)) oob = mkConst(1, t.off->k + n > oi.size || t.off->k > oi.size);
    else oob = mkUlt(mkConst(64, oi.size >= n ? oi.size - n : 0), t.off);
    if (!isF(oob)) { bad = mkOr(bad, mkAnd(c, oob)); if (why.empty()) why = "out of bounds of " + oi.name; }
    if (isT(oob)) continue;
    ts.push_back({c, t.obj, t.off});
  }
  if (!isF(bad)) { oblige(st, mkNot(bad), str(what) + " valid: " + why, "memory", loc); addCond(st, mkNot(bad)); if (st.dead) return false; }
  if (ts.empty()) { st.dead = true; return false; }
  return true;
}
static E *loadScalar(State &st, E *p, uint32_t n, bool boolHint, const str &loc) {
  std::vector<Target> ts;
  if (!accessTargets(st, p, n, loc, "load", ts)) return mkConst(8 * n, 0);
  E *res = nullptr;
  for (size_t ti = ts.size(); ti-- > 0;) {
    auto &t = ts[ti];
    E *v = nullptr;
    Obj *o = objForRead(st, t.obj);
    if (o->arr) {
      unsigned eb = infos[t.obj].elem;
      E *low = mkAnd(t.off, mkConst(64, eb - 1));
      E *ix = idxOf(t.off, eb);
      if (n == eb && isC(low, 0)) v = mkARead(o->arr, ix);
      else if (n < eb) {
        E *w = mkARead(o->arr, ix);
        E *crossing = mkUlt(mkConst(64, eb - n), low);
        oblige(st, mkNot(crossing), "access does not straddle array elements", "memory", loc);
        v = mkExtract(mkLshr(w, mkShl(mkExtract(low, 8 * eb - 1 > 63 ? 63 : 8 * eb - 1, 0), mkConst(8 * eb, 3))), 8 * n - 1, 0);
      } else if (n % eb == 0 && isC(low, 0)) {
        for (uint32_t i = 0; i < n / eb; i++) { E *x = mkARead(o->arr, mkAdd(ix, mkConst(64, i))); v = v ? mkConcat(x, v) : x; }
      } else { oblige(st, mkEq(low, mkConst(64, 0)), "aligned array access", "memory", loc); v = mkARead(o->arr, ix); if (n != eb) die("odd array access at " + loc); }
    } else {
      std::vector<Cand> cs;
      if (!enumCands(st.path, t.off, infos[t.obj].size, n, cs)) die("too many candidate offsets at " + loc + " off=" + exprStr(t.off, 5));
      if (cs.empty()) continue;
      std::vector<Slot> sl(n);
      for (size_t i = cs.size(); i-- > 0;) {
        readSlots(st, t.obj, cs[i].off, n, sl.data());
        E *x = slotsLoad(sl.data(), n, boolHint);
        v = v ? mkIte(cs[i].cond, x, v) : x;
      }
    }
    res = res ? mkIte(t.cond, v, res) : v;
  }
  if (!res) { st.dead = true; return mkConst(8 * n, 0); }
  return res;
}
static void storeScalar(State &st, E *p, E *v, const str &loc) {
  uint32_t n = (v->w + 7) / 8;
  if (v->w % 8) v = mkZext(v, 8 * n);
  std::vector<Target> ts;
  if (!accessTargets(st, p, n, loc, "store", ts)) return;
  for (auto &t : ts) {
    Obj *o = objForWrite(st, t.obj);
    E *tc = ts.size() == 1 ? mkTrue() : t.cond;
    if (o->arr) {
      unsigned eb = infos[t.obj].elem;
      E *low = mkAnd(t.off, mkConst(64, eb - 1)), *ix = idxOf(t.off, eb);
      if (n == eb) {
        if (!isC(low, 0)) oblige(st, mkEq(low, mkConst(64, 0)), "aligned array access", "memory", loc);
        E *nv = isT(tc) ? v : mkIte(tc, v, mkARead(o->arr, ix));
        o->arr = mkAStore(o->arr, ix, nv);
      } else if (n < eb) {
        E *crossing = mkUlt(mkConst(64, eb - n), low);
        oblige(st, mkNot(crossing), "access does not straddle array elements", "memory", loc);
        E *old = mkARead(o->arr, ix); unsigned W = 8 * eb;
        E *sh = mkShl(mkExtract(low, W > 64 ? 63 : W - 1, 0), mkConst(W, 3));
        E *m = mkShl(mkConst(W, maskw(8 * n)), sh);
        E *nv = mkOr(mkAnd(old, mkNot(m)), mkShl(mkZext(v, W), sh));
        o->arr = mkAStore(o->arr, ix, isT(tc) ? nv : mkIte(tc, nv, old));
      } else if (n % eb == 0 && isC(low, 0)) {
        for (uint32_t i = 0; i < n / eb; i++) {
          E *x = mkAdd(ix, mkConst(64, i)); E *nv = mkExtract(v, 8 * eb * (i + 1) - 1, 8 * eb * i);
          o->arr = mkAStore(o->arr, x, isT(tc) ? nv : mkIte(tc, nv, mkARead(o->arr, x)));
        }
      } else die("odd array store at " + loc);
      continue;
    }
    std::vector<Cand> cs;
    if (!enumCands(st.path, t.off, infos[t.obj].size, n, cs)) die("too many candidate offsets at " + loc + " off=" + exprStr(t.off, 5));
    for (auto &c : cs) {
      E *cond = mkAnd(tc, c.cond);
      if (isT(cond)) { writeE(st, t.obj, c.off, v); continue; }
      Slot sl[8]; readSlots(st, t.obj, c.off, n, sl);
      E *old = slotsLoad(sl, n);
      E *nv = mkIte(cond, v, old);
      if (nv != old) writeE(st, t.obj, c.off, nv);
    }
  }
}
static void gatherSlots(State &st, E *p, uint32_t n, const str &loc, std::vector<Slot> &out) {
  out.assign(n, Slot{mkConst(8, 0), 0, 0});
  if (n == 0) return;
  std::vector<Target> ts;
  if (!accessTargets(st, p, n, loc, "memcpy source", ts)) return;
  bool first = true;
  std::vector<Slot> tmp(n);
  for (auto &t : ts) {
    std::vector<Cand> cs;
    if (objForRead(st, t.obj)->arr && !isC(t.off)) {
      unsigned eb = infos[t.obj].elem; E *low = mkAnd(t.off, mkConst(64, eb - 1));
      if (!isC(low, 0)) oblige(st, mkEq(low, mkConst(64, 0)), "aligned array access", "memory", loc);
      E *ix = idxOf(t.off, eb);
      for (uint32_t i = 0; i < n; i++) tmp[i] = Slot{mkARead(objForRead(st, t.obj)->arr, mkAdd(ix, mkConst(64, i / eb))), i % eb, 0};
      if (first) { out = tmp; first = false; } else mergeSlots(t.cond, tmp.data(), out.data(), out.data(), n);
      continue;
    }
    if (!enumCands(st.path, t.off, infos[t.obj].size, n, cs)) die("too many candidate offsets (memcpy) at " + loc + " off=" + exprStr(t.off, 5));
    for (auto &c : cs) {
      readSlots(st, t.obj, c.off, n, tmp.data());
      if (first) { out = tmp; first = false; }
      else mergeSlots(mkAnd(t.cond, c.cond), tmp.data(), out.data(), out.data(), n);
    }
  }
}
static void scatterSlots(State &st, E *p, uint32_t n, const std::vector<Slot> &in, const str &loc) {
  if (n == 0) return;
  std::vector<Target> ts;
  if (!accessTargets(st, p, n, loc, "memcpy destination", ts)) return;
  std::vector<Slot> tmp(n);
  for (auto &t : ts) {
    E *tc = ts.size() == 1 ? mkTrue() : t.cond;
    if (objForRead(st, t.obj)->arr && !isC(t.off)) {
      unsigned eb = infos[t.obj].elem; E *low = mkAnd(t.off, mkConst(64, eb - 1));
      if (!isC(low, 0)) oblige(st, mkEq(low, mkConst(64, 0)), "aligned array access", "memory", loc);
      if (n % eb) die("odd memcpy to array");
      E *ix = idxOf(t.off, eb); Obj *o = objForWrite(st, t.obj);
      for (uint32_t i = 0; i < n; i += eb) {
        E *x = mkAdd(ix, mkConst(64, i / eb)); E *v = slotsLoad(in.data() + i, eb);
        o->arr = mkAStore(o->arr, x, isT(tc) ? v : mkIte(tc, v, mkARead(o->arr, x)));
      }
      continue;
    }
    std::vector<Cand> cs;
    if (!enumCands(st.path, t.off, infos[t.obj].size, n, cs)) die("too many candidate offsets (memcpy) at " + loc + " off=" + exprStr(t.off, 5));
    for (auto &c : cs) {
      E *cond = mkAnd(tc, c.cond);
      if (isT(cond)) { writeSlots(st, t.obj, c.off, n, in.data()); continue; }
      readSlots(st, t.obj, c.off, n, tmp.data());
      mergeSlots(cond, in.data(), tmp.data(), tmp.data(), n);
      writeSlots(st, t.obj, c.off, n, tmp.data());
    }
  }
}
static str readCStr(State &st, E *p) {
  std::vector<Target> ts; resolvePtr(p, mkTrue(), ts);
  if (ts.size() != 1 || !isC(ts[0].off) || ts[0].obj == 0) die("non-constant string");
  str s;
  for (uint32_t i = ts[0].off->k; i < infos[ts[0].obj].size; i++) {
    Slot sl; readSlots(st, ts[0].obj, i, 1, &sl);
    E *c = slotsLoad(&sl, 1);
    if (!isC(c)) die("non-constant string byte");
    if (c->k == 0) break;
    s += (char)c->k;
  }
  return s;
}
static str uniq(const str &n) { int k = nameCount[n]++; return k ? n + "#" + std::to_string(k) : n; }

static Val loadType(State &st, E *p, Type *t, bool boolHint, const str &loc) {
  if (auto *s = dyn_cast<StructType>(t)) {
    Val r; r.agg = std::make_shared<std::vector<Val>>(); auto *L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) r.agg->push_back(loadType(st, mkAdd(p, mkConst(64, L->getElementOffset(i).getFixedValue())), s->getElementType(i), false, loc));
    return r;
  }
  if (auto *a = dyn_cast<ArrayType>(t)) {
    Val r; r.agg = std::make_shared<std::vector<Val>>(); uint64_t es = DL->getTypeAllocSize(a->getElementType()).getFixedValue();
    for (unsigned i = 0; i < a->getNumElements(); i++) r.agg->push_back(loadType(st, mkAdd(p, mkConst(64, i * es)), a->getElementType(), false, loc));
    return r;
  }
  unsigned bits = DL->getTypeSizeInBits(t).getFixedValue();
  unsigned n = (bits + 7) / 8;
  E *v = loadScalar(st, p, n, boolHint, loc);
  if (bits != 8 * n) v = mkExtract(v, bits - 1, 0);
  return Val(v);
}
static void storeType(State &st, E *p, const Val &v, Type *t, const str &loc) {
  if (auto *s = dyn_cast<StructType>(t)) {
    auto *L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) storeType(st, mkAdd(p, mkConst(64, L->getElementOffset(i).getFixedValue())), (*v.agg)[i], s->getElementType(i), loc);
    return;
  }
  if (auto *a = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(a->getElementType()).getFixedValue();
    for (unsigned i = 0; i < a->getNumElements(); i++) storeType(st, mkAdd(p, mkConst(64, i * es)), (*v.agg)[i], a->getElementType(), loc);
    return;
  }
  storeScalar(st, p, v.s, loc);
}

static E *shiftGuard(State &st, E *res, E *amt, const str &loc) {
  unsigned w = res->w;
  if (amt->hi < w) return res;
  E *ok = simpUnder(st.path, mkUlt(amt, mkConst(amt->w, w)));
  if (isT(ok)) return res;
  (void)loc;
  return mkIte(ok, res, mkVar(w, "poison!shift", 0, 0, true));
}
static Val execFunction(Function *f, std::vector<Val> args, State &st);

static Val externalCall(Frame &fr, State &st, CallBase *cb, Function *f, std::vector<Val> &a, bool &handled);

static E *popcount(E *x) {
  unsigned w = x->w; E *r = mkConst(w, 0);
  for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZext(mkExtract(x, i, i), w));
  return r;
}
static E *ctz(E *x) { unsigned w = x->w; E *r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(x, i, i), mkConst(w, i), r); return r; }
static E *clz(E *x) { unsigned w = x->w; E *r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, i), mkConst(w, w - 1 - i), r); return r; }

static Val callOne(Frame &fr, State &st, CallBase *cb, Function *f, std::vector<Val> &args) {
  auto rp = replaced.find(f);
  if (rp != replaced.end()) { replacedFns.insert(demangle(f->getName().str())); f = rp->second; }
  bool handled = false;
  Val r = externalCall(fr, st, cb, f, args, handled);
  if (handled) return r;
  if (f->isDeclaration()) die("call to unknown external function " + demangle(f->getName().str()) + " (" + f->getName().str() + ") at " + locOf(cb));
  if (f->isVarArg()) { // e.g. logging helpers: not modelled
    die("call to variadic function " + f->getName().str()); }
  return execFunction(f, args, st);
}

static Val execCall(Frame &fr, State &st, CallBase *cb) {
  std::vector<Val> args;
  for (auto &u : cb->args()) { if (u->getType()->isMetadataTy()) { args.push_back(Val()); continue; } args.push_back(evalOperand(fr, u.get())); }
  // by-value aggregates: copy
  for (unsigned i = 0; i < args.size(); i++) if (cb->isByValArgument(i)) {
    uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue();
    uint32_t id = newObj(st, "byval", sz, ObjInfo::STACK); fr.allocas.push_back(id);
    std::vector<Slot> sl; gatherSlots(st, args[i].s, sz, locOf(cb), sl); if (st.dead) return Val();
    writeSlots(st, id, 0, sz, sl.data()); args[i] = Val(mkPtr(id));
  }
  Value *cv = cb->getCalledOperand();
  if (isa<InlineAsm>(cv)) { if (cb->getType()->isVoidTy()) return Val(); die("inline asm"); }
  if (auto *f = dyn_cast<Function>(cv->stripPointerCasts())) return callOne(fr, st, cb, f, args);
  E *p = evalOperand(fr, cv).s;
  std::vector<Target> ts; resolvePtr(p, mkTrue(), ts);
  std::vector<Target> fs;
  E *bad = mkFalse();
  for (auto &t : ts) { E *c = simpUnder(st.path, t.cond); if (isF(c)) continue; if (t.obj && infos[t.obj].kind == ObjInfo::FUNC) fs.push_back({c, t.obj, t.off}); else bad = mkOr(bad, c); }
  if (!isF(bad)) { oblige(st, mkNot(bad), "indirect call target valid", "memory", locOf(cb)); addCond(st, mkNot(bad)); }
  if (st.dead || fs.empty()) { st.dead = true; return Val(); }
  if (fs.size() == 1) return callOne(fr, st, cb, infos[fs[0].obj].fn, args);
  bool have = false; State acc; Val rv;
  for (auto &t : fs) {
    State s2 = st; addCond(s2, t.cond); if (s2.dead) continue;
    Val r = callOne(fr, s2, cb, infos[t.obj].fn, args);
    if (s2.dead) continue;
    if (!have) { acc = s2; rv = r; have = true; }
    else { E *sel; mergeState(acc, s2, sel); if (!cb->getType()->isVoidTy()) rv = mergeVal(sel, r, rv); }
  }
  if (!have) { st.dead = true; return Val(); }
  st = acc;
  return rv;
}

static E *fpOp(const str &n, unsigned w, std::vector<E *> as) { assumedNotes.insert("host floating point operation treated as uninterpreted: " + n); return mkUF("fp." + n, w, as); }

static E *icmp(State &st, CmpInst::Predicate p, E *a, E *b) {
  (void)st;
  switch (p) {
  case CmpInst::ICMP_EQ: return mkEq(a, b);
  case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case CmpInst::ICMP_ULT: return mkUlt(a, b);
  case CmpInst::ICMP_ULE: return mkNot(mkUlt(b, a));
  case CmpInst::ICMP_UGT: return mkUlt(b, a);
  case CmpInst::ICMP_UGE: return mkNot(mkUlt(a, b));
  case CmpInst::ICMP_SLT: return mkSlt(a, b);
  case CmpInst::ICMP_SLE: return mkNot(mkSlt(b, a));
  case CmpInst::ICMP_SGT: return mkSlt(b, a);
  case CmpInst::ICMP_SGE: return mkNot(mkSlt(a, b));
  default: die("icmp");
  }
}

static int maxIter = 70000;
static double tLast = 0;
static std::set<Function *> noBodyWarn;

static Val execFunction(Function *f, std::vector<Val> args, State &st) {
  if (++callDepth > 300) die("call depth (recursion) in " + f->getName().str());
  if (f->hasFnAttribute(Attribute::Naked)) die("naked");
  usedFns.insert(f->getName().str());
  Frame fr; fr.f = f; fr.ord = fnOrder(f);
  unsigned ai = 0;
  for (auto &a : f->args()) fr.env[&a] = args[ai++];
  struct Pend { State st; std::vector<Val> phis; };
  std::map<int, Pend> pend;
  State retSt; bool haveRet = false; Val retVal;
  pend[0] = Pend{st, {}};
  LoopInfo &LI = *fr.ord->li;
  auto edge = [&](BasicBlock *from, BasicBlock *to, State &&s) {
    if (s.dead) return;
    std::vector<Val> ph;
    for (auto &phi : to->phis()) ph.push_back(evalOperand(fr, phi.getIncomingValueForBlock(from)));
    int pos = fr.ord->pos[to];
    if (fr.ord->headers.count(to) && !LI.getLoopFor(to)->contains(from)) fr.iter[to] = 0;
    auto it = pend.find(pos);
    if (it == pend.end()) pend.emplace(pos, Pend{std::move(s), ph});
    else {
      E *sel; mergeState(it->second.st, s, sel);
      for (size_t i = 0; i < ph.size(); i++) it->second.phis[i] = mergeVal(sel, ph[i], it->second.phis[i]);
    }
  };
  while (!pend.empty()) {
    auto it = pend.begin();
    BasicBlock *bb = fr.ord->seq[it->first];
    Pend P = std::move(it->second); pend.erase(it);
    State cur = std::move(P.st);
    if (cur.dead) continue;
    { size_t k = 0; for (auto &phi : bb->phis()) fr.env[&phi] = P.phis[k++]; }
    if (fr.ord->headers.count(bb)) {
      int &n = fr.iter[bb];
      if (++n > maxIter) die("loop iteration limit in " + demangle(f->getName().str()) + " at " + locOf(bb->getTerminator()));
    }
    for (auto &I : *bb) {
      if (isa<PHINode>(I)) continue;
      nInstr++;
      if (verbose > 1) { str s; raw_string_ostream os(s); I.print(os); fprintf(stderr, "[%d] %s\n", callDepth, s.c_str()); }
      auto op = [&](unsigned i) { return evalOperand(fr, I.getOperand(i)).s; };
      if (I.isTerminator()) {
        if (auto *r = dyn_cast<ReturnInst>(&I)) {
          Val v; if (r->getReturnValue()) v = evalOperand(fr, r->getReturnValue());
          if (!haveRet) { retSt = std::move(cur); retVal = v; haveRet = true; }
          else { E *sel; mergeState(retSt, cur, sel); if (r->getReturnValue()) retVal = mergeVal(sel, v, retVal); }
        } else if (auto *br = dyn_cast<BranchInst>(&I)) {
          if (br->isUnconditional()) edge(bb, br->getSuccessor(0), std::move(cur));
          else {
            E *c = simpUnder(cur.path, op(0));
            BasicBlock *t = br->getSuccessor(0), *e = br->getSuccessor(1);
            if (t == e) { edge(bb, t, std::move(cur)); break; }
            Loop *L = LI.getLoopFor(bb);
            if (!isC(c) && L) {
              // symbolic decision on leaving a loop: ask whether staying is feasible
              bool tin = L->contains(t), ein = L->contains(e);
              if (tin != ein) {
                int n = fr.iter[L->getHeader()];
                // (after slow answers only at powers of two: extra iterations are sound)
                auto &slow = slowLoop[bb];
                if (loopQueries && n >= 2 && (!slow || (n & (n - 1)) == 0)) {
                  E *stay = tin ? c : mkNot(c); double t0 = now();
                  if (!feasible(cur.path, stay)) c = tin ? mkFalse() : mkTrue();
                  slow = now() - t0 > 0.05;
                }
              }
            }
            if (isC(c)) edge(bb, c->k ? t : e, std::move(cur));
            else {
              State s2 = cur;
              addCond(cur, c); addCond(s2, mkNot(c));
              edge(bb, t, std::move(cur)); edge(bb, e, std::move(s2));
            }
          }
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
          E *v = op(0); E *none = mkTrue(); bool dead = false;
          // group by successor
          std::vector<std::pair<BasicBlock *, E *>> groups;
          for (auto &cs : sw->cases()) {
            E *c = mkEq(v, constVal(cs.getCaseValue()).s);
            c = simpUnder(cur.path, c);
            bool f = false;
            for (auto &g : groups) if (g.first == cs.getCaseSuccessor()) { g.second = mkOr(g.second, c); f = true; }
            if (!f) groups.push_back({cs.getCaseSuccessor(), c});
            none = mkAnd(none, mkNot(c));
          }
          (void)dead;
          BasicBlock *d = sw->getDefaultDest(); bool fd = false;
          for (auto &g : groups) if (g.first == d) { g.second = mkOr(g.second, none); fd = true; }
          if (!fd) groups.push_back({d, none});
          for (auto &g : groups) { if (isF(g.second)) continue; State s2 = cur; addCond(s2, g.second); edge(bb, g.first, std::move(s2)); }
        } else if (isa<UnreachableInst>(&I)) {
          oblige(cur, mkFalse(), "undefined behaviour (unreachable) is not reached", "ub", locOf(&I));
        } else die(str("terminator ") + I.getOpcodeName() + " in " + f->getName().str());
        break;
      }
      if (cur.dead) break;
      Val res;
      switch (I.getOpcode()) {
      case Instruction::Alloca: {
        auto *al = cast<AllocaInst>(&I);
        uint64_t n = 1; if (al->isArrayAllocation()) { E *c = op(0); if (!isC(c)) die("variable alloca"); n = c->k; }
        uint64_t sz = DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue() * n;
        uint32_t id = newObj(cur, f->getName().str() + "." + al->getName().str(), sz, ObjInfo::STACK);
        fr.allocas.push_back(id); res = Val(mkPtr(id)); break; }
      case Instruction::Load: {
        auto *l = cast<LoadInst>(&I);
        bool bh = false;
        if (auto *md = l->getMetadata(LLVMContext::MD_range)) { auto *hi = mdconst::extract<ConstantInt>(md->getOperand(1)); bh = hi->getValue() == 2; }
        if (l->getType()->isIntegerTy() && l->getType()->getIntegerBitWidth() > 64) die("wide load at " + locOf(&I));
        res = loadType(cur, op(0), l->getType(), bh, locOf(&I)); break; }
      case Instruction::Store: {
        auto *s = cast<StoreInst>(&I);
        storeType(cur, evalOperand(fr, s->getPointerOperand()).s, evalOperand(fr, s->getValueOperand()), s->getValueOperand()->getType(), locOf(&I)); break; }
      case Instruction::GetElementPtr: {
        auto *g = cast<GEPOperator>(&I);
        std::vector<std::pair<E *, uint64_t>> bnd;
        E *b = op(0);
        E *o = gepOffset(g, [&](Value *v) { return evalOperand(fr, v).s; }, &bnd);
        for (auto &x : bnd) {
          if (isC(x.first)) { if (x.first->k > x.second) { oblige(cur, mkFalse(), "array index in bounds [" + std::to_string(x.second) + "]", "bounds", locOf(&I)); cur.dead = true; } continue; }
          E *ok = mkUlt(x.first, mkConst(64, x.second));
          if (isT(ok)) continue;
          oblige(cur, ok, "array index in bounds [" + std::to_string(x.second) + "]", "bounds", locOf(&I));
          addCond(cur, ok);
        }
        res = Val(mkAdd(b, o)); break; }
      case Instruction::Add: res = Val(mkAdd(op(0), op(1))); break;
      case Instruction::Sub: res = Val(mkSub(op(0), op(1))); break;
      case Instruction::Mul: res = Val(mkMul(op(0), op(1))); break;
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
        E *a = op(0), *b = op(1);
        bool sg = I.getOpcode() == Instruction::SDiv || I.getOpcode() == Instruction::SRem;
        E *ok = mkNot(mkEq(b, mkConst(b->w, 0)));
        if (sg) ok = mkAnd(ok, mkNot(mkAnd(mkEq(a, mkConst(a->w, 1ull << (a->w - 1))), mkEq(b, mkConst(b->w, maskw(b->w))))));
        if (!isT(ok)) { oblige(cur, ok, "division does not trap (zero divisor / overflow)", "ub", locOf(&I)); addCond(cur, ok); }
        Op o = I.getOpcode() == Instruction::UDiv ? UDIV : I.getOpcode() == Instruction::URem ? UREM : I.getOpcode() == Instruction::SDiv ? SDIV : SREM;
        res = Val(mkDiv(o, a, b)); break; }
      case Instruction::And: res = Val(mkAnd(op(0), op(1))); break;
      case Instruction::Or: res = Val(mkOr(op(0), op(1))); break;
      case Instruction::Xor: res = Val(mkXor(op(0), op(1))); break;
      case Instruction::Shl: res = Val(shiftGuard(cur, mkShl(op(0), op(1)), op(1), "")); break;
      case Instruction::LShr: res = Val(shiftGuard(cur, mkLshr(op(0), op(1)), op(1), "")); break;
      case Instruction::AShr: res = Val(shiftGuard(cur, mkAshr(op(0), op(1)), op(1), "")); break;
      case Instruction::ICmp: res = Val(icmp(cur, cast<ICmpInst>(&I)->getPredicate(), op(0), op(1))); break;
      case Instruction::ZExt: res = Val(mkZext(op(0), I.getType()->getIntegerBitWidth())); break;
      case Instruction::SExt: res = Val(mkSext(op(0), I.getType()->getIntegerBitWidth())); break;
      case Instruction::Trunc: res = Val(mkExtract(op(0), I.getType()->getIntegerBitWidth() - 1, 0)); break;
      case Instruction::PtrToInt: { unsigned w = I.getType()->getIntegerBitWidth(); E *v = op(0); res = Val(w == 64 ? v : mkExtract(v, w - 1, 0)); break; }
      case Instruction::IntToPtr: { E *v = op(0); res = Val(v->w < 64 ? mkZext(v, 64) : v); break; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: res = evalOperand(fr, I.getOperand(0)); break;
      case Instruction::Select: {
        E *c = simpUnder(cur.path, op(0));
        Val a = evalOperand(fr, I.getOperand(1)), b = evalOperand(fr, I.getOperand(2));
        res = mergeVal(c, a, b); break; }
      case Instruction::ExtractValue: {
        Val v = evalOperand(fr, I.getOperand(0));
        for (unsigned ix : cast<ExtractValueInst>(&I)->indices()) v = (*v.agg)[ix];
        res = v; break; }
      case Instruction::InsertValue: {
        auto *iv = cast<InsertValueInst>(&I);
        Val v = evalOperand(fr, I.getOperand(0)), x = evalOperand(fr, I.getOperand(1));
        std::function<Val(Val, ArrayRef<unsigned>)> ins = [&](Val b, ArrayRef<unsigned> ix) -> Val {
          if (ix.empty()) return x;
          Val r; r.agg = std::make_shared<std::vector<Val>>(*b.agg); (*r.agg)[ix[0]] = ins((*b.agg)[ix[0]], ix.drop_front()); return r; };
        res = ins(v, iv->getIndices()); break; }
      case Instruction::Call: res = execCall(fr, cur, cast<CallBase>(&I)); break;
      case Instruction::FAdd: res = Val(fpOp("add", op(0)->w, {op(0), op(1)})); break;
      case Instruction::FSub: res = Val(fpOp("sub", op(0)->w, {op(0), op(1)})); break;
      case Instruction::FMul: res = Val(fpOp("mul", op(0)->w, {op(0), op(1)})); break;
      case Instruction::FDiv: res = Val(fpOp("div", op(0)->w, {op(0), op(1)})); break;
      case Instruction::FNeg: { E *v = op(0); res = Val(mkXor(v, mkConst(v->w, 1ull << (v->w - 1)))); break; }
      case Instruction::FCmp: res = Val(fpOp("cmp" + std::to_string(cast<FCmpInst>(&I)->getPredicate()), 1, {op(0), op(1)})); break;
      case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: {
        unsigned w = DL->getTypeSizeInBits(I.getType()).getFixedValue(); if (w > 64) w = 64;
        res = Val(fpOp(I.getOpcodeName() + std::to_string(w), w, {op(0)})); break; }
      case Instruction::Fence: break;
      default: die(str("instruction ") + I.getOpcodeName() + " at " + locOf(&I));
      }
      if (cur.dead) break;
      if (!I.getType()->isVoidTy()) fr.env[&I] = res;
    }
  }
  // reset loop counters is per frame; release stack objects
  if (haveRet) {
    for (uint32_t id : fr.allocas) { auto &r = objRef(retSt, id); r = nullptr; }
    st = std::move(retSt);
  } else st.dead = true;
  callDepth--;
  return retVal;
}

// ------------------------------------------------------------ externals
static E *eqBytes(State &st, E *p, E *q, uint32_t n, const str &loc) {
  std::vector<Slot> a, b;
  gatherSlots(st, p, n, loc, a); gatherSlots(st, q, n, loc, b);
  E *r = mkTrue();
  for (uint32_t i = 0; i < n;) {
    if (a[i] == b[i]) { i++; continue; }
    uint32_t ext = std::max(slotExtent(&a[i], n - i), slotExtent(&b[i], n - i));
    if (!ext) ext = 1;
    r = mkAnd(r, mkEq(slotsLoad(&a[i], ext), slotsLoad(&b[i], ext)));
    i += ext;
  }
  return r;
}
static bool startsWith(const str &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

static Val externalCall(Frame &fr, State &st, CallBase *cb, Function *f, std::vector<Val> &a, bool &handled) {
  handled = true;
  str n = f->getName().str();
  str loc = locOf(cb);
  Type *rt = cb->getType();
  if (f->isIntrinsic()) {
    Intrinsic::ID id = f->getIntrinsicID();
    switch (id) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::assume: return Val();
    case Intrinsic::stacksave: return Val(mkConst(64, 0));
    case Intrinsic::invariant_start: return Val(mkConst(64, 0));
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      E *len = a[2].s;
      if (!isC(len)) {
        // symbolic length: enumerate
        uint64_t lo = len->lo, hi = len->hi; factBounds(st.path, len, lo, hi);
        if (hi - lo > 4096) die("memcpy with symbolic length at " + loc);
        bool have = false; State acc;
        for (uint64_t k = lo; k <= hi; k++) {
          E *c = simpUnder(st.path, mkEq(len, mkConst(64, k))); if (isF(c)) continue;
          State s2 = st; addCond(s2, c); if (s2.dead || !feasible(s2.path, mkTrue())) continue;
          std::vector<Slot> sl; gatherSlots(s2, a[1].s, k, loc, sl); if (!s2.dead) scatterSlots(s2, a[0].s, k, sl, loc);
          if (s2.dead) continue;
          if (!have) { acc = s2; have = true; } else { E *sel; mergeState(acc, s2, sel); }
        }
        if (!have) { st.dead = true; return Val(); }
        st = acc; return Val();
      }
      std::vector<Slot> sl; gatherSlots(st, a[1].s, len->k, loc, sl); if (st.dead) return Val();
      scatterSlots(st, a[0].s, len->k, sl, loc); return Val(); }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      E *len = a[2].s; if (!isC(len)) die("memset with symbolic length at " + loc);
      std::vector<Slot> sl(len->k, Slot{a[1].s, 0, 0}); scatterSlots(st, a[0].s, len->k, sl, loc); return Val(); }
    case Intrinsic::ctpop: return Val(popcount(a[0].s));
    case Intrinsic::cttz: return Val(ctz(a[0].s));
    case Intrinsic::ctlz: return Val(clz(a[0].s));
    case Intrinsic::bswap: { E *x = a[0].s; E *r = nullptr; for (unsigned i = 0; i < x->w / 8u; i++) { E *b = mkExtract(x, 8 * i + 7, 8 * i); r = r ? mkConcat(r, b) : b; } return Val(r); }
    case Intrinsic::bitreverse: { E *x = a[0].s; E *r = nullptr; for (unsigned i = 0; i < x->w; i++) { E *b = mkExtract(x, i, i); r = r ? mkConcat(r, b) : b; } return Val(r); }
    case Intrinsic::umin: return Val(mkIte(mkUlt(a[0].s, a[1].s), a[0].s, a[1].s));
    case Intrinsic::umax: return Val(mkIte(mkUlt(a[0].s, a[1].s), a[1].s, a[0].s));
    case Intrinsic::smin: return Val(mkIte(mkSlt(a[0].s, a[1].s), a[0].s, a[1].s));
    case Intrinsic::smax: return Val(mkIte(mkSlt(a[0].s, a[1].s), a[1].s, a[0].s));
    case Intrinsic::abs: { E *x = a[0].s; return Val(mkIte(mkSlt(x, mkConst(x->w, 0)), mkSub(mkConst(x->w, 0), x), x)); }
    case Intrinsic::fabs: { E *x = a[0].s; return Val(mkAnd(x, mkConst(x->w, maskw(x->w - 1)))); }
    case Intrinsic::expect: case Intrinsic::ssa_copy: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return a[0];
    case Intrinsic::is_constant: return Val(mkFalse());
    case Intrinsic::objectsize: return Val(mkConst(64, ~0ull));
    case Intrinsic::fshl: case Intrinsic::fshr: {
      E *x = a[0].s, *y = a[1].s, *s = mkDiv(UREM, a[2].s, mkConst(x->w, x->w)); unsigned w = x->w;
      E *inv = mkSub(mkConst(w, w), s); E *z = mkEq(s, mkConst(w, 0));
      if (id == Intrinsic::fshl) return Val(mkIte(z, x, mkOr(mkShl(x, s), mkLshr(y, inv))));
      return Val(mkIte(z, y, mkOr(mkLshr(y, s), mkShl(x, inv)))); }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: {
      E *x = a[0].s, *y = a[1].s, *r, *o; unsigned w = x->w;
      if (id == Intrinsic::uadd_with_overflow) { r = mkAdd(x, y); o = mkUlt(r, x); }
      else if (id == Intrinsic::usub_with_overflow) { r = mkSub(x, y); o = mkUlt(x, y); }
      else if (id == Intrinsic::umul_with_overflow) { if (w > 32) { if (isC(y) && x->hi <= ~0ull / (y->k ? y->k : 1)) { r = mkMul(x, y); o = mkFalse(); } else if (isC(x) && isC(y)) { r = mkMul(x, y); unsigned __int128 t = (unsigned __int128)x->k * y->k; o = mkConst(1, t > maskw(w)); } else die("umul.overflow"); } else { E *t = mkMul(mkZext(x, 2 * w), mkZext(y, 2 * w)); r = mkExtract(t, w - 1, 0); o = mkNot(mkEq(mkExtract(t, 2 * w - 1, w), mkConst(w, 0))); } }
      else { bool sub = id == Intrinsic::ssub_with_overflow; r = sub ? mkSub(x, y) : mkAdd(x, y); E *sx_ = mkExtract(x, w - 1, w - 1), *sy = mkExtract(y, w - 1, w - 1), *sr = mkExtract(r, w - 1, w - 1); if (sub) sy = mkNot(sy); o = mkAnd(mkEq(sx_, sy), mkNot(mkEq(sr, sx_))); }
      Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(Val(r)); v.agg->push_back(Val(o)); return v; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: oblige(st, mkFalse(), "trap is not reached", "ub", loc); st.dead = true; return Val();
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::fma: case Intrinsic::fmuladd: case Intrinsic::sqrt: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::pow: case Intrinsic::log2: case Intrinsic::log: {
      std::vector<E *> es; for (auto &v : a) es.push_back(v.s); return Val(fpOp(Intrinsic::getBaseName(id).str(), DL->getTypeSizeInBits(rt).getFixedValue(), es)); }
    case Intrinsic::vastart: case Intrinsic::vaend: return Val();
    default: die("intrinsic " + n + " at " + loc);
    }
  }
  if (startsWith(n, "vc_")) {
    if (n == "vc_assume") { E *c = a[0].s; addCond(st, simpUnder(st.path, c->w == 1 ? c : mkNot(mkEq(c, mkConst(c->w, 0))))); return Val(); }
    if (n == "vc_assert") { E *c = a[0].s; if (c->w != 1) c = mkNot(mkEq(c, mkConst(c->w, 0))); oblige(st, c, readCStr(st, a[1].s), "assert", loc); return Val(); }
    if (n == "vc_cover") { covers.push_back({readCStr(st, a[0].s), pathConj(st.path), ""}); return Val(); }
    if (n == "vc_choose") {
      int cnt = a[0].s->k;
      if (choicePos == choices.size()) { choices.push_back(0); choiceN.push_back(cnt); while (splitChoice(choicePos)); }
      return Val(mkConst(32, choices[choicePos++]));
    }
    if (n == "vc_allow_exit") { allowExit = true; return Val(); }
    if (n == "vc_u64" || n == "vc_u32" || n == "vc_u16" || n == "vc_u8" || n == "vc_bool") {
      unsigned w = n == "vc_u64" ? 64 : n == "vc_u32" ? 32 : n == "vc_u16" ? 16 : n == "vc_u8" ? 8 : 1;
      str nm = uniq(readCStr(st, a[0].s));
      return Val(mkVar(w, nm, 0, (w + 7) / 8, false));
    }
    if (n == "vc_havoc") {
      E *p = a[0].s; if (!isC(a[1].s)) die("vc_havoc size");
      uint32_t sz = a[1].s->k; str nm = uniq(readCStr(st, a[2].s));
      std::vector<Target> ts; resolvePtr(p, mkTrue(), ts);
      std::vector<Target> live; for (auto &t : ts) if (!isF(simpUnder(st.path, t.cond))) live.push_back(t);
      if (live.size() != 1 || live[0].obj == 0) die("vc_havoc of non-object at " + loc);
      uint32_t b = newBase(nm, false);
      ObjInfo &oi = infos[live[0].obj];
      std::vector<Slot> sl(sz); for (uint32_t i = 0; i < sz; i++) sl[i] = Slot{nullptr, i, b};
      if (isC(live[0].off)) {
        if (oi.gv) if (auto L = gvLayout(oi.gv)) { bases[b].layout = L; bases[b].layoutOff = live[0].off->k; }
        if (live[0].off->k + sz > oi.size) die("vc_havoc past object " + oi.name);
      }
      scatterSlots(st, p, sz, sl, loc);
      return Val();
    }
    if (n == "vc_array") { // vc_array(ptr,size,elem,name): whole object becomes array backed & arbitrary
      std::vector<Target> ts; resolvePtr(a[0].s, mkTrue(), ts);
      if (ts.size() != 1 || !isC(ts[0].off, 0) || ts[0].obj == 0) die("vc_array needs a whole object");
      uint32_t id = ts[0].obj; unsigned eb = a[2].s->k;
      infos[id].elem = eb; Obj *o = objForWrite(st, id); o->pages.clear(); o->arr = mkABase(8 * eb, uniq(readCStr(st, a[3].s)));
      return Val();
    }
    if (n == "vc_new_array") { // (size, elem, name)
      uint32_t id = newObj(st, readCStr(st, a[2].s), a[0].s->k, ObjInfo::HEAP); infos[id].elem = a[1].s->k;
      Obj *o = objForWrite(st, id); o->arr = mkABase(8 * infos[id].elem, uniq(readCStr(st, a[2].s))); return Val(mkPtr(id));
    }
    if (n == "vc_arr_copy") { // (dst, src): dst array object := src array object
      std::vector<Target> t1, t2; resolvePtr(a[0].s, mkTrue(), t1); resolvePtr(a[1].s, mkTrue(), t2);
      objForWrite(st, t1[0].obj)->arr = objForRead(st, t2[0].obj)->arr; return Val();
    }
    if (n == "vc_replace") {
      auto fn = [&](E *p) { std::vector<Target> ts; resolvePtr(p, mkTrue(), ts); if (ts.size() != 1 || infos[ts[0].obj].kind != ObjInfo::FUNC) die("vc_replace: not a function at " + loc); return infos[ts[0].obj].fn; };
      replaced[fn(a[0].s)] = fn(a[1].s); return Val();
    }
    if (n == "vc_unreplace") { replaced.clear(); return Val(); }
    if (n == "vc_eq") { if (!isC(a[2].s)) die("vc_eq size"); return Val(eqBytes(st, a[0].s, a[1].s, a[2].s->k, loc)); }
    if (n == "vc_loop_queries") { if (!isC(a[0].s)) die("vc_loop_queries"); loopQueries = a[0].s->k != 0; return Val(); }
    if (n == "vc_feasible_prune") { if (!feasible(st.path, mkTrue())) st.dead = true; return Val(); }
    if (n == "vc_split") { return Val(); }
    if (n == "vc_uf") { // (name, n, a0,a1,a2,a3) -> u32, uninterpreted
      std::vector<E *> as; for (unsigned i = 0; i < a[1].s->k; i++) as.push_back(a[2 + i].s);
      return Val(mkUF(readCStr(st, a[0].s), 32, as));
    }
    if (n == "vc_print") { fprintf(stderr, "vc_print %s: %s\n", readCStr(st, a[0].s).c_str(), exprStr(a[1].s, 8).c_str()); return Val(); }
    if (f->isDeclaration()) die("unknown vc intrinsic " + n);
  }
  if (startsWith(n, "_ZNSo") || startsWith(n, "_ZStls") || startsWith(n, "_ZSt4endl") || startsWith(n, "_ZSt5flush") || startsWith(n, "_ZSt16__ostream_insert") || startsWith(n, "_ZNKSt5ctype") || startsWith(n, "_ZNSt8ios_base4Init") || startsWith(n, "_ZNSt9basic_ios") || startsWith(n, "_ZNSt8ios_base")) {
    if (rt->isVoidTy()) return Val();
    if (rt->isPointerTy()) return a[0];
    return Val(mkConst(DL->getTypeSizeInBits(rt).getFixedValue(), 0));
  }
  if (!f->isDeclaration() && f->getName() != "vc_dummy") { handled = false; return Val(); }
  externFns.insert(demangle(n));
  // allocation
  if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t") {
    if (!isC(a[0].s)) die("allocation of symbolic size at " + loc);
    return Val(mkPtr(newObj(st, "heap", a[0].s->k, ObjInfo::HEAP)));
  }
  if (n == "calloc") { uint64_t z = a[0].s->k * a[1].s->k; uint32_t id = newObj(st, "heap", z, ObjInfo::HEAP); std::vector<Slot> sl(z, Slot{mkConst(8, 0), 0, 0}); writeSlots(st, id, 0, z, sl.data()); return Val(mkPtr(id)); }
  if (startsWith(n, "_ZdlPv") || startsWith(n, "_ZdaPv") || n == "free") return Val();
  if (n == "memcpy" || n == "memmove") { if (!isC(a[2].s)) die("memcpy symbolic len at " + loc); std::vector<Slot> sl; gatherSlots(st, a[1].s, a[2].s->k, loc, sl); if (!st.dead) scatterSlots(st, a[0].s, a[2].s->k, sl, loc); return a[0]; }
  if (n == "memset") { std::vector<Slot> sl(a[2].s->k, Slot{mkExtract(a[1].s, 7, 0), 0, 0}); scatterSlots(st, a[0].s, a[2].s->k, sl, loc); return a[0]; }
  if (n == "memcmp" || n == "bcmp") { if (!isC(a[2].s)) die("memcmp symbolic len"); E *e = eqBytes(st, a[0].s, a[1].s, a[2].s->k, loc); return Val(mkIte(e, mkConst(32, 0), mkConst(32, 1))); }
  if (n == "strlen") { return Val(mkConst(64, readCStr(st, a[0].s).size())); }
  if (n == "getenv") { assumedNotes.insert("getenv() returns null (no environment overrides)"); return Val(mkConst(64, 0)); }
  if (n == "__cxa_guard_acquire") { E *g = loadScalar(st, a[0].s, 1, false, loc); return Val(mkZext(mkEq(g, mkConst(8, 0)), 32)); }
  if (n == "__cxa_guard_release") { storeScalar(st, a[0].s, mkConst(8, 1), loc); return Val(); }
  if (n == "__cxa_atexit" || n == "atexit") return Val(mkConst(32, 0));
  if (n == "exit" || n == "abort" || n == "_exit" || n == "_ZSt9terminatev" || n == "__assert_fail" || n == "quick_exit" || n == "__cxa_pure_virtual") {
    if (!allowExit) oblige(st, mkFalse(), "simulator does not terminate (" + n + ")", "exit", loc);
    st.dead = true; return Val();
  }
  if (startsWith(n, "_ZSt") && n.find("__throw_") != str::npos) { oblige(st, mkFalse(), "no exception (" + demangle(n) + ")", "exit", loc); st.dead = true; return Val(); }
  // output: no effect on program state
  static const char *io[] = {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "putc", "fflush", "fwrite", "vfprintf", "vprintf", "perror", "fclose", "fopen", "setvbuf"};
  for (auto *x : io) if (n == x) { if (rt->isVoidTy()) return Val(); return Val(mkConst(DL->getTypeSizeInBits(rt).getFixedValue(), 0)); }
  if (n == "snprintf" || n == "sprintf" || n == "vsnprintf") { return Val(mkConst(32, 0)); }
  if (n == "time" || n == "clock" || n == "rand" || n == "_ZNSt6chrono3_V212steady_clock3nowEv" || n == "_ZNSt6chrono3_V212system_clock3nowEv") return Val(mkVar(DL->getTypeSizeInBits(rt).getFixedValue(), "env!" + n, 0, 0, true));
  if (n == "fesetround" || n == "fegetround" || n == "feclearexcept" || n == "fetestexcept") { return Val(mkVar(32, "env!" + n, 0, 0, true)); }
  if (n == "sqrtf" || n == "fmaf" || n == "sqrt" || n == "fma" || n == "log2" || n == "pow" || n == "floor" || n == "ceil") { std::vector<E *> es; for (auto &v : a) es.push_back(v.s); return Val(fpOp(n, DL->getTypeSizeInBits(rt).getFixedValue(), es)); }
  handled = false;
  return Val();
}

// ------------------------------------------------------------ solving
static str jsonEsc(const str &s) { str r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static str cadicalPath = "cadical";
struct SolveRes { char status; double t; size_t gates; char backend; }; // U unsat, S sat, ? unknown
static SolveRes solveOne(E *path, E *cond, const str &stem, int timeout, bool wantModel, bool smtCross, const std::vector<int> &ch = {}) {
  double t0 = now();
  std::vector<E *> roots{path}; if (cond) roots.push_back(mkNot(cond));
  for (int pass = 0; pass < 2; pass++) {
    Blaster bl; bl.abstractMul = pass == 0;
    std::vector<int> rl;
    // assert path conjuncts separately
    std::function<void(E *)> conj = [&](E *e) { if (e->op == AND && e->w == 1) { conj(e->a); conj(e->b); } else rl.push_back(bl.bit(e)); };
    for (E *r : roots) conj(r);
    bool abs = bl.abstracted;
    auto apps = bl.apps;
    bl.ackermann();
    // side conditions only on cones are needed, but adding all is sound
    for (int s : bl.side) rl.push_back(s);
    std::vector<int> nv;
    str cnf = stem + ".cnf";
    bl.writeCnf(cnf, rl, nv);
    str cmd = cadicalPath + " -q" + (cond ? " --unsat" : "") + " -t " + std::to_string(timeout) + (wantModel ? "" : " -n") + " " + cnf + " 2>/dev/null";
    FILE *p = popen(cmd.c_str(), "r");
    char st = '?';
    std::vector<char> model;
    static char line[1 << 16];
    while (fgets(line, sizeof line, p)) {
      if (line[0] == 's') st = strstr(line, "UNSAT") ? 'U' : strstr(line, "SATISF") ? 'S' : '?';
      else if (line[0] == 'v') { char *q = line + 1; char *e; long v; while ((v = strtol(q, &e, 10)), e != q) { q = e; size_t i = labs(v); if (model.size() <= i) model.resize(i + 1, 0); model[i] = v > 0; } }
    }
    pclose(p);
    unlink(cnf.c_str());
    if (st == 'S' && abs && pass == 0) continue;
    if (st == 'S' && wantModel) {
      FILE *f = fopen((stem + ".model").c_str(), "w");
      for (size_t i = 0; i < ch.size(); i++) fprintf(f, "var !choice %zu 8 %x\n", i, ch[i]);
      auto lv = [&](int l) -> int { int n = l >> 1; int v; if (n == 0) v = 1; else { int x = nv[n]; v = x && (size_t)x < model.size() ? model[x] : 0; } return v ^ (l & 1); };
      for (auto &vb : bl.varBits) {
        VarInfo &vi = g_vars[vb.first->k];
        if (vi.fresh) continue;
        uint64_t v = 0; for (size_t i = 0; i < vb.second.size(); i++) v |= (uint64_t)lv(vb.second[i]) << i;
        fprintf(f, "var %s %d %d %llx\n", vi.name.c_str(), vi.off, vi.len, (unsigned long long)v);
      }
      for (auto &kv : apps) for (auto &ap : kv.second) if (ap.e && g_ufs[ap.e->k].name.compare(0, 4, "arr!") == 0) {
        uint64_t ix = 0, v = 0;
        for (size_t i = 0; i < ap.args[0].size(); i++) ix |= (uint64_t)lv(ap.args[0][i]) << i;
        for (size_t i = 0; i < ap.out.size(); i++) v |= (uint64_t)lv(ap.out[i]) << i;
        fprintf(f, "arr %s %llx %zu %llx\n", g_ufs[ap.e->k].name.c_str() + 4, (unsigned long long)ix, ap.out.size() / 8, (unsigned long long)v);
      }
      for (auto &kv : apps) for (auto &ap : kv.second) if (ap.e && ap.e->op == UF && ap.e->w == 32 && ap.args.size() <= 4) {
        const str &nm = g_ufs[ap.e->k].name;
        if (nm.compare(0, 4, "arr!") == 0 || nm.compare(0, 3, "fp.") == 0) continue;
        uint64_t v = 0; for (size_t i = 0; i < ap.out.size(); i++) v |= (uint64_t)lv(ap.out[i]) << i;
        fprintf(f, "uf %s", nm.c_str());
        for (size_t k = 0; k < 4; k++) { uint64_t x = 0; if (k < ap.args.size()) for (size_t i = 0; i < ap.args[k].size(); i++) x |= (uint64_t)lv(ap.args[k][i]) << i; fprintf(f, " %llx", (unsigned long long)x); }
        fprintf(f, " %llx\n", (unsigned long long)v);
      }
      fclose(f);
    }
    char be = pass == 0 ? (abs ? 'a' : 'c') : 'c';
    if (st == '?' ) {
      // second back end
      str sm = stem + ".smt2"; writeSmt2(sm, roots);
      str c2 = "z3-new -T:" + std::to_string(timeout) + " " + sm + " 2>/dev/null";
      FILE *q = popen(c2.c_str(), "r");
      while (fgets(line, sizeof line, q)) { if (!strncmp(line, "unsat", 5)) { st = 'U'; be = 'z'; } else if (!strncmp(line, "sat", 3)) { st = 'S'; be = 'z'; } }
      pclose(q); unlink(sm.c_str());
    }
    if (smtCross && (st == 'U')) {
      str sm = stem + ".smt2"; writeSmt2(sm, roots);
      str c2 = "z3-new -T:" + std::to_string(timeout) + " " + sm + " 2>/dev/null";
      FILE *q = popen(c2.c_str(), "r"); char z = '?';
      while (fgets(line, sizeof line, q)) { if (!strncmp(line, "unsat", 5)) z = 'U'; else if (!strncmp(line, "sat", 3)) z = 'S'; }
      pclose(q); unlink(sm.c_str());
      if (z == 'S') st = 'X'; else if (z == 'U') be = 'b';
    }
    return {st, now() - t0, bl.g.size(), be};
  }
  return {'?', now() - t0, 0, 'c'};
}


// Case splits and obligations are spread over processes.  A process takes one
// of a fixed number of tokens (a pipe shared by all generators of a check) for
// every process it starts, so that the machine is never oversubscribed.
static int tokR = -1, tokW = -1;
static bool tokGet(bool block) {
  pollfd pf{tokR, POLLIN, 0};
  for (;;) {
    if (poll(&pf, 1, block ? 1000 : 0) <= 0) { if (block) continue; return false; }
    char c; ssize_t r = read(tokR, &c, 1);
    if (r == 1) return true;
    if (!block) return false;
  }
}
static void tokPut() { char c = 'x'; if (write(tokW, &c, 1) != 1) {} }
static size_t frozen, runObl, runCov; static std::vector<pid_t> kids; static int part; static volatile int *nParts;
static bool splitChoice(size_t pos) {
  if (choiceN[pos] - choices[pos] < 2 || !tokGet(false)) return false;
  int mid = choices[pos] + 1 + (choiceN[pos] - choices[pos] - 1) / 2;
  if (mid >= choiceN[pos]) mid = choiceN[pos] - 1;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (p < 0) { tokPut(); return false; }
  if (p == 0) {
    part = __sync_fetch_and_add(nParts, 1); kids.clear(); frozen = pos;
    choices.resize(pos + 1); choiceN.resize(pos + 1); choices[pos] = mid;
    obls.erase(obls.begin(), obls.begin() + runObl); covers.erase(covers.begin(), covers.begin() + runCov);
    runObl = runCov = 0; nInstr = nTriv = nFeas = 0; tFeas = 0;
    return false;
  }
  kids.push_back(p); choiceN[pos] = mid;
  return true;
}

int main(int argc, char **argv) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  str bc, driver, out = "."; int timeout = 300, jobs = 8; bool list = false, cross = false, dump = false;
  for (int i = 1; i < argc; i++) {
    str s = argv[i];
    auto nx = [&] { if (++i >= argc) die("missing value"); return str(argv[i]); };
    if (s == "--driver") driver = nx(); else if (s == "--out") out = nx(); else if (s == "--timeout") timeout = atoi(nx().c_str());
    else if (s == "--jobs") jobs = atoi(nx().c_str()); else if (s == "-v") verbose = 1; else if (s == "-vv") verbose = 2;
    else if (s == "--tokens") { str t = nx(); sscanf(t.c_str(), "%d,%d", &tokR, &tokW); }
    else if (s == "--cadical") cadicalPath = nx(); else if (s == "--list") list = true; else if (s == "--cross") cross = true; else if (s == "--dump") dump = true;
    else bc = s;
  }
  if (!getenv("VCG_STACK")) { setenv("VCG_STACK", "1", 1); rlimit r; getrlimit(RLIMIT_STACK, &r); r.rlim_cur = r.rlim_max == RLIM_INFINITY ? (4ull << 30) : r.rlim_max; setrlimit(RLIMIT_STACK, &r); execv("/proc/self/exe", argv); }
  LLVMContext ctx; SMDiagnostic err;
  auto mod = parseIRFile(bc, err, ctx);
  if (!mod) { err.print("vcg", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  if (list) { for (auto &f : *M) if (!f.isDeclaration() && f.getName().starts_with("vcd_")) printf("%s\n", f.getName().str().substr(4).c_str()); return 0; }
  Function *f = M->getFunction("vcd_" + driver);
  if (!f) die("no driver " + driver);
  if (tokR < 0) { int fd[2]; if (pipe(fd)) die("pipe"); tokR = fd[0]; tokW = fd[1]; for (int i = 0; i < jobs; i++) tokPut(); }
  fcntl(tokR, F_SETFL, fcntl(tokR, F_GETFL) | O_NONBLOCK);
  nParts = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *nParts = 1;
  tokGet(true);
  infos.push_back({"null", 0, ObjInfo::NUL, 0, nullptr, nullptr, 0});
  double t0 = now();
  State st;
  // dynamic initialisers of globals
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
    if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<uint64_t, Function *>> cs;
      for (auto &o : arr->operands()) { auto *s = cast<ConstantStruct>(o.get()); if (auto *fn = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), fn}); }
      for (auto &c : cs) { execFunction(c.second, {}, st); if (st.dead) die("global constructor did not return"); }
    }
  }
  usedFns.clear();
  State st0 = st;
  int runs = 0;
  for (;;) {
    st = st0; choicePos = 0; nameCount.clear(); replaced.clear(); allowExit = false; runObl = obls.size(); runCov = covers.size();
    execFunction(f, {}, st); runs++;
    while (choices.size() > frozen && choices.back() + 1 >= choiceN.back()) { choices.pop_back(); choiceN.pop_back(); }
    if (choices.size() <= frozen) break;
    choices.back()++;
    runObl = obls.size(); runCov = covers.size();
    for (size_t pos = frozen; pos < choices.size(); pos++) while (splitChoice(pos));
  }
  double t1 = now();
  if (verbose) fprintf(stderr, "vcg: %s: part %d, %d run(s), exec %.2fs, %llu instr, %zu obligations, %llu trivially true, %llu nodes, feas %llu (%.2fs)\n", driver.c_str(), part, runs, t1 - t0, (unsigned long long)nInstr, obls.size(), (unsigned long long)nTriv, (unsigned long long)g_nodes, (unsigned long long)nFeas, tFeas);
  size_t no = obls.size(), nc = covers.size();
  // memory-safety side conditions of one case are first tried together
  std::vector<std::vector<size_t>> items;
  for (size_t i = 0; i < nc; i++) items.push_back({i});
  std::vector<size_t> grp; 
  for (size_t i = 0; i < no; i++) {
    if (obls[i].kind == "assert" || obls[i].status == "proved" || cross) { items.push_back({nc + i}); continue; }
    if (!grp.empty() && (grp.size() >= 48 || obls[grp[0] - nc].choices != obls[i].choices)) { items.push_back(grp); grp.clear(); }
    grp.push_back(nc + i);
  }
  if (!grp.empty()) items.push_back(grp);
  size_t total = items.size();
  struct Shared { volatile int next; SolveRes r[1]; };
  size_t shsz = sizeof(Shared) + sizeof(SolveRes) * (no + nc + 1);
  Shared *sh = (Shared *)mmap(nullptr, shsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)sh, 0, shsz);
  std::vector<pid_t> helpers; bool helper = false;
  fflush(stdout); fflush(stderr);
  for (;;) {
    int i = __sync_fetch_and_add(&sh->next, 1);
    if ((size_t)i >= total) break;
    for (int k = 0; k < 8 && !helper && (size_t)sh->next + k + 1 < total && tokGet(false); k++) { pid_t p = fork(); if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); helper = true; i = __sync_fetch_and_add(&sh->next, 1); break; } if (p < 0) { tokPut(); break; } helpers.push_back(p); }
    if ((size_t)i >= total) break;
    auto &it = items[i];
    if (it.size() > 1) {
      E *d = mkFalse();
      for (size_t k : it) d = mkOr(d, mkAnd(obls[k - nc].path, mkNot(obls[k - nc].cond)));
      SolveRes r = solveOne(d, nullptr, out + "/g" + std::to_string(part * 1000000 + i), timeout, false, false);
      if (r.status == 'U') { r.t /= it.size(); for (size_t k : it) sh->r[k] = r; continue; }
    }
    for (size_t k : it) {
      str stem = out + "/q" + std::to_string(part * 1000000 + k);
      if (k < nc) { sh->r[k] = solveOne(covers[k].path, nullptr, stem, timeout, dump, false); continue; }
      auto &o = obls[k - nc];
      if (o.status == "proved") sh->r[k] = {'U', 0, 0, 's'};
      else sh->r[k] = solveOne(o.path, o.cond, stem, timeout, true, cross, o.choices);
    }
  }
  tokPut();
  if (helper) _exit(0);
  bool crashed = false;
  auto reap = [&](pid_t p) { int s; waitpid(p, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) crashed = true; };
  for (pid_t p : helpers) reap(p);
  double t2 = now();
  for (pid_t p : kids) reap(p);
  auto stn = [](char c) { return c == 'U' ? "unsat" : c == 'S' ? "sat" : c == 'X' ? "disagree" : "unknown"; };
  auto ben = [](char c) { return c == 's' ? "simplifier" : c == 'a' ? "cadical (mul/div uninterpreted)" : c == 'z' ? "z3" : c == 'b' ? "cadical+z3" : "cadical"; };
  auto chs = [](const std::vector<int> &v) { str r; for (int x : v) r += (r.empty() ? "" : ",") + std::to_string(x); return r; };
  FILE *o = fopen((out + "/part" + std::to_string(part) + ".json").c_str(), "w");
  fprintf(o, "{\"driver\":\"%s\",\"exec_s\":%.3f,\"solve_s\":%.3f,\"instructions\":%llu,\"nodes\":%llu,\"trivial_side_conditions\":%llu,\n\"covers\":[", driver.c_str(), t1 - t0, t2 - t1, (unsigned long long)nInstr, (unsigned long long)g_nodes, (unsigned long long)nTriv);
  for (size_t i = 0; i < nc; i++) fprintf(o, "%s{\"name\":\"%s\",\"status\":\"%s\",\"t\":%.2f}", i ? "," : "", jsonEsc(covers[i].name).c_str(), stn(sh->r[i].status), sh->r[i].t);
  fprintf(o, "],\n\"obligations\":[");
  for (size_t i = 0; i < no; i++) {
    auto &r = sh->r[nc + i];
    fprintf(o, "%s\n{\"name\":\"%s\",\"kind\":\"%s\",\"loc\":\"%s\",\"status\":\"%s\",\"t\":%.3f,\"gates\":%zu,\"backend\":\"%s\",\"q\":%zu,\"case\":\"%s\"}", i ? "," : "", jsonEsc(obls[i].name).c_str(), obls[i].kind.c_str(), jsonEsc(obls[i].loc).c_str(), stn(r.status), r.t, r.gates, ben(r.backend), part * 1000000 + nc + i, chs(obls[i].choices).c_str());
  }
  auto setj = [&](const char *k, const std::set<str> &s) { fprintf(o, "],\n\"%s\":[", k); bool first = true; for (auto &x : s) { fprintf(o, "%s\"%s\"", first ? "" : ",", jsonEsc(x).c_str()); first = false; } };
  std::set<str> repoFns;
  for (auto &u : usedFns) {
    Function *fn = M->getFunction(u);
    if (auto *sp = fn ? fn->getSubprogram() : nullptr) { str file = sp->getFilename().str(); if (!startsWith(file, "/")) file = sp->getDirectory().str() + "/" + file; if (file.find("/usr/") == str::npos && file.find("/verif/") == str::npos) repoFns.insert(demangle(u)); }
  }
  setj("functions", repoFns); setj("replaced", replacedFns); setj("externals", externFns); setj("notes", assumedNotes);
  fprintf(o, "]}\n");
  fclose(o);
  if (verbose) {
    for (size_t i = 0; i < nc; i++) if (sh->r[i].status != 'S' || sh->r[i].t > 5 || verbose > 1) fprintf(stderr, "  cover %-40s %s %.2f\n", covers[i].name.c_str(), stn(sh->r[i].status), sh->r[i].t);
    for (size_t i = 0; i < no; i++) { auto &r = sh->r[nc + i]; if (r.status != 'U' || r.t > 5 || verbose > 1) fprintf(stderr, "  %-9s [%s] %-50s %s %.2fs %zu gates\n", stn(r.status), chs(obls[i].choices).c_str(), obls[i].name.c_str(), obls[i].loc.c_str(), r.t, r.gates); }
    fprintf(stderr, "vcg: part %d solve %.2fs\n", part, t2 - t1);
  }
  if (!crashed && part == 0) { FILE *d = fopen((out + "/done").c_str(), "w"); fprintf(d, "%d\n", *nParts); fclose(d); }
  _exit(crashed ? 3 : 0);
}
