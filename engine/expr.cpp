#include "expr.h"
#include <algorithm>
#include <cassert>

std::vector<VarInfo> g_vars;
std::vector<E *> g_varNodes;
std::vector<UFInfo> g_ufs;
std::vector<std::string> g_arrNames;
std::vector<int> g_arrUF;
uint64_t g_nodes = 0;

namespace {
struct Key {
  Op op; uint16_t w; uint64_t k; E *a, *b, *c;
  bool operator==(const Key &o) const {
    return op == o.op && w == o.w && k == o.k && a == o.a && b == o.b && c == o.c;
  }
};
struct KeyH {
  size_t operator()(const Key &x) const {
    uint64_t h = x.op * 0x9E3779B97F4A7C15ull + x.w;
    auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
    mix(x.k); mix(x.a ? x.a->id + 1 : 0); mix(x.b ? x.b->id + 1 : 0); mix(x.c ? x.c->id + 1 : 0);
    return h;
  }
};
std::unordered_map<Key, E *, KeyH> table;
std::map<std::pair<int, std::vector<uint32_t>>, E *> ufTable;
std::map<std::string, int> ufIndex;

char *arena = nullptr; size_t arenaLeft = 0;
E *allocE() {
  if (arenaLeft < sizeof(E)) { arenaLeft = sizeof(E) * 65536; arena = (char *)malloc(arenaLeft); if (!arena) { fprintf(stderr, "oom\n"); exit(3);} }
  E *e = (E *)arena; arena += sizeof(E); arenaLeft -= sizeof(E);
  return e;
}

void computeRange(E *e) {
  uint64_t m = maskw(e->w);
  e->lo = 0; e->hi = m;
  switch (e->op) {
  case CONST: e->lo = e->hi = e->k; break;
  case ZEXT: e->lo = e->a->lo; e->hi = e->a->hi; break;
  case AND: e->hi = std::min(e->a->hi, e->b->hi); break;
  case OR: case XOR: {
    uint64_t x = e->a->hi | e->b->hi; int n = 0; while (n < 64 && (x >> n)) n++;
    e->hi = std::min(m, maskw(n == 0 ? 1 : n)); if (n == 0) e->hi = 0;
    if (e->op == OR) e->lo = std::max(e->a->lo, e->b->lo);
    break; }
  case ITE: e->lo = std::min(e->b->lo, e->c->lo); e->hi = std::max(e->b->hi, e->c->hi); break;
  case UREM: if (e->b->lo > 0) e->hi = std::min(e->a->hi, e->b->hi - 1); break;
  case UDIV: if (e->b->lo > 0) { e->hi = e->a->hi / e->b->lo; e->lo = e->a->lo / e->b->hi; } break;
  case ADD: {
    unsigned __int128 h = (unsigned __int128)e->a->hi + e->b->hi;
    if (h <= m) { e->hi = (uint64_t)h; e->lo = e->a->lo + e->b->lo; }
    else if (isC(e->b)) { // adding a "negative" constant
      uint64_t neg = (0 - e->b->k) & m;
      if (neg <= e->a->lo) { e->lo = e->a->lo - neg; e->hi = e->a->hi - neg; }
    }
    break; }
  case SUB: if (e->a->lo >= e->b->hi) { e->lo = e->a->lo - e->b->hi; e->hi = e->a->hi - e->b->lo; } break;
  case MUL: {
    unsigned __int128 h = (unsigned __int128)e->a->hi * e->b->hi;
    if (h <= m) { e->hi = (uint64_t)h; e->lo = e->a->lo * e->b->lo; } break; }
  case SHL: if (isC(e->b) && e->b->k < 64) { unsigned __int128 h = (unsigned __int128)e->a->hi << e->b->k; if (h <= m) { e->hi = (uint64_t)h; e->lo = e->a->lo << e->b->k; } } break;
  case LSHR: e->hi = e->a->hi; if (isC(e->b) && e->b->k < 64) { e->hi = e->a->hi >> e->b->k; e->lo = e->a->lo >> e->b->k; } break;
  case CONCAT: e->lo = (e->a->lo << e->b->w); e->hi = (e->a->hi << e->b->w) | maskw(e->b->w); break;
  case EXTRACT: { unsigned lo = e->k & 0xff; if (lo == 0 && e->a->hi <= m) { e->lo = e->a->lo; e->hi = e->a->hi; }
    else { uint64_t h = e->a->hi >> lo; if (h <= m) { e->hi = h; e->lo = e->a->lo >> lo; } } break; }
  default: break;
  }
}

E *intern(Op op, unsigned w, uint64_t k, E *a = nullptr, E *b = nullptr, E *c = nullptr) {
  Key key{op, (uint16_t)w, k, a, b, c};
  auto it = table.find(key);
  if (it != table.end()) return it->second;
  E *e = allocE();
  e->op = op; e->w = w; e->k = k; e->a = a; e->b = b; e->c = c; e->args = nullptr; e->id = (uint32_t)g_nodes++;
  e->hasPtr = op == PTR || ((op == ADD || op == ITE || op == SUB) && ((a && a->hasPtr) || (b && b->hasPtr) || (c && c->hasPtr)));
  if (e->w > 64) { fprintf(stderr, "vcg: width %d > 64\n", e->w); exit(3); }
  if (op < ABASE) computeRange(e); else { e->lo = 0; e->hi = ~0ull; }
  if (op != CONST && op != VAR && op < ABASE && e->lo == e->hi && op != PTR) {
    E *r = mkConst(w, e->lo);
    table.emplace(key, r);
    return r;
  }
  table.emplace(key, e);
  return e;
}
bool older(E *a, E *b) { // canonical order: constants last
  if (isC(a) != isC(b)) return !isC(a);
  return a->id < b->id;
}
} // namespace

E *mkConst(unsigned w, uint64_t v) { return intern(CONST, w, v & maskw(w)); }
E *mkVar(unsigned w, const std::string &name, int off, int len, bool fresh) {
  g_vars.push_back({name, off, len, fresh});
  E *e = intern(VAR, w, g_vars.size() - 1);
  g_varNodes.push_back(e);
  return e;
}
E *mkPtr(uint32_t obj) { return intern(PTR, 64, obj); }
E *mkUF(const std::string &name, unsigned w, std::vector<E *> args) {
  std::string key = name + "/" + std::to_string(w);
  for (auto *x : args) key += "," + std::to_string(x->w);
  auto it = ufIndex.find(key);
  int idx;
  if (it == ufIndex.end()) { idx = g_ufs.size(); g_ufs.push_back({name, (int)w}); ufIndex[key] = idx; }
  else idx = it->second;
  std::vector<uint32_t> ids; for (auto *x : args) ids.push_back(x->id);
  auto &slot = ufTable[{idx, ids}];
  if (slot) return slot;
  E *e = allocE();
  e->op = UF; e->w = w; e->k = idx; e->a = e->b = e->c = nullptr; e->args = new std::vector<E *>(args);
  e->id = (uint32_t)g_nodes++; e->hasPtr = false; e->lo = 0; e->hi = maskw(w);
  return slot = e;
}

// split a pointer expression with one PTR leaf into (obj, offset)
static bool ptrSplit(E *e, uint64_t &obj, E *&off) {
  if (e->op == PTR) { obj = e->k; off = mkConst(64, 0); return true; }
  if (e->op == ADD) {
    E *o;
    if (e->a->hasPtr && !e->b->hasPtr && ptrSplit(e->a, obj, o)) { off = mkAdd(o, e->b); return true; }
    if (e->b->hasPtr && !e->a->hasPtr && ptrSplit(e->b, obj, o)) { off = mkAdd(o, e->a); return true; }
  }
  return false;
}

E *mkAdd(E *a, E *b) {
  if (a->w != b->w) { fprintf(stderr, "add width\n"); abort(); }
  if (!older(a, b)) std::swap(a, b);
  if (isC(a) && isC(b)) return mkConst(a->w, a->k + b->k);
  if (isC(b, 0)) return a;
  if (isC(b)) {
    if (a->op == ADD && isC(a->b)) return mkAdd(a->a, mkConst(a->w, a->b->k + b->k));
    if (a->op == SUB && isC(a->a)) return mkSub(mkConst(a->w, a->a->k + b->k), a->b);
    if (a->op == ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkAdd(a->b, b), mkAdd(a->c, b));
    if (a->op == ITE && a->hasPtr) return mkIte(a->a, mkAdd(a->b, b), mkAdd(a->c, b));
  } else {
    if (a->op == ADD && isC(a->b)) return mkAdd(mkAdd(a->a, b), a->b);
    if (b->op == ADD && isC(b->b)) return mkAdd(mkAdd(a, b->a), b->b);
    if (a->op == SUB && a->b == b) return a->a;
    if (b->op == SUB && b->b == a) return b->a;
    if (a->op == ITE && a->hasPtr) return mkIte(a->a, mkAdd(a->b, b), mkAdd(a->c, b));
    if (b->op == ITE && b->hasPtr) return mkIte(b->a, mkAdd(b->b, a), mkAdd(b->c, a));
  }
  if (a->w == 1) return mkXor(a, b);
  return intern(ADD, a->w, 0, a, b);
}
E *mkSub(E *a, E *b) {
  if (isC(b)) return mkAdd(a, mkConst(a->w, 0 - b->k));
  if (a == b) return mkConst(a->w, 0);
  if (a->w == 1) return mkXor(a, b);
  if (a->hasPtr || b->hasPtr) {
    if (a->op == ITE && a->hasPtr) return mkIte(a->a, mkSub(a->b, b), mkSub(a->c, b));
    if (b->op == ITE && b->hasPtr) return mkIte(b->a, mkSub(a, b->b), mkSub(a, b->c));
    uint64_t o1, o2; E *f1, *f2;
    if (a->hasPtr && b->hasPtr && ptrSplit(a, o1, f1) && ptrSplit(b, o2, f2) && o1 == o2) return mkSub(f1, f2);
    if (a->hasPtr && !b->hasPtr && ptrSplit(a, o1, f1)) return mkAdd(mkPtr(o1), mkSub(f1, b));
  }
  if (a->op == ADD && a->a == b) return a->b;
  if (a->op == ADD && a->b == b) return a->a;
  if (b->op == ADD && b->a == a) return mkSub(mkConst(a->w, 0), b->b);
  if (a->op == ADD && isC(a->b) && b->op == ADD && isC(b->b)) return mkAdd(mkSub(a->a, b->a), mkConst(a->w, a->b->k - b->b->k));
  if (a->op == ADD && isC(a->b)) return mkAdd(mkSub(a->a, b), a->b);
  if (b->op == ADD && isC(b->b)) return mkAdd(mkSub(a, b->a), mkConst(a->w, 0 - b->b->k));
  return intern(SUB, a->w, 0, a, b);
}
E *mkMul(E *a, E *b) {
  if (!older(a, b)) std::swap(a, b);
  if (isC(a) && isC(b)) return mkConst(a->w, a->k * b->k);
  if (isC(b)) {
    if (b->k == 0) return b;
    if (b->k == 1) return a;
    if ((b->k & (b->k - 1)) == 0) { int n = __builtin_ctzll(b->k); return mkShl(a, mkConst(a->w, n)); }
    if (a->op == ADD && isC(a->b)) return mkAdd(mkMul(a->a, b), mkConst(a->w, a->b->k * b->k));
    if (a->op == ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkMul(a->b, b), mkMul(a->c, b));
  }
  if (a->w == 1) return mkAnd(a, b);
  return intern(MUL, a->w, 0, a, b);
}
E *mkDiv(Op op, E *a, E *b) {
  if (isC(a) && isC(b) && b->k != 0) {
    uint64_t r = 0; unsigned w = a->w;
    int64_t x = sx(a->k, w), y = sx(b->k, w);
    switch (op) {
    case UDIV: r = a->k / b->k; break;
    case UREM: r = a->k % b->k; break;
    case SDIV: r = (y == -1) ? (uint64_t)0 - (uint64_t)x : (uint64_t)(x / y); break;
    case SREM: r = (y == -1) ? 0 : (uint64_t)(x % y); break;
    default: abort();
    }
    return mkConst(w, r);
  }
  if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) {
    if (op == UDIV) return mkLshr(a, mkConst(a->w, __builtin_ctzll(b->k)));
    if (op == UREM) return mkAnd(a, mkConst(a->w, b->k - 1));
  }
  uint64_t half = 1ull << (a->w - 1);
  if ((op == SDIV || op == SREM) && a->hi < half && b->hi < half && b->lo > 0) return mkDiv(op == SDIV ? UDIV : UREM, a, b);
  if (op == UREM && b->lo > 0 && a->hi < b->lo) return a;
  if (op == UDIV && b->lo > 0 && a->hi < b->lo) return mkConst(a->w, 0);
  if (isC(b) && a->op == ITE && (isC(a->b) || isC(a->c)) && b->k != 0) return mkIte(a->a, mkDiv(op, a->b, b), mkDiv(op, a->c, b));
  // narrow zero extended unsigned division
  if ((op == UREM || op == UDIV) && a->op == ZEXT && isC(b) && b->k && b->k <= maskw(a->a->w))
    return mkZext(mkDiv(op, a->a, mkConst(a->a->w, b->k)), a->w);
  return intern(op, a->w, 0, a, b);
}
// Upper bound of the number of one bits (decides loops that clear the lowest set bit).
static bool lowestCleared(E *x, E *y) { return y->op == ADD && y->a == x && isC(y->b, maskw(y->w)); }
static int popBound(E *e) {
  static std::unordered_map<E *, int> memo;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  int r = e->w; 
  switch (e->op) {
  case CONST: r = __builtin_popcountll(e->k); break;
  case AND: r = lowestCleared(e->a, e->b) ? popBound(e->a) - 1 : lowestCleared(e->b, e->a) ? popBound(e->b) - 1 : std::min(popBound(e->a), popBound(e->b)); break;
  case OR: case XOR: r = popBound(e->a) + popBound(e->b); break;
  case ZEXT: r = popBound(e->a); break;
  case CONCAT: r = popBound(e->a) + popBound(e->b); break;
  case EXTRACT: r = popBound(e->a); break;
  case ITE: r = std::max(popBound(e->b), popBound(e->c)); break;
  default: break;
  }
  r = std::max(0, std::min(r, (int)e->w));
  return memo[e] = r;
}
static bool isNotOf(E *a, E *b) { return a->op == XOR && isC(a->b, maskw(a->w)) && a->a == b; }
E *mkNot(E *a) { return mkXor(a, mkConst(a->w, maskw(a->w))); }
E *mkAnd(E *a, E *b) {
  if (!older(a, b)) std::swap(a, b);
  if (isC(a) && isC(b)) return mkConst(a->w, a->k & b->k);
  if (isC(b, 0)) return b;
  if (isC(b, maskw(b->w))) return a;
  if (a == b) return a;
  if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(a->w, 0);
  if (a->w > 1 && ((lowestCleared(a, b) && popBound(a) <= 1) || (lowestCleared(b, a) && popBound(b) <= 1))) return mkConst(a->w, 0);
  if (a->w == 1) {
    // absorption one level deep
    if (a->op == AND && (a->a == b || a->b == b)) return a;
    if (b->op == AND && (b->a == a || b->b == a)) return b;
    if (a->op == AND && (isNotOf(a->a, b) || isNotOf(b, a->a) || isNotOf(a->b, b) || isNotOf(b, a->b))) return mkFalse();
    if (b->op == AND && (isNotOf(b->a, a) || isNotOf(a, b->a) || isNotOf(b->b, a) || isNotOf(a, b->b))) return mkFalse();
    if (a->op == OR && (a->a == b || a->b == b)) return b;
    if (b->op == OR && (b->a == a || b->b == a)) return a;
    if (a->op == OR) { if (isNotOf(a->a, b) || isNotOf(b, a->a)) return mkAnd(a->b, b); if (isNotOf(a->b, b) || isNotOf(b, a->b)) return mkAnd(a->a, b); }
    if (b->op == OR) { if (isNotOf(b->a, a) || isNotOf(a, b->a)) return mkAnd(b->b, a); if (isNotOf(b->b, a) || isNotOf(a, b->b)) return mkAnd(b->a, a); }
    if (a->op == EQ && b->op == EQ && a->a == b->a && isC(a->b) && isC(b->b) && a->b->k != b->b->k) return mkFalse();
  } else if (isC(b)) {
    if (a->op == AND && isC(a->b)) return mkAnd(a->a, mkConst(a->w, a->b->k & b->k));
    // low mask -> zext(extract)
    uint64_t k = b->k;
    if ((k & (k + 1)) == 0) {
      if (a->hi <= k) return a;
      int n = 64 - __builtin_clzll(k);
      return mkZext(mkExtract(a, n - 1, 0), a->w);
    }
    if (a->op == ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkAnd(a->b, b), mkAnd(a->c, b));
    if (a->op == ZEXT) { uint64_t kk = k & maskw(a->a->w); return mkZext(mkAnd(a->a, mkConst(a->a->w, kk)), a->w); }
  }
  if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkZext(mkAnd(a->a, b->a), a->w);
  return intern(AND, a->w, 0, a, b);
}
E *mkOr(E *a, E *b) {
  if (!older(a, b)) std::swap(a, b);
  if (isC(a) && isC(b)) return mkConst(a->w, a->k | b->k);
  if (isC(b, 0)) return a;
  if (isC(b, maskw(b->w))) return b;
  if (a == b) return a;
  if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(a->w, maskw(a->w));
  if (a->w == 1) {
    if (a->op == OR && (a->a == b || a->b == b)) return a;
    if (b->op == OR && (b->a == a || b->b == a)) return b;
    if (a->op == AND && (a->a == b || a->b == b)) return b;
    if (b->op == AND && (b->a == a || b->b == a)) return a;
    if (a->op == OR && (isNotOf(a->a, b) || isNotOf(b, a->a) || isNotOf(a->b, b) || isNotOf(b, a->b))) return mkTrue();
    if (b->op == OR && (isNotOf(b->a, a) || isNotOf(a, b->a) || isNotOf(b->b, a) || isNotOf(a, b->b))) return mkTrue();
    if (a->op == AND && b->op == AND) { // (x&y)|(x&!y) -> x
      E *p[2] = {a->a, a->b}, *q[2] = {b->a, b->b};
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
        if (p[i] == q[j] && (isNotOf(p[1 - i], q[1 - j]) || isNotOf(q[1 - j], p[1 - i]))) return p[i];
    }
    if (a->op == AND) { // (x & !b) | b -> x | b
      if (isNotOf(a->a, b) || isNotOf(b, a->a)) return mkOr(a->b, b);
      if (isNotOf(a->b, b) || isNotOf(b, a->b)) return mkOr(a->a, b);
    }
    if (b->op == AND) {
      if (isNotOf(b->a, a) || isNotOf(a, b->a)) return mkOr(b->b, a);
      if (isNotOf(b->b, a) || isNotOf(a, b->b)) return mkOr(b->a, a);
    }
  }
  if (a->w > 1) {
    if (isC(b) && a->op == OR && isC(a->b)) return mkOr(a->a, mkConst(a->w, a->b->k | b->k));
    if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkZext(mkOr(a->a, b->a), a->w);
    // disjoint field composition: zext(lo) | shl(hi,n) -> concat
    auto tryCat = [&](E *lo, E *hi) -> E * {
      if (hi->op == SHL && isC(hi->b) && hi->b->k < a->w && hi->b->k > 0) {
        unsigned n = hi->b->k;
        if (lo->hi <= maskw(n)) return mkConcat(mkExtract(hi->a, a->w - 1 - n, 0), mkExtract(lo, n - 1, 0));
      }
      if (hi->op == CONCAT && isC(hi->b, 0) && lo->hi <= maskw(hi->b->w)) return mkConcat(hi->a, mkExtract(lo, hi->b->w - 1, 0));
      return nullptr;
    };
    if (E *r = tryCat(a, b)) return r;
    if (E *r = tryCat(b, a)) return r;
    if (isC(b) && a->op == ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkOr(a->b, b), mkOr(a->c, b));
  }
  return intern(OR, a->w, 0, a, b);
}
E *mkXor(E *a, E *b) {
  if (!older(a, b)) std::swap(a, b);
  if (isC(a) && isC(b)) return mkConst(a->w, a->k ^ b->k);
  if (isC(b, 0)) return a;
  if (a == b) return mkConst(a->w, 0);
  if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(a->w, maskw(a->w));
  if (isC(b)) {
    if (a->op == XOR && isC(a->b)) return mkXor(a->a, mkConst(a->w, a->b->k ^ b->k));
    if (a->op == ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkXor(a->b, b), mkXor(a->c, b));
  }
  return intern(XOR, a->w, 0, a, b);
}
// shift amounts >= width yield 0 / sign fill here; callers guard the C-level UB.
E *mkShl(E *a, E *b) {
  if (isC(b)) {
    uint64_t n = b->k;
    if (n == 0) return a;
    if (n >= a->w) return mkConst(a->w, 0);
    if (isC(a)) return mkConst(a->w, a->k << n);
    if (a->op == SHL && isC(a->b)) { uint64_t t = n + a->b->k; return t >= a->w ? mkConst(a->w, 0) : mkShl(a->a, mkConst(a->w, t)); }
    if (a->op == ADD && isC(a->b)) return mkAdd(mkShl(a->a, b), mkConst(a->w, a->b->k << n));
    if (a->op == ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkShl(a->b, b), mkShl(a->c, b));
  }
  if (isC(a, 0)) return a;
  return intern(SHL, a->w, 0, a, b);
}
E *mkLshr(E *a, E *b) {
  if (isC(b)) {
    uint64_t n = b->k;
    if (n == 0) return a;
    if (n >= a->w) return mkConst(a->w, 0);
    if (isC(a)) return mkConst(a->w, a->k >> n);
    if (a->op == SHL && isC(a->b) && a->b->k == n && a->a->hi <= (maskw(a->w) >> n)) return a->a;
    if (a->op == SHL && isC(a->b) && a->b->k > n && a->a->hi <= (maskw(a->w) >> a->b->k)) return mkShl(a->a, mkConst(a->w, a->b->k - n));
    if (a->op == ADD && isC(a->b) && (a->b->k & maskw(n)) == 0 && a->a->op == SHL && isC(a->a->b) && a->a->b->k >= n && a->lo >= a->b->k && a->hi >= a->lo) {
      // (x<<k)+c with no overflow (range established): shift both
      unsigned __int128 h = (unsigned __int128)a->a->hi + a->b->k;
      if (h <= maskw(a->w) && a->a->a->hi <= (maskw(a->w) >> a->a->b->k))
        return mkAdd(mkLshr(a->a, b), mkConst(a->w, a->b->k >> n));
    }
    return mkZext(mkExtract(a, a->w - 1, n), a->w);
  }
  if (isC(a, 0)) return a;
  return intern(LSHR, a->w, 0, a, b);
}
E *mkAshr(E *a, E *b) {
  if (!isC(a) && a->w > 1 && a->hi <= maskw(a->w - 1)) return mkLshr(a, b);
  if (isC(b)) {
    uint64_t n = b->k;
    if (n == 0) return a;
    if (n >= a->w) n = a->w - 1;
    if (isC(a)) return mkConst(a->w, (uint64_t)(sx(a->k, a->w) >> n));
    if (n == 0) return a;
    return mkSext(mkExtract(a, a->w - 1, n), a->w);
  }
  if (isC(a, 0)) return a;
  return intern(ASHR, a->w, 0, a, b);
}
static E *mkConcat0(E *hi, E *lo) {
  if (hi->w + lo->w > 64) { fprintf(stderr, "vcg: concat wider than 64\n"); exit(3); }
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst(w, (hi->k << lo->w) | lo->k);
  if (isC(hi, 0)) return mkZext(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && (hi->k & 0xff) == (lo->k >> 8) + 1)
    return mkExtract(hi->a, hi->k >> 8, lo->k & 0xff);
  if (lo->op == CONCAT && hi->op == EXTRACT && lo->a->op == EXTRACT && hi->a == lo->a->a && (hi->k & 0xff) == (lo->a->k >> 8) + 1)
    return mkConcat(mkExtract(hi->a, hi->k >> 8, lo->a->k & 0xff), lo->b);
  if (hi->op == CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (isC(hi) && lo->op == CONCAT && isC(lo->a)) return mkConcat(mkConst(hi->w + lo->a->w, (hi->k << lo->a->w) | lo->a->k), lo->b);
  if (hi->op == ZEXT) return mkZext(mkConcat(hi->a, lo), w);
  if (hi->op == ITE && lo->op == ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return intern(CONCAT, w, 0, hi, lo);
}
static E *mkExtract0(E *a, unsigned hi, unsigned lo);
static E *mkEq0(E *a, E *b);
namespace {
struct MKey { uint64_t x, y; bool operator==(const MKey &o) const { return x == o.x && y == o.y; } };
struct MKeyH { size_t operator()(const MKey &k) const { uint64_t h = k.x * 0x9E3779B97F4A7C15ull ^ (k.y + 0x7F4A7C15) * 0xff51afd7ed558ccdull; return h ^ (h >> 31); } };
std::unordered_map<MKey, E *, MKeyH> exMemo, eqMemo, ccMemo;
}
E *mkConcat(E *hi, E *lo) {
  if (isC(hi) && isC(lo)) return mkConcat0(hi, lo);
  MKey k{hi->id, lo->id};
  auto it = ccMemo.find(k); if (it != ccMemo.end()) return it->second;
  E *r = mkConcat0(hi, lo); ccMemo.emplace(k, r); return r;
}
E *mkExtract(E *a, unsigned hi, unsigned lo) {
  if (isC(a) || (lo == 0 && hi + 1u == a->w)) return mkExtract0(a, hi, lo);
  MKey k{a->id, ((uint64_t)hi << 8) | lo};
  auto it = exMemo.find(k); if (it != exMemo.end()) return it->second;
  E *r = mkExtract0(a, hi, lo); exMemo.emplace(k, r); return r;
}
E *mkEq(E *a, E *b) {
  if (a == b) return mkTrue();
  MKey k{a->id, b->id};
  auto it = eqMemo.find(k); if (it != eqMemo.end()) return it->second;
  E *r = mkEq0(a, b); eqMemo.emplace(k, r); return r;
}
static E *mkExtract0(E *a, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1;
  if (w == a->w) return a;
  if (isC(a)) return mkConst(w, a->k >> lo);
  switch (a->op) {
  case EXTRACT: { unsigned b = a->k & 0xff; return mkExtract(a->a, hi + b, lo + b); }
  case CONCAT:
    if (hi < a->b->w) return mkExtract(a->b, hi, lo);
    if (lo >= a->b->w) return mkExtract(a->a, hi - a->b->w, lo - a->b->w);
    return mkConcat(mkExtract(a->a, hi - a->b->w, 0), mkExtract(a->b, a->b->w - 1, lo));
  case ZEXT:
    if (hi < a->a->w) return mkExtract(a->a, hi, lo);
    if (lo >= a->a->w) return mkConst(w, 0);
    return mkZext(mkExtract(a->a, a->a->w - 1, lo), w);
  case SEXT:
    if (hi < a->a->w) return mkExtract(a->a, hi, lo);
    if (lo < a->a->w) return mkSext(mkExtract(a->a, a->a->w - 1, lo), w);
    return mkSext(mkExtract(a->a, a->a->w - 1, a->a->w - 1), w);
  case AND: return mkAnd(mkExtract(a->a, hi, lo), mkExtract(a->b, hi, lo));
  case OR: return mkOr(mkExtract(a->a, hi, lo), mkExtract(a->b, hi, lo));
  case XOR: return mkXor(mkExtract(a->a, hi, lo), mkExtract(a->b, hi, lo));
  case ITE: if (!a->hasPtr) return mkIte(a->a, mkExtract(a->b, hi, lo), mkExtract(a->c, hi, lo)); break;
  case SHL: if (isC(a->b)) { unsigned n = a->b->k;
      if (lo >= n) return mkExtract(a->a, hi - n, lo - n);
      if (hi < n) return mkConst(w, 0);
      return mkConcat(mkExtract(a->a, hi - n, 0), mkConst(n - lo, 0)); } break;
  case ADD: if (lo == 0 && !a->hasPtr) return mkAdd(mkExtract(a->a, hi, 0), mkExtract(a->b, hi, 0)); break;
  case SUB: if (lo == 0 && !a->hasPtr) return mkSub(mkExtract(a->a, hi, 0), mkExtract(a->b, hi, 0)); break;
  case MUL: if (lo == 0) return mkMul(mkExtract(a->a, hi, 0), mkExtract(a->b, hi, 0)); break;
  default: break;
  }
  return intern(EXTRACT, w, ((uint64_t)hi << 8) | lo, a);
}
E *mkZext(E *a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) { fprintf(stderr, "zext narrower\n"); abort(); }
  if (isC(a)) return mkConst(w, a->k);
  if (a->op == ZEXT) return mkZext(a->a, w);
  return intern(ZEXT, w, 0, a);
}
E *mkSext(E *a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(w, (uint64_t)sx(a->k, a->w));
  if (a->op == SEXT) return mkSext(a->a, w);
  if (a->op == ZEXT && a->w > a->a->w) return mkZext(a->a, w);
  if (a->hi <= maskw(a->w - 1) && a->w > 1) return mkZext(a, w);
  if (a->op == ITE && (isC(a->b) || isC(a->c)) && a->w > 1) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
  return intern(SEXT, w, 0, a);
}
E *mkIte(E *c, E *a, E *b) {
  if (a == b) return a;
  if (isC(c)) return c->k ? a : b;
  if (a->op >= ABASE) return mkAIte(c, a, b);
  if (a->w != b->w) { fprintf(stderr, "ite width %d %d\n", a->w, b->w); abort(); }
  if (c->op == XOR && isC(c->b, 1)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return a->k ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->k ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
    if (isNotOf(a, b) || isNotOf(b, a)) return mkNot(mkXor(c, a));
  }
  if (a->op == ITE && a->a == c) return mkIte(c, a->b, b);
  if (b->op == ITE && b->a == c) return mkIte(c, a, b->c);
  if (b->op == ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
  if (a->op == ITE && a->c == b) return mkIte(mkAnd(c, a->a), a->b, b);
  if (a->op == ITE && a->b == b) return mkIte(mkAnd(c, mkNot(a->a)), a->c, b);
  // c == (x==k): ite(x==k, k, x) -> x
  if (c->op == EQ && isC(c->b)) {
    if (a == c->b && b == c->a) return b;
  }
  if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w && a->a->w > 0) return mkZext(mkIte(c, a->a, b->a), a->w);
  if (a->op == ZEXT && isC(b) && b->k <= maskw(a->a->w)) return mkZext(mkIte(c, a->a, mkConst(a->a->w, b->k)), a->w);
  if (b->op == ZEXT && isC(a) && a->k <= maskw(b->a->w)) return mkZext(mkIte(c, mkConst(b->a->w, a->k), b->a), a->w);
  if (a->w > 1 && a->op == CONST && b->op == CONST && a->k <= 1 && b->k <= 1)
    return mkZext(mkIte(c, mkConst(1, a->k), mkConst(1, b->k)), a->w);
  return intern(ITE, a->w, 0, c, a, b);
}
static E *mkEq0(E *a, E *b) {
  if (a->w != b->w) { fprintf(stderr, "eq width %d %d\n", a->w, b->w); abort(); }
  if (a == b) return mkTrue();
  if (!older(a, b)) std::swap(a, b);
  if (isC(a) && isC(b)) return mkConst(1, a->k == b->k);
  if (a->hasPtr || b->hasPtr) {
    if (a->op == ITE && a->hasPtr) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
    if (b->op == ITE && b->hasPtr) return mkIte(b->a, mkEq(a, b->b), mkEq(a, b->c));
    uint64_t o1, o2; E *f1, *f2;
    bool s1 = ptrSplit(a, o1, f1), s2 = ptrSplit(b, o2, f2);
    if (s1 && s2) return o1 == o2 ? mkEq(f1, f2) : mkFalse();
    if (s1 && isC(b) && b->k < (1ull << 40)) return mkFalse();
  }
  if (a->hi < b->lo || b->hi < a->lo) return mkFalse();
  if (a->w == 1) {
    if (isC(b)) return b->k ? a : mkNot(a);
    return mkNot(mkXor(a, b));
  }
  if (isC(b)) {
    uint64_t k = b->k;
    switch (a->op) {
    case ZEXT: return k > maskw(a->a->w) ? mkFalse() : mkEq(a->a, mkConst(a->a->w, k));
    case SEXT: if ((uint64_t)sx(k & maskw(a->a->w), a->a->w) % 1 == 0) {
        uint64_t lowv = k & maskw(a->a->w);
        if (((uint64_t)sx(lowv, a->a->w) & maskw(a->w)) != k) return mkFalse();
        return mkEq(a->a, mkConst(a->a->w, lowv)); } break;
    case ADD: if (isC(a->b)) return mkEq(a->a, mkConst(a->w, k - a->b->k)); break;
    case SUB: if (isC(a->a)) return mkEq(a->b, mkConst(a->w, a->a->k - k)); if (k == 0) return mkEq(a->a, a->b); break;
    case XOR: if (isC(a->b)) return mkEq(a->a, mkConst(a->w, k ^ a->b->k)); if (k == 0) return mkEq(a->a, a->b); break;
    case CONCAT: return mkAnd(mkEq(a->a, mkConst(a->a->w, k >> a->b->w)), mkEq(a->b, mkConst(a->b->w, k)));
    case SHL: if (isC(a->b)) { unsigned n = a->b->k; if (k & maskw(n)) return mkFalse();
        return mkEq(mkExtract(a->a, a->w - 1 - n, 0), mkConst(a->w - n, k >> n)); } break;
    case AND: if (isC(a->b) && (k & ~a->b->k)) return mkFalse(); break;
    case ITE: if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b)); break;
    default: break;
    }
  }
  if (a->op == ZEXT && b->op == ZEXT) {
    if (a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->a->w < b->a->w) return mkEq(mkZext(a->a, b->a->w), b->a);
    return mkEq(a->a, mkZext(b->a, a->a->w));
  }
  if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
  if (a->op == CONCAT && b->op == CONCAT && a->a->w == b->a->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
  if (a->op == ADD && b->op == ADD && a->a == b->a) return mkEq(a->b, b->b);
  if (a->op == ADD && a->a == b && isC(a->b)) return mkConst(1, a->b->k == 0);
  if (b->op == ADD && b->a == a && isC(b->b)) return mkConst(1, b->b->k == 0);
  if (a->op == ITE && b->op == ITE && a->a == b->a) return mkIte(a->a, mkEq(a->b, b->b), mkEq(a->c, b->c));
  if (a->op == ITE && (a->b == b || a->c == b)) return a->b == b ? mkOr(a->a, mkEq(a->c, b)) : mkOr(mkNot(a->a), mkEq(a->b, b));
  if (b->op == ITE && (b->b == a || b->c == a)) return b->b == a ? mkOr(b->a, mkEq(b->c, a)) : mkOr(mkNot(b->a), mkEq(b->b, a));
  return intern(EQ, 1, 0, a, b);
}
E *mkUlt(E *a, E *b) {
  if (a == b) return mkFalse();
  if (a->hi < b->lo && !a->hasPtr && !b->hasPtr) return mkTrue();
  if (a->lo >= b->hi && !a->hasPtr && !b->hasPtr) return mkFalse();
  if (a->hasPtr || b->hasPtr) {
    uint64_t o1, o2; E *f1, *f2;
    if (ptrSplit(a, o1, f1) && ptrSplit(b, o2, f2)) {
      if (o1 == o2) return mkUlt(f1, f2);
      return mkConst(1, o1 < o2);
    }
  }
  if (a->w == 1) return mkAnd(mkNot(a), b);
  if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkUlt(a->a, b->a);
  if (a->op == ZEXT && b->op == ZEXT) { unsigned m = std::max(a->a->w, b->a->w); if (m < a->w) return mkUlt(mkZext(a->a, m), mkZext(b->a, m)); }
  if (a->op == ZEXT && isC(b) && b->k <= maskw(a->a->w)) return mkUlt(a->a, mkConst(a->a->w, b->k));
  if (b->op == ZEXT && isC(a) && a->k <= maskw(b->a->w)) return mkUlt(mkConst(b->a->w, a->k), b->a);
  if (isC(b, 1)) return mkEq(a, mkConst(a->w, 0));
  if (isC(a, 0)) return mkNot(mkEq(b, a));
  if (a->op == ITE && isC(b) && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
  if (b->op == ITE && isC(a) && (isC(b->b) || isC(b->c))) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
  return intern(ULT, 1, 0, a, b);
}
E *mkSlt(E *a, E *b) {
  if (a == b) return mkFalse();
  if (isC(a) && isC(b)) return mkConst(1, sx(a->k, a->w) < sx(b->k, b->w));
  if (a->w == 1) return mkAnd(a, mkNot(b));
  uint64_t half = maskw(a->w - 1);
  if (a->hi <= half && b->hi <= half) return mkUlt(a, b);
  if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
  if (isC(b, 0)) return mkExtract(a, a->w - 1, a->w - 1);
  if (isC(a, maskw(a->w))) return mkNot(mkExtract(b, b->w - 1, b->w - 1));
  return intern(SLT, 1, 0, a, b);
}
E *mkABase(unsigned ew, const std::string &name) {
  g_arrNames.push_back(name);
  g_arrUF.push_back(-1);
  return intern(ABASE, ew, g_arrNames.size() - 1);
}
E *mkAStore(E *arr, E *idx, E *v) {
  if (arr->op == ASTORE && arr->b == idx) return intern(ASTORE, arr->w, 0, arr->a, idx, v);
  return intern(ASTORE, arr->w, 0, arr, idx, v);
}
E *mkAIte(E *c, E *a, E *b) {
  if (a == b) return a;
  if (isC(c)) return c->k ? a : b;
  if (c->op == XOR && isC(c->b, 1)) return mkAIte(c->a, b, a);
  if (a->op == AITE && a->a == c) return mkAIte(c, a->b, b);
  if (b->op == AITE && b->a == c) return mkAIte(c, a, b->c);
  // ite(c, store(x,i,v), x) -> store(x,i,ite(c,v,read(x,i)))
  if (a->op == ASTORE && a->a == b) return mkAStore(b, a->b, mkIte(c, a->c, mkARead(b, a->b)));
  if (b->op == ASTORE && b->a == a) return mkAStore(a, b->b, mkIte(c, mkARead(a, b->b), b->c));
  if (a->op == ASTORE && b->op == ASTORE && a->a == b->a && a->b == b->b) return mkAStore(a->a, a->b, mkIte(c, a->c, b->c));
  return intern(AITE, a->w, 0, c, a, b);
}
static std::unordered_map<uint64_t, E *> readMemo;
E *mkARead(E *arr, E *idx) {
  uint64_t key = ((uint64_t)arr->id << 32) | idx->id;
  auto it = readMemo.find(key);
  if (it != readMemo.end()) return it->second;
  E *r;
  if (arr->op == ABASE) r = mkUF("arr!" + g_arrNames[arr->k], arr->w, {idx});
  else if (arr->op == ASTORE) {
    E *c = mkEq(arr->b, idx);
    r = isT(c) ? arr->c : isF(c) ? mkARead(arr->a, idx) : mkIte(c, arr->c, mkARead(arr->a, idx));
  } else r = mkIte(arr->a, mkARead(arr->b, idx), mkARead(arr->c, idx));
  readMemo[key] = r;
  return r;
}
std::string exprStr(E *e, int d) {
  static const char *n[] = {"const", "var", "ptr", "uf", "+", "-", "*", "/u", "%u", "/s", "%s", "&", "|", "^", "<<", ">>u", ">>s", "concat", "extract", "zext", "sext", "ite", "==", "<u", "<s", "abase", "astore", "aite"};
  char buf[64];
  if (e->op == CONST) { snprintf(buf, sizeof buf, "0x%llx:%d", (unsigned long long)e->k, e->w); return buf; }
  if (e->op == VAR) return g_vars[e->k].name + "+" + std::to_string(g_vars[e->k].off);
  if (e->op == PTR) return "&obj" + std::to_string(e->k);
  if (d == 0) return "#" + std::to_string(e->id);
  std::string s = "(" + std::string(n[e->op]);
  if (e->op == UF) s += ":" + g_ufs[e->k].name;
  if (e->op == EXTRACT) s += " " + std::to_string(e->k >> 8) + ":" + std::to_string(e->k & 0xff);
  for (E *x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
  if (e->args) for (E *x : *e->args) s += " " + exprStr(x, d - 1);
  return s + ")";
}
