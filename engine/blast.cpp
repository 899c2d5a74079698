#include "blast.h"
#include <algorithm>
#include <cstring>

int Blaster::input() { g.push_back({1, 0, 0, 0}); return (int)(g.size() - 1) * 2; }
int Blaster::land(int a, int b) {
  if (a > b) std::swap(a, b);
  if (a == 0) return b;
  if (a == 1) return 1;
  if (a == b) return a;
  if (a == neg(b)) return 1;
  uint64_t key = ((uint64_t)a << 32) | (uint32_t)b;
  auto it = hash2.find(key);
  if (it != hash2.end()) return it->second;
  // one-level: and(a, and(a,x)) etc.
  for (int s = 0; s < 2; s++) {
    int x = s ? b : a, y = s ? a : b;
    const Gate &gy = g[y >> 1];
    if (gy.t == 2) {
      if (!(y & 1)) { if (gy.a == x || gy.b == x) return hash2[key] = y; if (gy.a == neg(x) || gy.b == neg(x)) return hash2[key] = 1; }
      else { if (gy.a == neg(x) || gy.b == neg(x)) return hash2[key] = x;
             if (gy.a == x) { int o = gy.b; return land(x, neg(o)); }
             if (gy.b == x) { int o = gy.a; return land(x, neg(o)); } }
    }
  }
  g.push_back({2, a, b, 0});
  int l = (int)(g.size() - 1) * 2;
  hash2[key] = l;
  return l;
}
int Blaster::lxor(int a, int b) {
  int s = (a & 1) ^ (b & 1);
  a &= ~1; b &= ~1;
  if (a > b) std::swap(a, b);
  if (a == b) return 1 ^ s;
  if (a == 0) return neg(b) ^ s;
  uint64_t key = (1ull << 63) | ((uint64_t)a << 32) | (uint32_t)b;
  auto it = hash2.find(key);
  if (it != hash2.end()) return it->second ^ s;
  g.push_back({3, a, b, 0});
  int l = (int)(g.size() - 1) * 2;
  hash2[key] = l;
  return l ^ s;
}
int Blaster::mux(int c, int a, int b) {
  if (c == 0) return a;
  if (c == 1) return b;
  if (a == b) return a;
  if (c & 1) { c ^= 1; std::swap(a, b); }
  if (a == 0) return lor(c, b);
  if (a == 1) return land(neg(c), b);
  if (b == 0) return lor(neg(c), a);
  if (b == 1) return land(c, a);
  if (a == c) return lor(c, b);
  if (a == neg(c)) return land(neg(c), b);
  if (b == c) return land(c, a);
  if (b == neg(c)) return lor(neg(c), a);
  if (a == neg(b)) return neg(lxor(c, a));
  int s = a & 1;
  a ^= s; b ^= s;
  auto key = std::make_tuple(c, a, b);
  auto it = hash3.find(key);
  if (it != hash3.end()) return it->second ^ s;
  g.push_back({4, c, a, b});
  int l = (int)(g.size() - 1) * 2;
  hash3[key] = l;
  return l ^ s;
}
int Blaster::eqv(const std::vector<int> &a, const std::vector<int> &b) {
  int r = 0;
  for (size_t i = 0; i < a.size(); i++) r = land(r, neg(lxor(a[i], b[i])));
  return r;
}
std::vector<int> Blaster::addv(const std::vector<int> &a, const std::vector<int> &b, int cin) {
  std::vector<int> r(a.size());
  int c = cin;
  for (size_t i = 0; i < a.size(); i++) {
    int x = lxor(a[i], b[i]);
    r[i] = lxor(x, c);
    c = lor(land(a[i], b[i]), land(x, c));
  }
  r.push_back(c);
  return r;
}
std::vector<int> Blaster::mulv(const std::vector<int> &a, const std::vector<int> &b) {
  size_t w = a.size();
  std::vector<int> acc(w, 1);
  for (size_t i = 0; i < w; i++) {
    if (b[i] == 1) continue;
    std::vector<int> row(w, 1);
    for (size_t j = 0; i + j < w; j++) row[i + j] = land(a[j], b[i]);
    acc = addv(acc, row, 1); acc.resize(w);
  }
  return acc;
}
void Blaster::divv(const std::vector<int> &a, const std::vector<int> &b, std::vector<int> &q, std::vector<int> &r) {
  size_t w = a.size();
  q.assign(w, 1);
  std::vector<int> rem(w + 1, 1), bb = b; bb.push_back(1);
  std::vector<int> nb; for (int x : bb) nb.push_back(neg(x));
  for (int i = (int)w - 1; i >= 0; i--) {
    rem.insert(rem.begin(), a[i]); rem.resize(w + 1);
    auto d = addv(rem, nb, 0); // rem - b, carry out = no borrow
    int ge = d[w + 1];
    q[i] = ge;
    for (size_t j = 0; j <= w; j++) rem[j] = mux(ge, d[j], rem[j]);
  }
  rem.resize(w);
  r = rem;
}
std::vector<int> Blaster::uapp(const std::string &name, E *e, std::vector<std::vector<int>> args, unsigned w) {
  auto &v = apps[name];
  for (auto &p : v) if (p.args == args) return p.out;
  App a; a.args = args; a.e = e;
  for (unsigned i = 0; i < w; i++) a.out.push_back(input());
  v.push_back(a);
  return a.out;
}
const std::vector<int> &Blaster::blast(E *root) {
  // iterative post-order to avoid deep recursion
  std::vector<std::pair<E *, bool>> st{{root, false}};
  while (!st.empty()) {
    auto [e, done] = st.back(); st.pop_back();
    if (memo.count(e)) continue;
    if (!done) {
      st.push_back({e, true});
      for (E *x : {e->a, e->b, e->c}) if (x && !memo.count(x)) st.push_back({x, false});
      if (e->args) for (E *x : *e->args) if (!memo.count(x)) st.push_back({x, false});
      continue;
    }
    std::vector<int> r;
    unsigned w = e->w;
    auto &M = memo;
    switch (e->op) {
    case CONST: for (unsigned i = 0; i < w; i++) r.push_back((e->k >> i) & 1 ? 0 : 1); break;
    case PTR: { uint64_t v = e->k << 40; for (unsigned i = 0; i < w; i++) r.push_back((v >> i) & 1 ? 0 : 1); break; }
    case VAR: for (unsigned i = 0; i < w; i++) r.push_back(input()); varBits.push_back({e, r}); break;
    case UF: { std::vector<std::vector<int>> as; for (E *x : *e->args) as.push_back(M[x]); r = uapp(std::to_string(e->k), e, as, w); break; }
    case ADD: r = addv(M[e->a], M[e->b], 1); r.resize(w); break;
    case SUB: { auto nb = M[e->b]; for (int &x : nb) x = neg(x); r = addv(M[e->a], nb, 0); r.resize(w); break; }
    case MUL: {
      auto &a = M[e->a], &b = M[e->b];
      bool cst = isC(e->a) || isC(e->b);
      if (abstractMul && !cst) { abstracted = true; auto x = a, y = b; if (x > y) std::swap(x, y); r = uapp("mul" + std::to_string(w), nullptr, {x, y}, w); }
      else r = isC(e->b) ? mulv(a, b) : mulv(b, a);
      break; }
    case UDIV: case UREM: {
      auto a = M[e->a], b = M[e->b];
      if (abstractMul) { abstracted = true; r = uapp((e->op == UDIV ? "udiv" : "urem") + std::to_string(w), nullptr, {a, b}, w); break; }
      std::vector<int> q, rr; divv(a, b, q, rr); r = e->op == UDIV ? q : rr; break; }
    case SDIV: case SREM: {
      auto a = M[e->a], b = M[e->b];
      if (abstractMul) { abstracted = true; r = uapp((e->op == SDIV ? "sdiv" : "srem") + std::to_string(w), nullptr, {a, b}, w); break; }
      int sa = a[w - 1], sb = b[w - 1];
      auto negv = [&](std::vector<int> v, int c) { // conditional negate
        for (int &x : v) x = lxor(x, c);
        std::vector<int> z(w, 1); auto t = addv(v, z, c); t.resize(w); return t; };
      std::vector<int> q, rr; divv(negv(a, sa), negv(b, sb), q, rr);
      r = e->op == SDIV ? negv(q, lxor(sa, sb)) : negv(rr, sa); break; }
    case AND: { auto &a = M[e->a], &b = M[e->b]; for (unsigned i = 0; i < w; i++) r.push_back(land(a[i], b[i])); break; }
    case OR: { auto &a = M[e->a], &b = M[e->b]; for (unsigned i = 0; i < w; i++) r.push_back(lor(a[i], b[i])); break; }
    case XOR: { auto &a = M[e->a], &b = M[e->b]; for (unsigned i = 0; i < w; i++) r.push_back(lxor(a[i], b[i])); break; }
    case SHL: case LSHR: case ASHR: {
      r = M[e->a]; auto &b = M[e->b];
      int fill = e->op == ASHR ? r[w - 1] : 1;
      unsigned s = 0;
      for (; (1u << s) < w; s++) {
        std::vector<int> n(w);
        for (unsigned i = 0; i < w; i++) {
          int src;
          if (e->op == SHL) src = i >= (1u << s) ? r[i - (1u << s)] : 1;
          else src = i + (1u << s) < w ? r[i + (1u << s)] : fill;
          n[i] = s < b.size() ? mux(b[s], src, r[i]) : r[i];
        }
        r = n;
      }
      int over = 1;
      for (unsigned i = s; i < b.size(); i++) over = lor(over, b[i]);
      // non power-of-two widths: amounts in [w, 2^s) already shift everything out
      for (unsigned i = 0; i < w; i++) r[i] = mux(over, fill, r[i]);
      break; }
    case CONCAT: r = M[e->b]; for (int x : M[e->a]) r.push_back(x); break;
    case EXTRACT: { auto &a = M[e->a]; for (unsigned i = e->k & 0xff; i <= (e->k >> 8); i++) r.push_back(a[i]); break; }
    case ZEXT: r = M[e->a]; r.resize(w, 1); break;
    case SEXT: { r = M[e->a]; int s = r.back(); r.resize(w, s); break; }
    case ITE: { int c = M[e->a][0]; auto &a = M[e->b], &b = M[e->c]; for (unsigned i = 0; i < w; i++) r.push_back(mux(c, a[i], b[i])); break; }
    case EQ: r = {eqv(M[e->a], M[e->b])}; break;
    case ULT: { auto &a = M[e->a], &b = M[e->b]; int lt = 1; for (size_t i = 0; i < a.size(); i++) { int x = lxor(a[i], b[i]); lt = mux(x, b[i], lt); } r = {lt}; break; }
    case SLT: { auto &a = M[e->a], &b = M[e->b]; int lt = 1; size_t n = a.size();
      for (size_t i = 0; i + 1 < n; i++) { int x = lxor(a[i], b[i]); lt = mux(x, b[i], lt); }
      int x = lxor(a[n - 1], b[n - 1]); lt = mux(x, a[n - 1], lt); r = {lt}; break; }
    default: fprintf(stderr, "vcg: cannot blast array node\n"); exit(3);
    }
    if (r.size() != w) { fprintf(stderr, "vcg: blast width mismatch op %d\n", e->op); exit(3); }
    memo[e] = std::move(r);
  }
  return memo[root];
}
void Blaster::ackermann() {
  for (auto &kv : apps) {
    auto &v = kv.second;
    for (size_t i = 0; i < v.size(); i++)
      for (size_t j = i + 1; j < v.size(); j++) {
        int same = 0;
        for (size_t k = 0; k < v[i].args.size(); k++) same = land(same, eqv(v[i].args[k], v[j].args[k]));
        if (same == 1) continue;
        side.push_back(lor(neg(same), eqv(v[i].out, v[j].out)));
      }
  }
  apps.clear();
}
bool Blaster::writeCnf(const std::string &path, const std::vector<int> &roots, std::vector<int> &nodeVar) {
  nodeVar.assign(g.size(), 0);
  std::vector<int> order;
  std::vector<char> mark(g.size(), 0);
  std::vector<int> st;
  for (int r : roots) { if (r == 1) { // constant false root
      FILE *f = fopen(path.c_str(), "w"); if (!f) { perror("cnf"); exit(3); } fprintf(f, "p cnf 1 2\n1 0\n-1 0\n"); fclose(f); return true; }
    if ((r >> 1) != 0) st.push_back(r >> 1); }
  while (!st.empty()) {
    int n = st.back(); st.pop_back();
    if (mark[n]) continue;
    mark[n] = 1; order.push_back(n);
    auto &q = g[n];
    if (q.t >= 2) { st.push_back(q.a >> 1); st.push_back(q.b >> 1); if (q.t == 4) st.push_back(q.c >> 1); }
  }
  std::sort(order.begin(), order.end());
  int nv = 0; size_t nc = 0;
  for (int n : order) { if (n == 0) continue; nodeVar[n] = ++nv; auto t = g[n].t; nc += t == 2 ? 3 : t == 3 ? 4 : t == 4 ? 6 : 0; }
  for (int r : roots) if ((r >> 1) != 0) nc++;
  FILE *f = fopen(path.c_str(), "w");
  if (!f) { perror("cnf"); exit(3); }
  static char buf[1 << 20];
  setvbuf(f, buf, _IOFBF, sizeof buf);
  fprintf(f, "p cnf %d %zu\n", nv, nc);
  auto L = [&](int l) { int v = nodeVar[l >> 1]; return (l & 1) ? -v : v; };
  for (int n : order) {
    if (n == 0) continue;
    auto &q = g[n]; int o = nodeVar[n];
    if (q.t == 2) { int a = L(q.a), b = L(q.b); fprintf(f, "%d %d 0\n%d %d 0\n%d %d %d 0\n", -o, a, -o, b, o, -a, -b); }
    else if (q.t == 3) { int a = L(q.a), b = L(q.b); fprintf(f, "%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n", -o, a, b, -o, -a, -b, o, -a, b, o, a, -b); }
    else if (q.t == 4) { int c = L(q.a), a = L(q.b), b = L(q.c);
      fprintf(f, "%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n", -c, -a, o, -c, a, -o, c, -b, o, c, b, -o, -a, -b, o, a, b, -o); }
  }
  for (int r : roots) if ((r >> 1) != 0) fprintf(f, "%d 0\n", L(r));
  fclose(f);
  return true;
}

void writeSmt2(const std::string &path, const std::vector<E *> &roots) {
  FILE *f = fopen(path.c_str(), "w");
  if (!f) { perror("smt2"); exit(3); }
  fprintf(f, "(set-logic QF_UFBV)\n");
  std::unordered_set<E *> seen;
  std::unordered_set<uint64_t> ufs;
  auto nm = [&](E *e) -> std::string {
    char b[64];
    if (e->op == CONST) { snprintf(b, sizeof b, "(_ bv%llu %d)", (unsigned long long)e->k, e->w); return b; }
    if (e->op == PTR) { snprintf(b, sizeof b, "(_ bv%llu 64)", (unsigned long long)(e->k << 40)); return b; }
    snprintf(b, sizeof b, "n%u", e->id); return b; };
  for (E *root : roots) {
    std::vector<std::pair<E *, bool>> st{{root, false}};
    while (!st.empty()) {
      auto [e, done] = st.back(); st.pop_back();
      if (seen.count(e) || e->op == CONST || e->op == PTR) continue;
      if (!done) {
        st.push_back({e, true});
        for (E *x : {e->a, e->b, e->c}) if (x) st.push_back({x, false});
        if (e->args) for (E *x : *e->args) st.push_back({x, false});
        continue;
      }
      seen.insert(e);
      if (e->op == VAR) { fprintf(f, "(declare-const n%u (_ BitVec %d)) ; %s+%d\n", e->id, e->w, g_vars[e->k].name.c_str(), g_vars[e->k].off); continue; }
      if (e->op == UF && ufs.insert(e->k).second) {
        fprintf(f, "(declare-fun uf%llu (", (unsigned long long)e->k);
        for (E *x : *e->args) fprintf(f, "(_ BitVec %d) ", x->w);
        fprintf(f, ") (_ BitVec %d)) ; %s\n", e->w, g_ufs[e->k].name.c_str());
      }
      fprintf(f, "(define-fun n%u () (_ BitVec %d) ", e->id, e->w);
      auto bin = [&](const char *o) { fprintf(f, "(%s %s %s)", o, nm(e->a).c_str(), nm(e->b).c_str()); };
      switch (e->op) {
      case ADD: bin("bvadd"); break; case SUB: bin("bvsub"); break; case MUL: bin("bvmul"); break;
      case UDIV: bin("bvudiv"); break; case UREM: bin("bvurem"); break; case SDIV: bin("bvsdiv"); break; case SREM: bin("bvsrem"); break;
      case AND: bin("bvand"); break; case OR: bin("bvor"); break; case XOR: bin("bvxor"); break;
      case SHL: bin("bvshl"); break; case LSHR: bin("bvlshr"); break; case ASHR: bin("bvashr"); break;
      case CONCAT: bin("concat"); break;
      case EXTRACT: fprintf(f, "((_ extract %d %d) %s)", (int)(e->k >> 8), (int)(e->k & 0xff), nm(e->a).c_str()); break;
      case ZEXT: fprintf(f, "((_ zero_extend %d) %s)", e->w - e->a->w, nm(e->a).c_str()); break;
      case SEXT: fprintf(f, "((_ sign_extend %d) %s)", e->w - e->a->w, nm(e->a).c_str()); break;
      case ITE: fprintf(f, "(ite (= %s #b1) %s %s)", nm(e->a).c_str(), nm(e->b).c_str(), nm(e->c).c_str()); break;
      case EQ: fprintf(f, "(ite (= %s %s) #b1 #b0)", nm(e->a).c_str(), nm(e->b).c_str()); break;
      case ULT: fprintf(f, "(ite (bvult %s %s) #b1 #b0)", nm(e->a).c_str(), nm(e->b).c_str()); break;
      case SLT: fprintf(f, "(ite (bvslt %s %s) #b1 #b0)", nm(e->a).c_str(), nm(e->b).c_str()); break;
      case UF: fprintf(f, "(uf%llu", (unsigned long long)e->k); for (E *x : *e->args) fprintf(f, " %s", nm(x).c_str()); fprintf(f, ")"); break;
      default: fprintf(stderr, "vcg: smt2 array node\n"); exit(3);
      }
      fprintf(f, ")\n");
    }
    fprintf(f, "(assert (= %s #b1))\n", nm(root).c_str());
  }
  fprintf(f, "(check-sat)\n");
  fclose(f);
}
