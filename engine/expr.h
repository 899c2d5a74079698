// Hash-consed bit-vector expression DAG used by the verification condition
// generator.  Every node has a width of 1..64 bits (arrays: element width).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

enum Op : uint8_t {
  CONST, VAR, PTR, UF,
  ADD, SUB, MUL, UDIV, UREM, SDIV, SREM,
  AND, OR, XOR, SHL, LSHR, ASHR,
  CONCAT, EXTRACT, ZEXT, SEXT, ITE, EQ, ULT, SLT,
  ABASE, ASTORE, AITE   // array valued nodes (w = element width)
};

struct E {
  Op op;
  uint16_t w;
  uint32_t id;
  bool hasPtr;
  uint64_t k;            // CONST value / EXTRACT (hi<<8|lo) / VAR,PTR,UF,ABASE index
  E *a, *b, *c;
  std::vector<E *> *args; // UF
  uint64_t lo, hi;        // unsigned range
};

struct VarInfo { std::string name; int off; int len; bool fresh; };
struct UFInfo { std::string name; int w; };

extern std::vector<VarInfo> g_vars;
extern std::vector<E *> g_varNodes;
extern std::vector<UFInfo> g_ufs;
extern std::vector<std::string> g_arrNames;
extern std::vector<int> g_arrUF;
extern uint64_t g_nodes;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

E *mkConst(unsigned w, uint64_t v);
E *mkVar(unsigned w, const std::string &name, int off = 0, int len = 0, bool fresh = false);
E *mkPtr(uint32_t obj);
E *mkUF(const std::string &name, unsigned w, std::vector<E *> args);
E *mkAdd(E *a, E *b);
E *mkSub(E *a, E *b);
E *mkMul(E *a, E *b);
E *mkDiv(Op op, E *a, E *b);
E *mkAnd(E *a, E *b);
E *mkOr(E *a, E *b);
E *mkXor(E *a, E *b);
E *mkNot(E *a);
E *mkShl(E *a, E *b);
E *mkLshr(E *a, E *b);
E *mkAshr(E *a, E *b);
E *mkConcat(E *hi, E *lo);
E *mkExtract(E *a, unsigned hi, unsigned lo);
E *mkZext(E *a, unsigned w);
E *mkSext(E *a, unsigned w);
E *mkIte(E *c, E *a, E *b);
E *mkEq(E *a, E *b);
E *mkUlt(E *a, E *b);
E *mkSlt(E *a, E *b);
E *mkABase(unsigned ew, const std::string &name);
E *mkAStore(E *arr, E *idx, E *v);
E *mkAIte(E *c, E *a, E *b);
E *mkARead(E *arr, E *idx);
static inline E *mkTrue() { return mkConst(1, 1); }
static inline E *mkFalse() { return mkConst(1, 0); }
static inline bool isC(E *e) { return e->op == CONST; }
static inline bool isC(E *e, uint64_t v) { return e->op == CONST && e->k == v; }
static inline bool isT(E *e) { return e->op == CONST && e->w == 1 && e->k == 1; }
static inline bool isF(E *e) { return e->op == CONST && e->w == 1 && e->k == 0; }
static inline int64_t sx(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}
uint64_t evalOp(Op op, unsigned w, uint64_t k, E *e, uint64_t va, uint64_t vb, uint64_t vc);
std::string exprStr(E *e, int depth = 4);
