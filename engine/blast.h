// Bit-blasting of expression DAGs to an AND/XOR/MUX graph and to DIMACS.
#pragma once
#include "expr.h"
#include <set>
#include <unordered_set>

struct Blaster {
  bool abstractMul = false; // treat MUL/UDIV/UREM/SDIV/SREM as uninterpreted
  bool abstracted = false;  // some operator was abstracted
  // gate graph: literal = node*2 + sign; node 0 = constant true (lit 0 true, lit 1 false)
  struct Gate { uint8_t t; int a, b, c; }; // t: 0 const,1 input,2 and,3 xor,4 mux
  std::vector<Gate> g;
  std::unordered_map<uint64_t, int> hash2;
  std::map<std::tuple<int, int, int>, int> hash3;
  std::unordered_map<E *, std::vector<int>> memo;
  std::vector<std::pair<E *, std::vector<int>>> varBits;
  struct App { std::vector<std::vector<int>> args; std::vector<int> out; E *e; };
  std::map<std::string, std::vector<App>> apps; // uninterpreted applications
  std::vector<int> side; // side constraint literals (must hold)

  Blaster() { g.push_back({0, 0, 0, 0}); }
  static int neg(int l) { return l ^ 1; }
  int input();
  int land(int a, int b);
  int lor(int a, int b) { return neg(land(neg(a), neg(b))); }
  int lxor(int a, int b);
  int mux(int c, int a, int b);
  const std::vector<int> &blast(E *e);
  int bit(E *e) { return blast(e)[0]; }
  int eqv(const std::vector<int> &a, const std::vector<int> &b);
  void ackermann();
  std::vector<int> addv(const std::vector<int> &a, const std::vector<int> &b, int cin);
  std::vector<int> mulv(const std::vector<int> &a, const std::vector<int> &b);
  void divv(const std::vector<int> &a, const std::vector<int> &b, std::vector<int> &q, std::vector<int> &r);
  std::vector<int> uapp(const std::string &name, E *e, std::vector<std::vector<int>> args, unsigned w);
  // write CNF asserting all roots; returns map node->dimacs var
  bool writeCnf(const std::string &path, const std::vector<int> &roots, std::vector<int> &nodeVar);
};
void writeSmt2(const std::string &path, const std::vector<E *> &roots);
