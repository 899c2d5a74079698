// Native runtime for counterexample replay: the driver runs on the real code
// with the inputs of the solver model; no contract replacement takes place.
#include "../specs/vc.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#include <sys/mman.h>
struct Leaf { uint64_t off, len, val; };
static std::map<std::string, std::vector<Leaf>> vars;
static std::map<std::string, std::vector<std::pair<uint64_t, uint64_t>>> arrs;
static std::map<std::string, std::map<std::vector<uint64_t>, uint64_t>> ufs;
static std::map<std::string, int> seen;
static int failed = 0;
static std::string uniq(const char *n) { int k = seen[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
extern "C" {
void vc_assume(bool c) { if (!c) { printf("REPLAY: assumption not met\n"); fflush(stdout); _Exit(failed ? 1 : 77); } }
void vc_assert(bool c, const char *n) { if (!c) { printf("REPLAY-FAIL: %s\n", n); failed = 1; } }
void vc_cover(const char *) {}
void vc_allow_exit() {}
uint32_t vc_choose(uint32_t) { static unsigned k; uint32_t v = 0; for (auto &l : vars["!choice"]) if (l.off == k) v = (uint32_t)l.val; k++; return v; }
static uint64_t get(const char *n) { auto it = vars.find(uniq(n)); return it == vars.end() || it->second.empty() ? 0 : it->second[0].val; }
uint64_t vc_u64(const char *n) { uint64_t v = get(n); printf("input %s = 0x%llx\n", n, (unsigned long long)v); return v; }
uint32_t vc_u32(const char *n) { return (uint32_t)vc_u64(n); }
uint16_t vc_u16(const char *n) { return (uint16_t)vc_u64(n); }
uint8_t vc_u8(const char *n) { return (uint8_t)vc_u64(n); }
bool vc_bool(const char *n) { return vc_u64(n) & 1; }
void vc_havoc(void *p, size_t n, const char *name) {
  memset(p, 0, n);
  auto it = vars.find(uniq(name));
  if (it == vars.end()) return;
  for (auto &l : it->second) if (l.off + l.len <= n && l.len <= 8) memcpy((char *)p + l.off, &l.val, l.len);
}
static void fill(void *p, size_t n, size_t elem, const std::string &nm) {
  auto it = arrs.find(nm); if (it == arrs.end()) return;
  for (auto &e : it->second) if ((e.first + 1) * elem <= n) memcpy((char *)p + e.first * elem, &e.second, elem);
}
void vc_array(void *p, size_t n, size_t elem, const char *name) { if (n <= (1u << 24)) memset(p, 0, n); fill(p, n, elem, uniq(name)); }
void *vc_new_array(size_t n, size_t elem, const char *name) {
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { printf("REPLAY: mmap failed\n"); _Exit(78); }
  fill(p, n, elem, uniq(name)); return p;
}
void vc_arr_copy(void *, const void *) {}
void vc_replace(const void *, const void *) {}
void vc_unreplace() {}
bool vc_eq(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
void vc_feasible_prune() {}
void vc_loop_queries(int) {}
uint32_t vc_uf(const char *name, unsigned n, uint32_t a0, uint32_t a1, uint32_t a2, uint32_t a3) {
  std::vector<uint64_t> k{n > 0 ? a0 : 0, n > 1 ? a1 : 0, n > 2 ? a2 : 0, n > 3 ? a3 : 0};
  auto it = ufs[name].find(k); return it == ufs[name].end() ? 0 : (uint32_t)it->second;
}
void vc_print(const char *n, uint64_t v) { printf("%s = 0x%llx\n", n, (unsigned long long)v); }
size_t vc_model_arr(const char *name, size_t k, uint64_t *idx, uint64_t *val) {
  auto it = arrs.find(name); if (it == arrs.end() || k >= it->second.size()) return 0;
  *idx = it->second[k].first; *val = it->second[k].second; return 1;
}
}
#include <dlfcn.h>
int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: replay DRIVER MODEL\n"); return 2; }
  FILE *f = fopen(argv[2], "r"); if (!f) { perror(argv[2]); return 2; }
  char kind[8], name[512]; unsigned long long a, b, c;
  while (fscanf(f, "%7s %511s", kind, name) == 2) {
    if (!strcmp(kind, "var")) { if (fscanf(f, "%llu %llu %llx", &a, &b, &c) != 3) break; vars[name].push_back({a, b, c}); }
    else if (!strcmp(kind, "uf")) { unsigned long long x[5]; if (fscanf(f, "%llx %llx %llx %llx %llx", x, x + 1, x + 2, x + 3, x + 4) != 5) break; ufs[name][{x[0], x[1], x[2], x[3]}] = x[4]; }
    else { if (fscanf(f, "%llx %llu %llx", &a, &b, &c) != 3) break; arrs[name].push_back({a, c}); }
  }
  fclose(f);
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, (std::string("vcd_") + argv[1]).c_str());
  if (!fn) { fprintf(stderr, "no driver %s\n", argv[1]); return 2; }
  fn();
  if (failed) { printf("REPLAY: property violated on the real code\n"); fflush(stdout); _Exit(1); }
  printf("REPLAY: no violation\n"); fflush(stdout); _Exit(0);
}
