// Contract language used by the drivers in this directory.
//
// A driver  VC_DRIVER(name) { ... }  states the contract of one or more real
// functions of /repo in the usual  assume pre; call; assert post  form.  The
// verification condition generator (/verif/engine) turns every vc_assert and
// every memory-safety side condition on the way into one proof obligation,
// for all values of the vc_* inputs.  The same driver, linked natively with
// /verif/runtime/native.cpp, replays a counterexample on the real code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>

extern "C" {
void vc_assume(bool c);                              // precondition / hypothesis
void vc_assert(bool c, const char *name);            // obligation
void vc_cover(const char *name);                     // must be reachable (vacuity guard)
uint32_t vc_choose(uint32_t n);                      // case split: every value 0..n-1 is explored
void vc_allow_exit();                                // exit()/abort() is a permitted outcome
uint64_t vc_u64(const char *name);
uint32_t vc_u32(const char *name);
uint16_t vc_u16(const char *name);
uint8_t vc_u8(const char *name);
bool vc_bool(const char *name);
void vc_havoc(void *p, size_t n, const char *name);  // arbitrary contents
void vc_array(void *p, size_t n, size_t elem, const char *name); // whole object as SMT array
void *vc_new_array(size_t n, size_t elem, const char *name);
void vc_arr_copy(void *dst, const void *src);
void vc_replace(const void *fn, const void *contract); // callee checked by its contract
void vc_unreplace();
bool vc_eq(const void *a, const void *b, size_t n);
void vc_feasible_prune();
void vc_loop_queries(int on); // off: loops are left only by decided conditions
uint32_t vc_uf(const char *name, unsigned n, uint32_t a0, uint32_t a1, uint32_t a2, uint32_t a3);
void vc_print(const char *name, uint64_t v);
#ifdef VC_NATIVE
size_t vc_model_arr(const char *name, size_t k, uint64_t *idx, uint64_t *val); // 1 if k-th entry exists
#endif
}

#define VC_DRIVER(name) extern "C" void vcd_##name()

// storage of any type without running a constructor
template <class T> union Raw {
  T v;
  Raw() {}
  ~Raw() {}
};

template <class F> static inline const void *vc_fn(F f) {
  const void *p;
  memcpy(&p, &f, sizeof p);
  return p;
}
// logical implication
#define IMPLIES(a, b) (!(a) || (b))
