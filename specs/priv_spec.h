// Independent specification of the privileged architecture (traps, returns,
// interrupt selection, Sv32), written from the RISC-V privileged manual.
// CSRs are held in an array indexed by the csr_* enumeration of Csr.h.
#pragma once
#include <cstdint>
#include "Csr.h"
namespace priv {
enum : uint32_t { SIE = 1u << 1, MIE = 1u << 3, SPIE = 1u << 5, MPIE = 1u << 7, SPP = 1u << 8, MPP = 3u << 11,
                  MPRV = 1u << 17, SUM = 1u << 18, MXR = 1u << 19, SMASK = 0x800DE133u };
struct Exp { uint32_t csr[21]; uint32_t priv, pc; };

// interrupt taken at an instruction boundary; -1 if none
static inline int interrupt(const uint32_t *c, uint32_t mip, uint32_t p) {
  uint32_t pend = mip & c[csr_mie], deleg = c[csr_mideleg], st = c[csr_mstatus];
  bool m_on = p < 3 || (st & MIE), s_on = p == 0 || (p == 1 && (st & SIE));
  uint32_t m = m_on ? pend & ~deleg : 0, s = s_on ? pend & deleg : 0;
  if (m & (1u << 11)) return 11;
  if (m & (1u << 3)) return 3;
  if (m & (1u << 7)) return 7;
  if (s & (1u << 9)) return 9;
  if (s & (1u << 1)) return 1;
  if (s & (1u << 5)) return 5;
  return -1;
}
// platform configurations the model supports: machine interrupts stay in
// machine mode, enabled pending supervisor interrupts are delegated
static inline bool deleg_ok(const uint32_t *c, uint32_t mip) {
  return (c[csr_mideleg] & 0x888u) == 0 && (c[csr_mie] & mip & 0x222u & ~c[csr_mideleg]) == 0;
}
static inline uint32_t tvec(uint32_t tv, bool irq, uint32_t code) { return (tv & ~3u) + (((tv & 1) && irq) ? 4 * code : 0); }
// trap entry
static inline void trap(Exp &e, const uint32_t *c, uint32_t p, bool irq, uint32_t code, uint32_t tval, uint32_t epc) {
  for (int i = 0; i < 21; i++) e.csr[i] = c[i];
  uint32_t deleg = irq ? c[csr_mideleg] : c[csr_medeleg], st = c[csr_mstatus], cause = (irq ? 0x80000000u : 0) | code;
  bool to_s = p != 3 && ((deleg >> code) & 1);
  if (to_s) {
    uint32_t n = st & ~(uint32_t)(SPP | SPIE | SIE);
    if (p == 1) n |= SPP;
    if (st & SIE) n |= SPIE;
    e.csr[csr_mstatus] = n; e.csr[csr_sepc] = epc; e.csr[csr_scause] = cause; e.csr[csr_stval] = tval;
    e.priv = 1; e.pc = tvec(c[csr_stvec], irq, code);
  } else {
    uint32_t n = st & ~(uint32_t)(MPP | MPIE | MIE);
    n |= p << 11;
    if (st & MIE) n |= MPIE;
    e.csr[csr_mstatus] = n; e.csr[csr_mepc] = epc; e.csr[csr_mcause] = cause; e.csr[csr_mtval] = tval;
    e.priv = 3; e.pc = tvec(c[csr_mtvec], irq, code);
  }
  e.csr[csr_sstatus] = e.csr[csr_mstatus] & SMASK;
}
static inline void mret(Exp &e, const uint32_t *c) {
  for (int i = 0; i < 21; i++) e.csr[i] = c[i];
  uint32_t st = c[csr_mstatus], n = (st & ~(uint32_t)(MPP | MIE)) | MPIE;
  if (st & MPIE) n |= MIE;
  e.csr[csr_mstatus] = n; e.csr[csr_sstatus] = n & SMASK;
  e.priv = (st >> 11) & 3; e.pc = c[csr_mepc];
}
static inline void sret(Exp &e, const uint32_t *c) {
  for (int i = 0; i < 21; i++) e.csr[i] = c[i];
  uint32_t st = c[csr_mstatus], n = (st & ~(uint32_t)(SPP | SIE)) | SPIE;
  if (st & SPIE) n |= SIE;
  e.csr[csr_mstatus] = n; e.csr[csr_sstatus] = n & SMASK;
  e.priv = (st >> 8) & 1; e.pc = c[csr_sepc];
}
// privilege of a data access
static inline uint32_t data_priv(uint32_t mstatus, uint32_t p) { return (mstatus & MPRV) ? (mstatus >> 11) & 3 : p; }
static inline bool translated(uint32_t satp, uint32_t eff) { return (satp >> 31) && eff != 3; }

enum { FETCH = 0, READ = 1, WRITE = 2 };
// permission of a leaf PTE
static inline bool leaf_ok(uint32_t pte, uint32_t type, uint32_t eff, bool sum, bool mxr) {
  bool r = pte & 2, w = pte & 4, x = pte & 8, u = pte & 16, a = pte & 64, d = pte & 128;
  if (type == FETCH && !x) return false;
  if (type == READ && !(r || (mxr && x))) return false;
  if (type == WRITE && !w) return false;
  if (eff == 0 && !u) return false;
  if (eff == 1 && u && (type == FETCH || !sum)) return false;
  if (!a) return false;
  if (type == WRITE && !d) return false;
  return true;
}
static inline bool pte_bad(uint32_t pte) { return !(pte & 1) || (!(pte & 2) && (pte & 4)); }
static inline bool pte_leaf(uint32_t pte) { return pte & 0xa; }
// two-level walk; mem is the word memory; physical addresses are 32 bits wide
template <class Mem> static inline bool sv32(Mem mem, uint32_t satp, uint32_t mstatus, uint32_t eff, uint32_t va, uint32_t type, uint32_t &pa) {
  bool sum = mstatus & SUM, mxr = mstatus & MXR;
  uint32_t p1 = mem(((satp & 0x3fffffu) << 12) + (va >> 22) * 4);
  if (pte_bad(p1)) return false;
  if (pte_leaf(p1)) {
    pa = ((p1 >> 20) << 22) | (va & 0x3fffffu);
    return leaf_ok(p1, type, eff, sum, mxr) && ((p1 >> 10) & 0x3ff) == 0;
  }
  uint32_t p0 = mem(((p1 >> 10) << 12) + ((va >> 12) & 0x3ff) * 4);
  if (pte_bad(p0) || !pte_leaf(p0)) return false;
  pa = ((p0 >> 10) << 12) | (va & 0xfffu);
  return leaf_ok(p0, type, eff, sum, mxr);
}
} // namespace priv
