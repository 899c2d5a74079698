// Trusted contract of std::unordered_map<uint32_t,uint32_t>: a partial map
// from 32-bit keys to 32-bit values.  Modelled by a presence array and a value
// array; find / erase / operator[] / count / contains / at are replaced.
#pragma once
#include "vc.h"
#include <unordered_map>
typedef std::unordered_map<uint32_t, uint32_t> UMap;
static uint8_t *um_present;   // indexed by key>>2 (only word-aligned keys are used)
static uint32_t *um_value;
struct UmNode { void *next; uint32_t key, value; };
static UmNode um_node;
static const void *um_find(const UMap *, const uint32_t *key) {
  vc_assert((*key & 3) == 0, "io map is keyed by aligned word addresses");
  if (um_present[*key >> 2]) { um_node.key = *key; um_node.value = um_value[*key >> 2]; return &um_node; }
  return nullptr;
}
static size_t um_erase(UMap *, const uint32_t *key) {
  size_t r = um_present[*key >> 2] != 0;
  vc_assert((*key & 3) == 0, "io map is keyed by aligned word addresses");
  um_present[*key >> 2] = 0; return r;
}
static uint32_t *um_index(UMap *, const uint32_t *key) {
  vc_assert((*key & 3) == 0, "io map is keyed by aligned word addresses");
  if (!um_present[*key >> 2]) { um_present[*key >> 2] = 1; um_value[*key >> 2] = 0; }
  return &um_value[*key >> 2];
}
static size_t um_count(const UMap *, const uint32_t *key) { return um_present[*key >> 2] != 0; }
static void um_install() {
  um_present = (uint8_t *)vc_new_array(1ull << 30, 1, "iomap_present");
  um_value = (uint32_t *)vc_new_array(1ull << 32, 4, "iomap_value");
  vc_replace(vc_fn((UMap::iterator(UMap::*)(const uint32_t &)) & UMap::find), (const void *)um_find);
  vc_replace(vc_fn((UMap::const_iterator(UMap::*)(const uint32_t &) const) & UMap::find), (const void *)um_find);
  vc_replace(vc_fn((size_t(UMap::*)(const uint32_t &)) & UMap::erase), (const void *)um_erase);
  vc_replace(vc_fn((uint32_t & (UMap::*)(const uint32_t &)) & UMap::operator[]), (const void *)um_index);
  vc_replace(vc_fn((uint32_t & (UMap::*)(uint32_t &&)) & UMap::operator[]), (const void *)um_index);
  vc_replace(vc_fn((size_t(UMap::*)(const uint32_t &) const) & UMap::count), (const void *)um_count);
}
// value the abstract map holds for an aligned word address (0 when absent)
static inline uint32_t um_get(uint32_t addr) { return um_present[addr >> 2] ? um_value[addr >> 2] : 0; }
#ifdef VC_NATIVE
static void um_fill(UMap &m) {
  uint64_t i, p, j, v;
  for (size_t k = 0; vc_model_arr("iomap_present", k, &i, &p); k++) if (p) {
    m[(uint32_t)(i << 2)] = 0;
    for (size_t l = 0; vc_model_arr("iomap_value", l, &j, &v); l++) if (j == i) m[(uint32_t)(i << 2)] = (uint32_t)v;
  }
}
#endif
