// Trusted contracts of std::vector and std::deque: finite sequences.
// Force-included before the code under verification; the sequence is kept in
// place with a capacity, and exceeding the capacity is a failed obligation.
#pragma once
#include "vc.h"
#include <algorithm>
#include <array>
#include <bitset>
#include <cassert>
#include <climits>
#include <cmath>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
template <class T> struct vc_capacity { static constexpr size_t value = sizeof(T) > 512 ? 16 : 64; };
class IssueQueue; struct IqStoredEntry; struct IssueQueueConfig;
template <> struct vc_capacity<IssueQueue> { static constexpr size_t value = 8; };
template <> struct vc_capacity<IssueQueueConfig> { static constexpr size_t value = 8; };
template <> struct vc_capacity<IqStoredEntry> { static constexpr size_t value = 32; };
template <> struct vc_capacity<int> { static constexpr size_t value = 32; };
template <> struct vc_capacity<bool> { static constexpr size_t value = 32; };
template <> struct vc_capacity<std::pair<int, int>> { static constexpr size_t value = 8; };
namespace std {
template <class T, size_t CAP> class vc_seq {
public:
  union { T d[CAP]; };
  size_t n;
  typedef T value_type; typedef T *iterator; typedef const T *const_iterator; typedef T &reference; typedef const T &const_reference; typedef size_t size_type;
  vc_seq() : n(0) { if constexpr (std::is_trivially_copy_constructible_v<T> && sizeof(T) <= 16) memset((void *)d, 0, sizeof d); } // unused positions: any fixed value
  vc_seq(size_t k) : vc_seq() { resize(k); }
  vc_seq(size_t k, const T &v) : vc_seq() { resize(k, v); }
  vc_seq(const vc_seq &o) : vc_seq() { assign_from(o); }
  vc_seq(vc_seq &&o) : vc_seq() { assign_from(o); }
  vc_seq(std::initializer_list<T> l) : vc_seq() { for (auto &x : l) push_back(x); }
  vc_seq &operator=(const vc_seq &o) { if (this != &o) assign_from(o); return *this; }
  vc_seq &operator=(vc_seq &&o) { if (this != &o) assign_from(o); return *this; }
  ~vc_seq() {}
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  size_t capacity() const { return CAP; }
  void reserve(size_t) {}
  void shrink_to_fit() {}
  void clear() { n = 0; }
  T *data() { return d; } const T *data() const { return d; }
  T *begin() { return d; } T *end() { return d + n; }
  const T *begin() const { return d; } const T *end() const { return d + n; }
  const T *cbegin() const { return d; } const T *cend() const { return d + n; }
  T &operator[](size_t i) { vc_assert(i < n, "sequence index within bounds"); return d[i]; }
  const T &operator[](size_t i) const { vc_assert(i < n, "sequence index within bounds"); return d[i]; }
  T &at(size_t i) { vc_assert(i < n, "sequence index within bounds"); return d[i]; }
  const T &at(size_t i) const { vc_assert(i < n, "sequence index within bounds"); return d[i]; }
  T &front() { vc_assert(n > 0, "front of a non-empty sequence"); return d[0]; }
  const T &front() const { vc_assert(n > 0, "front of a non-empty sequence"); return d[0]; }
  T &back() { vc_assert(n > 0, "back of a non-empty sequence"); return d[n - 1]; }
  const T &back() const { vc_assert(n > 0, "back of a non-empty sequence"); return d[n - 1]; }
  void push_back(const T &v) { room(); new (d + n) T(v); n++; }
  void push_back(T &&v) { room(); new (d + n) T(v); n++; }
  template <class... A> T &emplace_back(A &&...a) { room(); new (d + n) T(std::forward<A>(a)...); return d[n++]; }
  void pop_back() { vc_assert(n > 0, "pop of a non-empty sequence"); n--; }
  void pop_front() { vc_assert(n > 0, "pop of a non-empty sequence"); erase(d); }
  T *erase(const T *p) {
    vc_assert(p >= d && p < d + n, "erase of an element");
    for (size_t i = 0; i + 1 < CAP; i++) if (d + i >= p && i + 1 < n) d[i] = d[i + 1];
    n--;
    return const_cast<T *>(p);
  }
  void resize(size_t k) { vc_assert(k <= CAP, "sequence within the modelled capacity"); for (size_t i = n; i < k; i++) new (d + i) T(); n = k; }
  void resize(size_t k, const T &v) { vc_assert(k <= CAP, "sequence within the modelled capacity"); for (size_t i = n; i < k; i++) new (d + i) T(v); n = k; }
  void assign(size_t k, const T &v) { n = 0; resize(k, v); }
private:
  void room() { vc_assert(n < CAP, "sequence within the modelled capacity"); }
  void assign_from(const vc_seq &o) {
    if constexpr (std::is_trivially_copy_constructible_v<T>) memcpy((void *)d, (const void *)o.d, sizeof d);
    else for (size_t i = 0; i < CAP; i++) if (i < o.n) new (d + i) T(o.d[i]);
    n = o.n;
  }
};
template <class T, class = void> class vc_vector : public vc_seq<T, vc_capacity<T>::value> { public: using vc_seq<T, vc_capacity<T>::value>::vc_seq; };
template <class T, class = void> class vc_deque : public vc_seq<T, 4> { public: using vc_seq<T, 4>::vc_seq; };
}
#define vector vc_vector
#define deque vc_deque
