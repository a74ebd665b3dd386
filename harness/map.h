// Shared by C01, C02: a Map against a reference dictionary, for every hash function
#ifndef MAP_H
#define MAP_H
#include <il/Map.h>
#include "vp.h"
#include <utility>

// number of different keys
#ifdef VP_DEEP
static const int kK = 4;
#else
static const int kK = 3;
#endif
// The hash function: an arbitrary table (one 64-bit value per key, of which a map
// with 2^p slots uses the first p bits).
static uint64_t g_hash[4];

// A key with an identity that owns memory
struct Key {
  long tag;  // 0: a key, 1: empty slot, 2: tombstone
  VpObj o;
  Key(int k) : tag{0}, o{k} {}
  Key(const Key& k) : tag{0}, o{k.o} {}
  Key(Key&& k) : tag{0}, o{std::move(k.o)} {}
  Key& operator=(const Key& k) { o = k.o; return *this; }
};
struct KeyHash {
  static bool isEmpty(const Key& k) { return k.tag == 1; }
  static bool isTombstone(const Key& k) { return k.tag == 2; }
  static void constructEmpty(il::io_t, Key* k) { k->tag = 1; }
  static void constructTombstone(il::io_t, Key* k) { k->tag = 2; }
  static std::size_t hash(const Key& k, int p) { return (std::size_t)vp_concretize(g_hash[k.o.value()] >> (64 - p)); }
  static bool isEqual(const Key& a, const Key& b) { return a.o.value() == b.o.value(); }
};
// Plain integer keys with the same hash function
struct IntHash {
  static bool isEmpty(int k) { return k == -1; }
  static bool isTombstone(int k) { return k == -2; }
  static void constructEmpty(il::io_t, int* k) { *k = -1; }
  static void constructTombstone(il::io_t, int* k) { *k = -2; }
  static std::size_t hash(int k, int p) { return (std::size_t)vp_concretize(g_hash[k] >> (64 - p)); }
  static bool isEqual(int a, int b) { return a == b; }
};
static int num(const int& k) { return k; }
static int num(const Key& k) { return k.o.value(); }
static int val(const int& k) { return k; }
static int val(const VpObj& k) { return k.value(); }

struct Dict { bool in[4]; int v[4]; };
inline long count(const Dict& d) { long n = 0; for (int k = 0; k < kK; ++k) n += d.in[k]; return n; }

static void hashes() {
  for (int k = 0; k < kK; ++k) {
#ifdef VP_DEEP
    g_hash[k] = vp_u64("hash");
#else
    // 0, 1, 2 or 15 sixteenths of the range: collisions in tables of every size up to 16, and wrap-around
#ifdef VP_HASH3
    const uint64_t h = vp_int("hash", 0, 2);
    g_hash[k] = (h == 2 ? 15 : h) << 60;
    continue;
#else
    const uint64_t h = vp_int("hash", 0, 3);
    g_hash[k] = (h == 3 ? 15 : h) << 60;
#endif
#endif
  }
}

template <typename K, typename V, typename F>
static void same(const il::Map<K, V, F>& a, const Dict& d) {
  const long n = count(d);
  vp_assert(a.nbElements() == n && a.isEmpty() == (n == 0), "number of elements");
  vp_assert(a.nbTombstones() >= 0 && n + a.nbTombstones() <= a.nbBuckets(), "number of tombstones");
  vp_assert(n == 0 || n < a.nbBuckets(), "a map needs a free slot");
  for (int k = 0; k < kK; ++k) {
    const K key(k);
    const il::spot_t i = a.search(key);
    vp_assert(a.found(i) == d.in[k], "a key is found if and only if it was set and not erased");
    if (d.in[k]) {
      vp_assert(num(a.key(i)) == k, "key of the spot of a key");
      vp_assert(val(a.value(i)) == d.v[k], "value of a key");
    }
    V def(1234567);
    vp_assert(val(a.valueForKey(key, def)) == (d.in[k] ? d.v[k] : 1234567), "valueForKey with a default value");
  }
  int seen[4] = {0, 0, 0, 0};
  long steps = 0;
  for (il::spot_t i = a.spotBegin(); i != a.spotEnd(); i = a.next(i)) {
    vp_assert(++steps <= n, "the loop over the map visits too many elements");
    const int k = num(a.key(i));
    vp_assert(k >= 0 && k < kK && d.in[k], "the loop over the map visits a key that is not there");
    vp_assert(++seen[k] == 1, "the loop over the map visits a key twice");
    vp_assert(val(a.value(i)) == d.v[k], "the loop over the map shows a wrong value");
  }
  vp_assert(steps == n, "the loop over the map misses an element");
}

template <typename K, typename V, typename F>
static void set(il::Map<K, V, F>& a, Dict& d) {
  const int k = (int)vp_pick("k", 0, kK - 1);
  const int x = vp_i32("x");
  a.Set(K(k), V(x));
  d.in[k] = true;
  d.v[k] = x;
}
template <typename K, typename V, typename F>
static void erase(il::Map<K, V, F>& a, Dict& d) {
  const int k = (int)vp_pick("k", 0, kK - 1);
  vp_assume(d.in[k]);
  const K key(k);
  const il::spot_t i = a.search(key);
  a.erase(i);
  d.in[k] = false;
}
template <typename K, typename V, typename F>
static void write(il::Map<K, V, F>& a, Dict& d) {
  switch (vp_pick("write", 0, 5)) {
    case 0: set(a, d); break;
    case 1: erase(a, d); break;
    case 2: {  // every overload
      const int k = (int)vp_pick("k", 0, kK - 1);
      const int x = vp_i32("x");
      K key(k);
      V v(x);
      switch (vp_pick("how", 0, 2)) {
        case 0: a.Set(key, v); vp_assert(num(key) == k && val(v) == x, "Set changed its arguments"); break;
        case 1: a.Set(key, std::move(v)); vp_assert(num(key) == k, "Set changed its key"); break;
        case 2: a.Set(std::move(key), v); vp_assert(val(v) == x, "Set changed its value"); break;
      }
      d.in[k] = true;
      d.v[k] = x;
      break;
    }
    case 3: {  // search, then set or change
      const int k = (int)vp_pick("k", 0, kK - 1);
      const int x = vp_i32("x");
      K key(k);
      V v(x);
      il::spot_t i = a.search(key);
      if (a.found(i)) {
        a.Value(i) = V(x);
      } else {
        switch (vp_pick("how", 0, 3)) {
          case 0: a.Set(key, v, il::io, i); break;
          case 1: a.Set(key, std::move(v), il::io, i); break;
          case 2: a.Set(std::move(key), v, il::io, i); break;
          case 3: a.Set(std::move(key), std::move(v), il::io, i); break;
        }
        vp_assert(a.found(i) && num(a.key(i)) == k && val(a.value(i)) == x, "Set does not give the spot of the new element");
      }
      d.in[k] = true;
      d.v[k] = x;
      break;
    }
    case 4: { const long r[3] = {0, 3, 12}; const long n = r[vp_pick("reserve", 0, 2)]; a.Reserve(n); vp_assert(n == 0 || a.nbBuckets() > n, "Reserve does not give the room asked"); break; }
    case 5: a.Rehash(); vp_assert(a.nbTombstones() == 0, "tombstones after a rehash"); break;
  }
}
// a map with 0 or 2 elements set one after the other, and possibly one erased, in 0, 4 or 16 slots
template <typename K, typename V, typename F>
static void start(il::Map<K, V, F>& a, Dict& d) {
  for (int k = 0; k < 4; ++k) d.in[k] = false;
  const long r[3] = {0, 2, 12};
  a.Reserve(r[vp_pick("slots", 0, 2)]);
  const long n = vp_pick("n", 0, 2);
  for (long i = 0; i < n; ++i) {
    const int x = vp_i32("x");
    const int k = (int)i;  // the hash function is arbitrary: any two keys are alike
    a.Set(K(k), V(x));
    d.in[k] = true;
    d.v[k] = x;
  }
}
#endif
