// Map: copies, moves, assignments, clear, reserve; the key types of the library.
// vp: variants debug ndebug
// bound: 3 keys (4 with VP_DEEP), pairs of maps of 0, 4 or 16 slots with 0..2 elements each, every sequence of 2 whole-map operations and then one write to either; values any 32-bit integer; the hash of each key is one of 3 values (any 64-bit value with VP_DEEP)
// bound: keys of type int and long: all values in the hash function, maps of up to 3 of them with values chosen by the solver among small integers
#define VP_HASH3
#include "map.h"

template <typename K, typename V, typename F>
static void pairs() {
  typedef il::Map<K, V, F> M;
  {
    hashes();
    M a{};
    Dict d;
    start(a, d);
    if (vp_flag("tombstone")) erase(a, d);
    M b{};
    Dict e;
    for (int k = 0; k < 4; ++k) e.in[k] = false;
    if (vp_flag("b")) { b.Reserve(1); b.Set(K(2), V(11)); e.in[2] = true; e.v[2] = 11; }
    switch (vp_pick("op", 0, 9)) {
      case 0: b = a; e = d; break;
      case 1: a = b; d = e; break;
      case 2: { M c{a}; same(c, d); if (vp_flag("write")) set(c, e); else c.Clear(); for (int k = 0; k < 4; ++k) e.in[k] = false; b = M{}; break; }
      case 3: { M c{std::move(a)}; same(c, d); Dict z; for (int k = 0; k < 4; ++k) z.in[k] = false; same(a, z); a = std::move(c); break; }
      case 4: b = std::move(a); e = d; for (int k = 0; k < 4; ++k) d.in[k] = false; break;
      case 5: { M& r = a; a = r; break; }
      case 6: { M& r = a; a = std::move(r); break; }
      case 7: { a.Clear(); for (int k = 0; k < 4; ++k) d.in[k] = false; vp_assert(a.nbElements() == 0 && a.nbTombstones() == 0 && a.isEmpty(), "a cleared map is not empty"); break; }
      case 8: { M c{vp_pick("c", 0, 3)}; for (int k = 0; k < 4; ++k) d.in[k] = false; same(c, d); set(c, d); a = c; break; }
      case 9: {
        int x = vp_i32("x"), y = vp_i32("x");
        M c{il::value, {il::KeyValue<K, V>{K(2), V(x)}, il::KeyValue<K, V>{K(0), V(y)}}};
        for (int k = 0; k < 4; ++k) d.in[k] = false;
        d.in[2] = d.in[0] = true; d.v[2] = x; d.v[0] = y;
        same(c, d);
        a = std::move(c);
        M z{il::value, {}};
        b = z;
        for (int k = 0; k < 4; ++k) e.in[k] = false;
        break;
      }
    }
    if (vp_flag("then")) set(a, d); else set(b, e);
    same(a, d);
    same(b, e);
    vp_cover("pairs");
  }
  vp_assert(VpObj::alive_ == 0, "keys or values are not destroyed exactly once");
}
VP_ENTRY(C02_int) { pairs<int, int, IntHash>(); }
VP_ENTRY(C02_obj) { pairs<Key, VpObj, KeyHash>(); }

// The hash functions of the library
template <typename T> static void contract(T a, T b) {
  typedef il::HashFunction<T> F;
  const int p = (int)vp_pick("p", 1, 62);
  vp_assert(F::hash(a, p) < ((std::size_t)1 << p), "hash outside the table");
  vp_assert(F::isEqual(a, b) == (a == b), "isEqual");
  T e, t;
  F::constructEmpty(il::io, &e);
  F::constructTombstone(il::io, &t);
  vp_assert(F::isEmpty(e) && !F::isTombstone(e) && F::isTombstone(t) && !F::isEmpty(t), "empty slots and tombstones are not told apart");
  vp_assert(F::isEmpty(a) == (a == e) && F::isTombstone(a) == (a == t), "a key is taken for an empty slot");
  vp_cover("contract");
}
VP_ENTRY(C02_hash_int) { contract<int>(vp_i32("a"), vp_i32("b")); }
VP_ENTRY(C02_hash_long) { contract<long>(vp_i64("a"), vp_i64("b")); }
template <typename T> static void keys() {
  il::Map<T, int> m{};
  T k[3];
  int v[3];
  long n = 0;
  for (int i = 0; i < 3; ++i) {
    k[i] = (T)vp_pick("key", -1, 2);
    v[i] = vp_i32("v");
    m.Set(k[i], v[i]);
    bool first = true;
    for (int j = 0; j < i; ++j) first = first && k[j] != k[i];
    n += first;
  }
  vp_assert(m.nbElements() == n, "number of elements");
  bool ok = true;
  for (int i = 0; i < 3; ++i) {
    int want = v[i];
    for (int j = i + 1; j < 3; ++j) if (k[j] == k[i]) want = v[j];
    ok = ok & (m.valueForKey(k[i]) == want);
  }
  vp_assert(ok, "last value set for a key");
  vp_assert(m.valueForKey((T)5) == 0, "value of a missing key");
  vp_cover("keys");
}
VP_ENTRY(C02_keys_int) { keys<int>(); }
VP_ENTRY(C02_keys_long) { keys<long>(); }
