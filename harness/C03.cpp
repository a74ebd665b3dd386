// MapArray: a dictionary that remembers the order of insertion.
// vp: variants debug ndebug
// bound: 3 keys (4 with VP_DEEP), built empty, with room or from a list, then every sequence of 3 set operations (all overloads, new and existing keys, with and without a previous search) or copies; values any 32-bit integer; the hash of each key is one of 4 values (any 64-bit value with VP_DEEP)
#define VP_HASH3
#include <il/MapArray.h>
#include "map.h"

struct Order { long n; int k[4]; int v[4]; };
static long where(const Order& o, int k) { for (long i = 0; i < o.n; ++i) if (o.k[i] == k) return i; return -1; }
template <typename K, typename V, typename F>
static void same(const il::MapArray<K, V, F>& a, const Order& o) {
  vp_assert(a.size() == o.n && a.nbElements() == o.n && a.capacity() >= o.n, "number of elements");
  long n = 0;
  for (il::spot_t i = a.spotBegin(); i != a.spotEnd(); i = a.next(i), ++n) {
    vp_assert(n < o.n, "the loop visits too many elements");
    vp_assert(num(a.key(i)) == o.k[n], "the elements are not visited in the order of insertion");
    vp_assert(val(a.value(i)) == o.v[n], "value");
  }
  vp_assert(n == o.n, "the loop misses an element");
  for (int k = 0; k < kK; ++k) {
    const long w = where(o, k);
    const il::spot_t i = a.search(K(k));
    vp_assert(a.found(i) == (w >= 0), "a key is found if and only if it was set");
    if (w >= 0) vp_assert(num(a.key(i)) == k && val(a.value(i)) == o.v[w], "value of a key");
  }
}
template <typename K, typename V, typename F>
static void history() {
  typedef il::MapArray<K, V, F> M;
  {
    hashes();
    Order o;
    o.n = 0;
    const long how = vp_pick("start", 0, 2);
    M a = how == 0 ? M{} : how == 1 ? M{3} : M{il::value, {il::KeyValue<K, V>{K(2), V(5)}, il::KeyValue<K, V>{K(0), V(6)}}};
    if (how == 2) { o.n = 2; o.k[0] = 2; o.k[1] = 0; o.v[0] = 5; o.v[1] = 6; }
    for (int s = 0; s < 3; ++s) {
      if (s == 1 && vp_flag("copy")) {
        if (vp_flag("move")) { M c{std::move(a)}; same(c, o); a = std::move(c); }
        else { M c{a}; same(c, o); c.Set(K(1), V(1)); M z{}; z = a; a = z; }
      }
      const int k = (int)vp_pick("k", 0, kK - 1);
      const int x = vp_i32("x");
      K key(k);
      V v(x);
      const long w = where(o, k);
      const long set = s == 2 ? vp_pick("set", 0, 7) : vp_pick("set", 0, 1) * 5;
      if (set < 4) {
        switch (set) {
          case 0: a.Set(key, v); vp_assert(num(key) == k && val(v) == x, "Set changed its arguments"); break;
          case 1: a.Set(key, std::move(v)); vp_assert(num(key) == k, "Set changed its key"); break;
          case 2: a.Set(std::move(key), v); vp_assert(val(v) == x, "Set changed its value"); break;
          case 3: a.Set(std::move(key), std::move(v)); break;
        }
      } else {
        il::spot_t i = a.search(key);
        if (a.found(i)) a.Value(i) = V(x);
        else {
          switch (set) {
            case 4: a.Set(key, v, il::io, i); break;
            case 5: a.Set(key, std::move(v), il::io, i); break;
            case 6: a.Set(std::move(key), v, il::io, i); break;
            case 7: a.Set(std::move(key), std::move(v), il::io, i); break;
          }
          vp_assert(a.found(i) && num(a.key(i)) == k && val(a.value(i)) == x, "Set does not give the spot of the new element");
        }
      }
      if (w >= 0) o.v[w] = x;
      else { o.k[o.n] = k; o.v[o.n++] = x; }
    }
    same(a, o);
    vp_cover("history");
  }
  vp_assert(VpObj::alive_ == 0, "keys or values are not destroyed exactly once");
}
VP_ENTRY(C03_int) { history<int, int, IntHash>(); }
VP_ENTRY(C03_obj) { history<Key, VpObj, KeyHash>(); }
