// Set: mathematical sets, for every hash function.
// vp: variants debug ndebug
// bound: 3 elements (4 with VP_DEEP); every sequence of 4 additions, copies, moves, assignments or clears among two sets; the hash of each element is one of 3 values that collide or not (any 64-bit value with VP_DEEP)
#define VP_HASH3
#include <il/Set.h>
#include "map.h"

template <typename K, typename F>
static void same(const il::Set<K, F>& a, const Dict& d) {
  const long n = count(d);
  vp_assert(a.nbElements() == n, "number of elements");
  for (int k = 0; k < kK; ++k) {
    const K key(k);
    vp_assert(a.contains(key) == d.in[k], "contains");
    const il::spot_t i = a.search(key);
    vp_assert(a.found(i) == d.in[k], "an element is found if and only if it was added");
    if (d.in[k]) vp_assert(num(a.element(i)) == k, "element of a spot");
  }
  int seen[4] = {0, 0, 0, 0};
  long steps = 0;
  for (il::spot_t i = a.spotBegin(); i != a.spotEnd(); i = a.next(i)) {
    vp_assert(++steps <= n, "the loop visits too many elements");
    const int k = num(a.element(i));
    vp_assert(k >= 0 && k < kK && d.in[k] && ++seen[k] == 1, "the loop visits an element twice or one that is not there");
  }
  vp_assert(steps == n, "the loop misses an element");
}
template <typename K, typename F>
static void add(il::Set<K, F>& a, Dict& d) {
  const int k = (int)vp_pick("k", 0, kK - 1);
  const K key(k);
  if (vp_flag("spot")) {
    il::spot_t i = a.search(key);
    if (!a.found(i)) { a.Add(key, il::io, i); vp_assert(a.found(i) && num(a.element(i)) == k, "Add does not give the spot of the new element"); }
  } else a.Add(key);
  vp_assert(num(key) == k, "Add changed its argument");
  d.in[k] = true;
}
template <typename K, typename F>
static void history() {
  typedef il::Set<K, F> S;
  {
    hashes();
    S a{}, b{};
    Dict d, e, none;
    for (int k = 0; k < 4; ++k) d.in[k] = e.in[k] = none.in[k] = false;
    for (int s = 0; s < 4; ++s) {
      switch (vp_pick("op", 0, s < 2 ? 1 : 7)) {
        case 0: add(a, d); break;
        case 1: if (s == 0) { b.Add(K(1)); e.in[1] = true; } break;
        case 2: a = b; d = e; break;
        case 3: b = std::move(a); e = d; d = none; break;
        case 4: { S& r = a; a = r; a = std::move(r); break; }
        case 5: { S c{a}; same(c, d); b = c; e = d; c.Clear(); same(c, none); break; }
        case 6: { S c{std::move(a)}; same(c, d); same(a, none); add(c, d); a = c; break; }
        case 7: a.Clear(); d = none; break;
      }
    }
    same(a, d);
    same(b, e);
    vp_cover("history");
  }
  vp_assert(VpObj::alive_ == 0, "elements are not destroyed exactly once");
}
VP_ENTRY(C04_int) { history<int, IntHash>(); }
VP_ENTRY(C04_obj) { history<Key, KeyHash>(); }
