// Map: dictionary semantics, for every hash function.
// vp: variants debug ndebug
// bound: 3 keys (4 with VP_DEEP), maps of 0, 4 or 16 slots that start with 0..2 elements, then every sequence of 2 operations (integer keys in release builds, keys that own memory in debug builds; 1 operation otherwise) (set with each overload, search and set, change, erase, reserve, rehash); values any 32-bit integer
// bound: the hash of each key is one of 4 values that collide or not in tables of each size up to 16 (any 64-bit value with VP_DEEP); integer keys and keys that own memory
#include "map.h"

template <typename K, typename V, typename F>
static void history(int steps) {
  {
    hashes();
    il::Map<K, V, F> a{};
    Dict d;
    start(a, d);
    for (int s = 0; s < steps; ++s) write(a, d);
    same(a, d);
    vp_cover("history");
  }
  vp_assert(VpObj::alive_ == 0, "keys or values are not destroyed exactly once");
}
#ifdef NDEBUG
static const bool kDebug = false;
#else
static const bool kDebug = true;
#endif
#ifdef VP_DEEP
VP_ENTRY(C01_int) { history<int, int, IntHash>(2); }
VP_ENTRY(C01_obj) { history<Key, VpObj, KeyHash>(2); }
#else
VP_ENTRY(C01_int) { history<int, int, IntHash>(kDebug ? 1 : 2); }
VP_ENTRY(C01_obj) { history<Key, VpObj, KeyHash>(kDebug ? 2 : 1); }
#endif
