// Tree: nodes, children, values.
// vp: variants debug ndebug
// bound: trees with 2, 3 and 6 children per node; every sequence of 5 operations that add a child to or set the value of one of the nodes; values any 32-bit integer
#include <il/Tree.h>
#include "vp.h"
template <int n> struct Ref {
  static const int kMax = 1 + n + n * n;
  bool in[kMax], set[kMax];
  int v[kMax];
};
template <int n> static void history(int steps) {
  typedef il::Tree<int, n> T;
  Ref<n> m;
  il::spot_t s[Ref<n>::kMax];
  for (int k = 0; k < Ref<n>::kMax; ++k) m.in[k] = m.set[k] = false;
  const long how = vp_pick("how", 0, 1);
  T a = how ? T{2} : T{};
  m.in[0] = true;
  s[0] = a.root();
  for (int q = 0; q < steps; ++q) {
    const int k = (int)vp_pick("node", 0, n);  // the root or one of its children
    vp_assume(m.in[k]);
    if (vp_flag("op")) {
      const int x = vp_i32("x");
      a.Set(s[k], x);
      m.set[k] = true;
      m.v[k] = x;
    } else {
      const int i = (int)vp_pick("child", 0, n - 1);
      a.AddChild(s[k], i);
      const int c = n * k + 1 + i;
      m.in[c] = true;
      s[c] = a.child(s[k], i);
      vp_assert(a.parent(s[c]).index == s[k].index, "parent of a child");
    }
  }
  int depth = 0;
  for (int k = 0; k < Ref<n>::kMax; ++k) if (m.in[k]) depth = k == 0 ? 0 : k <= n ? 1 : 2;
  vp_assert(a.depth() == depth, "depth");
  T b{a};
  for (int k = 0; k < Ref<n>::kMax; ++k) {
    if (!m.in[k]) continue;
    for (int j = 0; j < k; ++j) if (m.in[j]) vp_assert(s[j].index != s[k].index, "two nodes share a spot");
    vp_assert(b.isEmpty(s[k]) == !m.set[k], "a node is empty if and only if its value has not been set");
    if (m.set[k]) vp_assert(b.value(s[k]) == m.v[k], "value of a node");
    if (k > n) { vp_assert(!b.hasChild(s[k]), "a leaf has no child"); continue; }
    long nb = 0;
    il::SmallArray<il::int_t, n> c = b.children(s[k]);
    for (int i = 0; i < n; ++i) {
      const bool in = m.in[n * k + 1 + i];
      vp_assert(b.hasChild(s[k], i) == in, "hasChild");
      if (in) { vp_assert(nb < c.size() && c[nb] == i, "children"); ++nb; }
    }
    vp_assert(c.size() == nb && b.hasChild(s[k]) == (nb > 0), "number of children");
  }
  vp_cover("history");
}
VP_ENTRY(D02_2) { history<2>(5); }
VP_ENTRY(D02_3) { history<3>(4); }
VP_ENTRY(D02_6) { history<6>(3); }
