// Fixed-size arrays (one to four dimensions) and one-dimensional views.
// vp: variants debug ndebug
// bound: StaticArray of 0..4 elements, StaticArray2D/2C 3x2, 3D 2x3x2, 4D 2x2x3x2; all element values any 32-bit integer; a trivial and a resource-owning element type
// bound: views of arrays of 1..4 elements: every sub-range, every sub-range of a sub-range, every element written through a view
#include <il/Array.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include "vp.h"

static int val(const int& x) { return x; }
static int val(const VpObj& x) { return x.value(); }

// ---- one dimension
template <typename T>
static void static1() {
  typedef il::StaticArray<T, 4> A;
  int v[4], w[4];
  for (int i = 0; i < 4; ++i) { v[i] = vp_i32("v"); w[i] = vp_i32("w"); }
  A a{il::value, {T(v[0]), T(v[1]), T(v[2]), T(v[3])}};
  int x = vp_i32("x");
  A b{T(x)};
  A c{};
  for (int i = 0; i < 4; ++i) c[i] = T(w[i]);
  auto same = [](const A& p, const int* m) {
    vp_assert(p.size() == 4, "size");
    bool ok = true;
    for (int i = 0; i < 4; ++i) ok = ok & (val(p[i]) == m[i]) & (val(p.data()[i]) == m[i]);
    vp_assert(ok, "element differs from the reference");
    vp_assert(&p.back() == &p[3], "back() is not the last element");
  };
  int xs[4] = {x, x, x, x};
  same(a, v); same(b, xs); same(c, w);
  switch (vp_pick("op", 0, 4)) {
    case 0: { A d{a}; same(d, v); d[2] = T(x); same(a, v); v[2] = x; same(d, v); break; }
    case 1: { b = a; same(b, v); b[0] = T(x); same(a, v); break; }
    case 2: { A d{std::move(a)}; same(d, v); break; }
    case 3: { a = a; same(a, v); break; }
    case 4: { int k = vp_pick("k", 0, 3); a[k] = T(x); v[k] = x; a.Back() = T(w[1]); v[3] = w[1]; a.Data()[1] = T(w[0]); v[1] = w[0]; same(a, v); break; }
  }
  vp_cover("static1");
}
VP_ENTRY(A04_static_int) { static1<int>(); }
VP_ENTRY(A04_static_obj) { static1<VpObj>(); }
VP_ENTRY(A04_static_zero) {
  il::StaticArray<int, 0> a{};
  il::StaticArray<int, 0> b{a};
  vp_assert(a.size() == 0 && b.size() == 0 && b.view().size() == 0, "size of an empty array");
  vp_cover("zero");
}

// ---- two to four dimensions
template <typename A, bool column>
static void same2(const A& a, long n0, long n1, int (*m)[4]) {
  vp_assert(a.size(0) == n0 && a.size(1) == n1, "extents");
  bool ok = true, pos = true;
  for (long j = 0; j < n1; ++j)
    for (long i = 0; i < n0; ++i) {
      ok = ok & (val(a(i, j)) == m[i][j]);
      pos = pos & (&a(i, j) == a.data() + (column ? j * n0 + i : i * n1 + j));
    }
  vp_assert(ok, "element differs from the reference");
  vp_assert(pos, "element is not at its documented position");
}
template <typename A, typename T, bool column>
static void static2() {
  int m[4][4], o[4][4], q[4][4];
  int x = vp_i32("x");
  A a{}; A b{T(x)};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) { m[i][j] = vp_i32("m"); a(i, j) = T(m[i][j]); o[i][j] = x; }
  same2<A, column>(a, 3, 2, m);
  same2<A, column>(b, 3, 2, o);
  A c = column ? A{il::value, {{T(m[0][0]), T(m[1][0]), T(m[2][0])}, {T(m[0][1]), T(m[1][1]), T(m[2][1])}}} : A{a};
  same2<A, column>(c, 3, 2, m);
  b = a;
  b(2, 1) = T(x);
  same2<A, column>(a, 3, 2, m);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) q[i][j] = (i == 2 && j == 1) ? x : m[i][j];
  same2<A, column>(b, 3, 2, q);
  vp_cover("static2");
}
VP_ENTRY(A04_static2D_int) { static2<il::StaticArray2D<int, 3, 2>, int, true>(); }
VP_ENTRY(A04_static2D_obj) { static2<il::StaticArray2D<VpObj, 3, 2>, VpObj, true>(); }
VP_ENTRY(A04_static2C_int) { static2<il::StaticArray2C<int, 3, 2>, int, false>(); }
VP_ENTRY(A04_static2C_obj) {
  typedef VpObj T;
  int m[4][4], o[4][4];
  int x = vp_i32("x");
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) { m[i][j] = vp_i32("m"); o[i][j] = x; }
  typedef il::StaticArray2C<T, 3, 2> A;
  A a{il::value, {{T(m[0][0]), T(m[0][1])}, {T(m[1][0]), T(m[1][1])}, {T(m[2][0]), T(m[2][1])}}};
  same2<A, false>(a, 3, 2, m);
  A b{T(x)};
  same2<A, false>(b, 3, 2, o);
  A c{a};
  b = c;
  c(1, 0) = T(x);
  same2<A, false>(b, 3, 2, m);
  same2<A, false>(a, 3, 2, m);
  m[1][0] = x;
  same2<A, false>(c, 3, 2, m);
  vp_cover("static2C");
}
VP_ENTRY(A04_static3D) {
  typedef il::StaticArray3D<int, 2, 3, 2> A;
  int m[2][3][2];
  int x = vp_i32("x");
  A a{}; A b{x};
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 2; ++k) { m[i][j][k] = vp_i32("m"); a(i, j, k) = m[i][j][k]; }
  A d{il::value, {{{m[0][0][0], m[1][0][0]}, {m[0][1][0], m[1][1][0]}, {m[0][2][0], m[1][2][0]}}, {{m[0][0][1], m[1][0][1]}, {m[0][1][1], m[1][1][1]}, {m[0][2][1], m[1][2][1]}}}};
  const A& c = a;
  bool ok = c.size(0) == 2 && c.size(1) == 3 && c.size(2) == 2;
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 2; ++k)
    ok = ok & (c(i, j, k) == m[i][j][k]) & (b(i, j, k) == x) & (d(i, j, k) == m[i][j][k]) & (&c(i, j, k) == c.data() + (k * 3 + j) * 2 + i);
  vp_assert(ok, "element differs from the reference");
  b = a;
  a(1, 2, 1) = x;
  vp_assert(b(1, 2, 1) == m[1][2][1], "copies are not independent");
  vp_cover("static3");
}
VP_ENTRY(A04_static4D) {
  typedef il::StaticArray4D<int, 2, 2, 3, 2> A;
  int m[2][2][3][2];
  int x = vp_i32("x");
  A a{}; A b{x};
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 2; ++l) { m[i][j][k][l] = vp_i32("m"); a(i, j, k, l) = m[i][j][k][l]; }
  const A& c = a;
  bool ok = c.size(0) == 2 && c.size(1) == 2 && c.size(2) == 3 && c.size(3) == 2;
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 2; ++l)
    ok = ok & (c(i, j, k, l) == m[i][j][k][l]) & (b(i, j, k, l) == x) & (&c(i, j, k, l) == c.data() + ((l * 3 + k) * 2 + j) * 2 + i);
  vp_assert(ok, "element differs from the reference");
  b = a;
  a(1, 1, 2, 1) = x;
  vp_assert(b(1, 1, 2, 1) == m[1][1][2][1], "copies are not independent");
  vp_cover("static4");
}

// ---- views: mk() gives an array of n elements
template <typename A>
static void views(A& a, long n, int* v) {
  const A& ca = a;
  il::ArrayView<int> all = ca.view();
  vp_assert(all.size() == n && all.data() == ca.data(), "the view of an array is the array");
  long b = vp_pick("b", 0, n - 1), e = vp_pick("e", b, n);
  il::ArrayView<int> w = ca.view(il::Range{b, e});
  vp_assert(w.size() == e - b, "size of a view");
  bool ok = true;
  for (long i = 0; i < e - b; ++i) ok = ok & (&w[i] == &ca[b + i]) & (w[i] == v[b + i]) & (w.view()[i] == v[b + i]);
  if (e > b) ok = ok & (&w.back() == &ca[e - 1]);
  il::ArrayEdit<int> ed = a.Edit(il::Range{b, e});
  vp_assert(ed.size() == e - b, "size of a view");
  for (long i = 0; i < e - b; ++i) ok = ok & (&ed[i] == &a[b + i]) & (ed.view()[i] == v[b + i]);
  vp_assert(ok, "an element of a view is not the element of the array");
  // a copy of what the view shows
  il::Array<int> copy{w};
  vp_assert(copy.size() == e - b, "array built from a view: size");
  if (e > b) {
    long b2 = vp_pick("b2", 0, e - b - 1), e2 = vp_pick("e2", b2, e - b);
    il::ArrayView<int> w2 = w.view(il::Range{b2, e2});
    il::ArrayView<int> w3 = ed.view(il::Range{b2, e2});
    il::ArrayEdit<int> ed2 = ed.Edit(il::Range{b2, e2});
    vp_assert(w2.size() == e2 - b2 && w3.size() == e2 - b2 && ed2.size() == e2 - b2, "size of a view of a view");
    bool same = true;
    for (long i = 0; i < e2 - b2; ++i) same = same & (&w2[i] == &ca[b + b2 + i]) & (&w3[i] == &ca[b + b2 + i]) & (&ed2[i] == &a[b + b2 + i]);
    vp_assert(same, "an element of a view of a view is not the element of the array");
    if (e2 > b2) {
      int x = vp_i32("x"), y = vp_i32("y");
      long k = vp_pick("k", 0, e2 - b2 - 1);
      ed2[k] = x; v[b + b2 + k] = x;
      ed.Back() = y; v[e - 1] = y;
      a.Edit()[b] = x; v[b] = x;
      bool one = true;
      for (long i = 0; i < n; ++i) one = one & (ca[i] == v[i]) & (all[i] == v[i]);
      vp_assert(one, "writing through a view does not write the array");
      vp_cover("written through a view");
    }
  }
}
static const int kN = 4;
VP_ENTRY(A04_view_array) {
  long n = vp_pick("n", 1, kN);
  il::Array<int> a{n};
  int v[kN];
  for (long i = 0; i < n; ++i) { v[i] = vp_i32("v"); a[i] = v[i]; }
  views(a, n, v);
}
VP_ENTRY(A04_view_small) {
  long n = vp_pick("n", 1, kN);
  il::SmallArray<int, 2> a{n};
  int v[kN];
  for (long i = 0; i < n; ++i) { v[i] = vp_i32("v"); a[i] = v[i]; }
  views(a, n, v);
}
VP_ENTRY(A04_view_static) {
  il::StaticArray<int, 4> a{};
  int v[4];
  for (long i = 0; i < 4; ++i) { v[i] = vp_i32("v"); a[i] = v[i]; }
  views(a, 4, v);
}
VP_ENTRY(A04_view_pointer) {
  int m[5], v[4];
  long n = vp_pick("n", 0, 4);
  for (long i = 0; i < n; ++i) { v[i] = vp_i32("v"); m[i] = v[i]; }
  il::ArrayView<int> a{m, n};
  il::ArrayEdit<int> e{m, n};
  il::ArrayView<int> d{};
  il::ArrayEdit<int> de{};
  vp_assert(a.size() == n && e.size() == n && d.size() == 0 && de.size() == 0, "size of a view");
  bool ok = true;
  for (long i = 0; i < n; ++i) ok = ok & (&a[i] == m + i) & (&e[i] == m + i);
  vp_assert(ok && a.data() == m && e.Data() == m, "an element of a view is not the element of the memory");
  il::Array<int> c{a};
  if (n > 0) { e[n - 1] = v[0] ^ 1; vp_assert(m[n - 1] == (v[0] ^ 1) && c[n - 1] == v[n - 1], "array built from a view is not a copy"); }
  vp_cover("pointer");
}
