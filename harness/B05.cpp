// Views of two- and three-dimensional arrays.
// vp: variants debug ndebug
// bound: arrays of up to 3x3 elements with 0..1 spare rows and columns; every block of it, every block of a block, every column or row range; all values any 32-bit integer
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array2CView.h>
#include <il/Array2DView.h>
#include <il/container/3d/Array3DView.h>
#include <il/StaticArray2D.h>
#include "vp.h"

static void range(il::Range& r, long n) { r.begin = vp_pick("begin", 0, n - 1); r.end = vp_pick("end", r.begin, n); }
template <typename A> static void make(A& a, int (*m)[3], long& n0, long& n1) {
  n0 = vp_pick("n0", 1, 3); n1 = vp_pick("n1", 1, 3);
  if (vp_flag("spare")) a.Reserve(n0 + 1, n1 + 1);
  a.Resize(n0, n1);
  for (long i = 0; i < n0; ++i) for (long j = 0; j < n1; ++j) { m[i][j] = vp_i32("m"); a(i, j) = m[i][j]; }
}
template <typename A> static void eq(A&& a, int (*m)[3], long n0, long n1) {
  bool ok = a.size(0) == n0 && a.size(1) == n1;
  for (long i = 0; i < n0; ++i) for (long j = 0; j < n1; ++j) ok = ok & (a(i, j) == m[i][j]);
  vp_assert(ok, "element differs from the reference");
}
template <typename V, typename A> static void block(V v, const A& a, il::Range r0, il::Range r1) {
  vp_assert(v.size(0) == r0.end - r0.begin && v.size(1) == r1.end - r1.begin, "extents of a block");
  bool ok = true;
  for (long i = 0; i < v.size(0); ++i) for (long j = 0; j < v.size(1); ++j) ok = ok & (&v(i, j) == &a(r0.begin + i, r1.begin + j));
  vp_assert(ok, "an element of a block is not the element of the array");
}

// whole views and blocks of a column-major array
VP_ENTRY(B05_2D) {
  il::Array2D<int> a{0, 0};
  int m[3][3]; long n0, n1;
  make(a, m, n0, n1);
  const il::Array2D<int>& c = a;
  il::Array2DView<int> all = c.view();
  il::Array2DEdit<int> ed = a.Edit();
  eq(all, m, n0, n1);
  eq(ed, m, n0, n1);
  block(all, c, il::Range{0, n0}, il::Range{0, n1});
  il::Range r0, r1;
  range(r0, n0); range(r1, n1);
  block(c.view(r0, r1), c, r0, r1);
  block(all.view(r0, r1), c, r0, r1);
  block(a.Edit(r0, r1), c, r0, r1);
  block(ed.Edit(r0, r1), c, r0, r1);
  if (r0.end > r0.begin && r1.end > r1.begin) {
    int x = vp_i32("x");
    long i = vp_pick("i", r0.begin, r0.end - 1), j = vp_pick("j", r1.begin, r1.end - 1);
    ed.Edit(r0, r1)(i - r0.begin, j - r1.begin) = x;
    m[i][j] = x;
    eq(c, m, n0, n1);
    eq(all, m, n0, n1);
    vp_cover("written through a block");
  }
}
// a view of nothing
template <typename V> static void nothing() {
  const V v{};
  vp_assert(v.size(0) == 0 && v.size(1) == 0, "extents of a view of nothing");
  const V w{v};
  vp_assert(w.size(0) == 0 && w.size(1) == 0, "extents of a view of nothing");
}
VP_ENTRY(B05_nothing) {
  nothing<il::Array2DView<int>>();
  nothing<il::Array2DEdit<int>>();
  nothing<il::Array2CView<int>>();
  nothing<il::Array2CEdit<int>>();
  nothing<il::Array3DView<int>>();
  nothing<il::Array3DEdit<int>>();
  vp_assert(il::Array3DView<int>{}.size(2) == 0 && il::Array3DEdit<int>{}.size(2) == 0, "extents of a view of nothing");
  vp_assert(il::Array2DView<int>{}.data() == nullptr && il::Array2CView<int>{}.data() == nullptr && il::Array3DView<int>{}.data() == nullptr, "memory of a view of nothing");
  vp_cover("nothing");
}
// a block of a block
VP_ENTRY(B05_2D_nested) {
  il::Array2D<int> a{3, 3};
  a.Reserve(4, 3);
  il::Range r0, r1, s0, s1;
  range(r0, 3); range(r1, 3);
  vp_assume(r0.end > r0.begin && r1.end > r1.begin);
  range(s0, r0.end - r0.begin); range(s1, r1.end - r1.begin);
  const il::Array2D<int>& c = a;
  il::Range t0{r0.begin + s0.begin, r0.begin + s0.end}, t1{r1.begin + s1.begin, r1.begin + s1.end};
  block(c.view(r0, r1).view(s0, s1), c, t0, t1);
  block(a.Edit(r0, r1).Edit(s0, s1), c, t0, t1);
  vp_cover("nested");
}
VP_ENTRY(B05_2D_column) {
  il::Array2D<int> a{0, 0};
  int m[3][3]; long n0, n1;
  make(a, m, n0, n1);
  const il::Array2D<int>& c = a;
  il::Range r; range(r, n0);
  long j = vp_pick("j", 0, n1 - 1);
  il::ArrayView<int> v = c.view(r, j);
  il::ArrayEdit<int> e = a.Edit(r, j);
  vp_assert(v.size() == r.end - r.begin && e.size() == r.end - r.begin, "size of a column");
  bool ok = true;
  for (long i = 0; i < v.size(); ++i) ok = ok & (&v[i] == &c(r.begin + i, j)) & (&e[i] == &a(r.begin + i, j));
  vp_assert(ok, "an element of a column is not the element of the array");
  if (v.size() > 0) { int x = vp_i32("x"); e[0] = x; m[r.begin][j] = x; vp_cover("written through a column"); }
  eq(c, m, n0, n1);
}
VP_ENTRY(B05_2C) {
  il::Array2C<int> a{0, 0};
  int m[3][3]; long n0, n1;
  make(a, m, n0, n1);
  const il::Array2C<int>& c = a;
  il::Array2CView<int> all = c.view();
  il::Array2CEdit<int> ed = a.Edit();
  eq(all, m, n0, n1);
  block(all, c, il::Range{0, n0}, il::Range{0, n1});
  il::Range r0, r1;
  range(r0, n0); range(r1, n1);
  block(c.view(r0, r1), c, r0, r1);
  block(ed.Edit(r0, r1), c, r0, r1);
  long i = vp_pick("i", 0, n0 - 1);
  il::ArrayView<int> row = c.view(i, r1);
  bool ok = row.size() == r1.end - r1.begin;
  for (long k = 0; k < row.size(); ++k) ok = ok & (&row[k] == &c(i, r1.begin + k));
  vp_assert(ok, "an element of a row is not the element of the array");
  if (r0.end > r0.begin && r1.end > r1.begin) {
    int x = vp_i32("x");
    ed.Edit(r0, r1)(r0.end - r0.begin - 1, 0) = x;
    m[r0.end - 1][r1.begin] = x;
    eq(c, m, n0, n1);
    vp_cover("written through a block");
  }
}
VP_ENTRY(B05_2C_nested) {
  il::Array2C<int> a{3, 3};
  a.Reserve(3, 4);
  il::Range r0, r1, s0, s1;
  range(r0, 3); range(r1, 3);
  vp_assume(r0.end > r0.begin && r1.end > r1.begin);
  range(s0, r0.end - r0.begin); range(s1, r1.end - r1.begin);
  il::Array2CEdit<int> e = a.Edit().Edit(r0, r1);
  block(e.Edit(s0, s1), a, il::Range{r0.begin + s0.begin, r0.begin + s0.end}, il::Range{r1.begin + s1.begin, r1.begin + s1.end});
  vp_cover("nested");
}
// empty arrays can be viewed; so can memory owned by the user; copy between views
VP_ENTRY(B05_misc) {
  long n0 = vp_pick("n0", 0, 2), n1 = vp_pick("n1", 0, 2);
  il::Array2D<int> a{n0, n1, 5};
  il::Array2C<int> b{n0, n1, 5};
  vp_assert(a.view().size(0) == n0 && a.view().size(1) == n1 && a.Edit().size(0) == n0 && a.Edit().size(1) == n1, "extents of a view");
  vp_assert(b.view().size(0) == n0 && b.view().size(1) == n1 && b.Edit().size(0) == n0 && b.Edit().size(1) == n1, "extents of a view");
  int mem[12];
  for (int k = 0; k < 12; ++k) mem[k] = vp_i32("mem");
  il::Array2DView<int> v{mem, 3, 2, 4};
  il::Array2CView<int> w{mem, 2, 3, 4};
  il::Array2DEdit<int> ve{mem, 3, 2, 4, 0, 0};
  il::Array2CEdit<int> we{mem, 2, 3, 4};
  il::Array3DView<int> t{mem, 2, 2, 2, 2, 3};
  bool ok = true;
  for (long i = 0; i < 3; ++i) for (long j = 0; j < 2; ++j) ok = ok & (&v(i, j) == mem + j * 4 + i) & (&w(j, i) == mem + j * 4 + i) & (&ve(i, j) == mem + j * 4 + i) & (&we(j, i) == mem + j * 4 + i);
  for (long i = 0; i < 2; ++i) for (long j = 0; j < 2; ++j) for (long k = 0; k < 2; ++k) ok = ok & (&t(i, j, k) == mem + (k * 3 + j) * 2 + i);
  vp_assert(ok && t.size(0) == 2 && t.size(1) == 2 && t.size(2) == 2, "an element of a view is not at its place");
  il::Array2D<int> c{3, 2};
  il::copy(v, il::io, c.Edit());
  bool same = true;
  for (long i = 0; i < 3; ++i) for (long j = 0; j < 2; ++j) same = same & (c(i, j) == mem[j * 4 + i]);
  vp_assert(same, "copy of a view");
  il::StaticArray2D<int, 3, 2> s{};
  il::copy(v, il::io, s.Edit());
  for (long i = 0; i < 3; ++i) for (long j = 0; j < 2; ++j) same = same & (s(i, j) == mem[j * 4 + i]) & (s.view()(i, j) == mem[j * 4 + i]);
  vp_assert(same, "copy of a view");
  vp_cover("misc");
}
