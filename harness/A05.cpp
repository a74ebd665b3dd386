// Debug builds: every out-of-range access stops the program, no valid one does.
// vp: variants debug
// bound: containers of 0..3 elements per dimension (fixed-size ones at a fixed shape), with and without spare capacity; every index, size, dimension and range end any 64-bit integer (sizes: any negative one or a small one); alignments any of their type, lists of up to 3 values
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/Array3C.h>
#include <il/Array3D.h>
#include <il/Array4C.h>
#include <il/Array4D.h>
#include <il/LowerArray2D.h>
#include <il/SmallArray.h>
#include <il/SparseMatrixCSR.h>
#include <il/StaticArray.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/TriDiagonal.h>
#include <il/UpperArray2D.h>
#include <il/container/2d/BandArray2C.h>
#include <il/container/3d/Array3DView.h>
#include "vp.h"

// an access that must stop the program exactly when bad holds
#define ACCESS(bad, what) do { const bool b_ = (bad); vp_abort_ok(b_); what; vp_assert(!b_, "an out-of-range access is accepted: " #what); vp_cover("in range"); return; } while (0)
static bool out(long i, long n) { return (i < 0) | (i >= n); }
static volatile int sink;
template <typename T> static void use(const T& x) { sink = (int)x; }
static int zero(int*, long) { return 0; }

template <typename A> static void sequence(A& a, long n) {
  const A& c = a;
  for (long i = 0; i < n; ++i) a[i] = (int)i;
  long i = vp_i64("i");
  switch (vp_pick("how", 0, 7)) {
    case 0: ACCESS(out(i, n), use(c[i]));
    case 1: ACCESS(out(i, n), a[i] = 3);
    case 2: ACCESS(n == 0, use(c.back()));
    case 3: ACCESS(n == 0, a.Back() = 3);
    case 4: case 5: {
      long k = vp_i64("k");
      const bool bad = (i < 0) | (i > n) | (k < 0) | (k > n) | (k < i);
      if (i == n && k == n) return;  // an empty range at the end: not specified
      il::Range r{i, k};
      vp_abort_ok(bad);
      if (vp_flag("edit")) { il::ArrayEdit<int> v = a.Edit(r); vp_assert(v.size() == k - i, "size of a view"); }
      else { il::ArrayView<int> v = c.view(r); vp_assert(v.size() == k - i, "size of a view"); }
      vp_assert(!bad, "a range out of bounds is accepted");
      vp_cover("range");
      return;
    }
    case 6: { il::ArrayView<int> v = c.view(); ACCESS(out(i, n), use(v[i])); }
    case 7: { il::ArrayEdit<int> v = a.Edit(); if (vp_flag("back")) ACCESS(n == 0, v.Back() = 1); ACCESS(out(i, n), v[i] = 2); }
  }
}
VP_ENTRY(A05_array) {
  long n = vp_pick("n", 0, 3);
  il::Array<int> a{};
  if (vp_flag("spare")) a.Reserve(n + 2);
  a.Resize(n);
  sequence(a, n);
}
VP_ENTRY(A05_small) {
  long n = vp_pick("n", 0, 3);
  il::SmallArray<int, 2> a{};
  if (vp_flag("spare")) a.Reserve(n + 2);
  a.Resize(n);
  sequence(a, n);
}
VP_ENTRY(A05_subview) {
  il::Array<int> a{4, 5};
  long b = vp_pick("b", 0, 3), e = vp_pick("e", b, 4), n = e - b;
  long i = vp_i64("i"), k = vp_i64("k");
  const il::Array<int>& c = a;
  il::ArrayView<int> v = c.view(il::Range{b, e});
  il::ArrayEdit<int> w = a.Edit(il::Range{b, e});
  const bool bad = (i < 0) | (i > n) | (k < 0) | (k > n) | (k < i);
  switch (vp_pick("how", 0, 5)) {
    case 0: ACCESS(out(i, n), use(v[i]));
    case 1: ACCESS(out(i, n), w[i] = 1);
    case 2: ACCESS(n == 0, use(v.back()));
    case 3: vp_assume(!(i == n && k == n)); ACCESS(bad, v.view(il::Range{i, k}));
    case 4: vp_assume(!(i == n && k == n)); ACCESS(bad, w.Edit(il::Range{i, k}));
    case 5: vp_assume(!(i == n && k == n)); ACCESS(bad, w.view(il::Range{i, k}));
  }
}
VP_ENTRY(A05_static1) {
  il::StaticArray<int, 3> a{4};
  const il::StaticArray<int, 3>& c = a;
  long i = vp_i64("i"), k = vp_i64("k");
  const bool bad = (i < 0) | (i > 3) | (k < 0) | (k > 3) | (k < i);
  switch (vp_pick("how", 0, 3)) {
    case 0: ACCESS(out(i, 3), use(c[i]));
    case 1: ACCESS(out(i, 3), a[i] = 3);
    case 2: vp_assume(!(i == 3 && k == 3)); ACCESS(bad, c.view(il::Range{i, k}));
    case 3: vp_assume(!(i == 3 && k == 3)); ACCESS(bad, a.Edit(il::Range{i, k}));
  }
}
template <typename A> static void matrix(A& a, long n0, long n1) {
  const A& c = a;
  long i = vp_i64("i"), j = vp_i64("j");
  switch (vp_pick("at", 0, 2)) {
    case 0: ACCESS(out(i, n0) | out(j, n1), use(c(i, j)));
    case 1: ACCESS(out(i, n0) | out(j, n1), a(i, j) = 1);
    case 2: ACCESS(out(i, 2), use(c.size(i)));
  }
}
template <typename A> static void grid(A& a, long n0, long n1) {
  a.Resize(n0, n1); for (long p = 0; p < n0; ++p) for (long q = 0; q < n1; ++q) a(p, q) = 4;
  if (vp_flag("cap")) { const A& c = a; long i = vp_i64("d"); ACCESS(out(i, 2), use(c.capacity(i))); }
  matrix(a, n0, n1);
}
VP_ENTRY(A05_array2D) {
  long n0 = vp_pick("n0", 0, 3), n1 = vp_pick("n1", 0, 2);
  il::Array2D<int> a{};
  if (vp_flag("spare")) a.Reserve(n0 + 1, n1 + 1);
  grid(a, n0, n1);
}
VP_ENTRY(A05_array2C) {
  long n0 = vp_pick("n0", 0, 3), n1 = vp_pick("n1", 0, 2);
  il::Array2C<int> a{};
  if (vp_flag("spare")) a.Reserve(n0 + 1, n1 + 1);
  grid(a, n0, n1);
}
VP_ENTRY(A05_static2) {
  il::StaticArray2D<int, 3, 2> a{4};
  il::StaticArray2C<int, 3, 2> b{4};
  if (vp_flag("which")) matrix(a, 3, 2); else matrix(b, 3, 2);
}
static bool badrange(long b, long e, long n) { return (b < 0) | (b > n) | (e < 0) | (e > n) | (e < b); }
VP_ENTRY(A05_blocks2D) {
  long n0 = vp_pick("n0", 1, 3), n1 = vp_pick("n1", 1, 2);
  il::Array2D<int> a{};
  if (vp_flag("spare")) a.Reserve(n0 + 1, n1 + 1);
  a.Resize(n0, n1); for (long p = 0; p < n0; ++p) for (long q = 0; q < n1; ++q) a(p, q) = 4;
  const il::Array2D<int>& c = a;
  long b0 = vp_i64("b0"), e0 = vp_i64("e0"), b1 = vp_i64("b1"), e1 = vp_i64("e1");
  vp_assume(b0 != n0 && b1 != n1);  // an empty range at the end: not specified
  il::Range r0{b0, e0}, r1{b1, e1};
  const bool bad = badrange(b0, e0, n0) | badrange(b1, e1, n1);
  switch (vp_pick("how", 0, 9)) {
    case 0: ACCESS(bad, c.view(r0, r1));
    case 1: ACCESS(bad, a.Edit(r0, r1));
    case 2: { il::Array2DView<int> v = c.view(); ACCESS(bad, v.view(r0, r1)); }
    case 3: { il::Array2DEdit<int> v = a.Edit(); ACCESS(bad, v.Edit(r0, r1)); }
    case 4: ACCESS(badrange(b0, e0, n0) | out(b1, n1), c.view(r0, b1));
    case 5: ACCESS(badrange(b0, e0, n0) | out(b1, n1), a.Edit(r0, b1));
    case 6: { il::Array2DView<int> v = c.view(); ACCESS(out(b0, n0) | out(b1, n1), use(v(b0, b1))); }
    case 7: { il::Array2DEdit<int> v = a.Edit(); ACCESS(out(b0, n0) | out(b1, n1), v(b0, b1) = 2); }
    case 8: { il::Array2DView<int> v = c.view(il::Range{0, n0}, il::Range{n1 - 1, n1}); ACCESS(out(b0, n0) | out(b1, 1), use(v(b0, b1))); }
    case 9: { il::Array2DEdit<int> v = a.Edit(il::Range{n0 - 1, n0}, il::Range{0, n1}); ACCESS(out(b0, 1) | out(b1, n1), v(b0, b1) = 4); }
  }
}
VP_ENTRY(A05_blocks2C) {
  long n0 = vp_pick("n0", 1, 3), n1 = vp_pick("n1", 1, 2);
  il::Array2C<int> a{};
  if (vp_flag("spare")) a.Reserve(n0 + 1, n1 + 1);
  a.Resize(n0, n1); for (long p = 0; p < n0; ++p) for (long q = 0; q < n1; ++q) a(p, q) = 4;
  long b0 = vp_i64("b0"), e0 = vp_i64("e0"), b1 = vp_i64("b1"), e1 = vp_i64("e1");
  vp_assume(b0 != n0 && b1 != n1);
  const bool bad = badrange(b0, e0, n0) | badrange(b1, e1, n1);
  const il::Array2C<int>& c = a;
  switch (vp_pick("how", 0, 2)) {
    case 0: { il::Array2CView<int> v = c.view(); ACCESS(out(b0, n0) | out(b1, n1), use(v(b0, b1))); }
    case 1: { il::Array2CEdit<int> v = a.Edit(); ACCESS(out(b0, n0) | out(b1, n1), v(b0, b1) = 2); }
    case 2: { il::Array2CEdit<int> v = a.Edit(); ACCESS(bad, v.Edit(il::Range{b0, e0}, il::Range{b1, e1})); }
  }
}
template <typename A> static void cube(A& a, const long* n) {
  const A& c = a;
  long i = vp_i64("i"), j = vp_i64("j"), k = vp_i64("k");
  const bool bad = out(i, n[0]) | out(j, n[1]) | out(k, n[2]);
  switch (vp_pick("at", 0, 2)) {
    case 0: ACCESS(bad, use(c(i, j, k)));
    case 1: ACCESS(bad, a(i, j, k) = 1);
    case 2: ACCESS(out(i, 3), use(c.size(i)));
  }
}
template <typename A> static void cube() {
  long n[3] = {vp_pick("n0", 0, 3), vp_pick("n1", 0, 2), vp_pick("n2", 0, 2)};
  A a{};
  if (vp_flag("spare")) a.Reserve(n[0] + 1, n[1] + 1, n[2] + 1);
  a.Resize(n[0], n[1], n[2]); for (long p = 0; p < n[0]; ++p) for (long q = 0; q < n[1]; ++q) for (long r = 0; r < n[2]; ++r) a(p, q, r) = 4;
  if (vp_flag("cap")) { const A& c = a; long i = vp_i64("d"); ACCESS(out(i, 3), use(c.capacity(i))); }
  cube(a, n);
}
VP_ENTRY(A05_array3D) { cube<il::Array3D<int>>(); }
VP_ENTRY(A05_array3C) { cube<il::Array3C<int>>(); }
VP_ENTRY(A05_static3) {
  il::StaticArray3D<int, 3, 2, 2> a{4};
  long n[3] = {3, 2, 2};
  cube(a, n);
}
VP_ENTRY(A05_view3D) {
  long n[3] = {2, 3, 1};
  int m[24] = {0};
  il::Array3DEdit<int> e{m, 2, 3, 1, 2, 3};
  const il::Array3DView<int> v{m, 2, 3, 1, 2, 3};
  long i = vp_i64("i"), j = vp_i64("j"), k = vp_i64("k");
  const bool bad = out(i, n[0]) | out(j, n[1]) | out(k, n[2]);
  switch (vp_pick("how", 0, 2)) {
    case 0: ACCESS(bad, use(v(i, j, k)));
    case 1: ACCESS(bad, e(i, j, k) = 3);
    case 2: ACCESS(out(i, 3), use(v.size(i)));
  }
}
template <typename A> static void hyper(A& a, const long* n) {
  const A& c = a;
  long i = vp_i64("i"), j = vp_i64("j"), k = vp_i64("k"), l = vp_i64("l");
  const bool bad = out(i, n[0]) | out(j, n[1]) | out(k, n[2]) | out(l, n[3]);
  switch (vp_pick("at", 0, 2)) {
    case 0: ACCESS(bad, use(c(i, j, k, l)));
    case 1: ACCESS(bad, a(i, j, k, l) = 1);
    case 2: ACCESS(out(i, 4), use(c.size(i)));
  }
}
template <typename A> static void hyper() {
  long n[4] = {vp_pick("n0", 1, 2), vp_pick("n1", 0, 2), vp_pick("n2", 1, 2), vp_pick("n3", 0, 1)};
  A a{};
  if (vp_flag("spare")) a.Reserve(n[0] + 1, n[1] + 1, n[2] + 1, n[3] + 1);
  a.Resize(n[0], n[1], n[2], n[3]);
  for (long i = 0; i < n[0]; ++i) for (long j = 0; j < n[1]; ++j) for (long k = 0; k < n[2]; ++k) for (long l = 0; l < n[3]; ++l) a(i, j, k, l) = 4;
  if (vp_flag("cap")) { const A& c = a; long i = vp_i64("d"); ACCESS(out(i, 4), use(c.capacity(i))); }
  hyper(a, n);
}
VP_ENTRY(A05_array4D) { hyper<il::Array4D<int>>(); }
VP_ENTRY(A05_array4C) { hyper<il::Array4C<int>>(); }
VP_ENTRY(A05_static4) {
  il::StaticArray4D<int, 2, 1, 3, 2> a{4};
  long n[4] = {2, 1, 3, 2};
  hyper(a, n);
}
VP_ENTRY(A05_triangular) {
  long n = vp_pick("n", 0, 3);
  long i = vp_i64("i"), j = vp_i64("j");
  if (vp_flag("lower")) {
    il::LowerArray2D<int> a{n};
    const il::LowerArray2D<int>& c = a;
    for (long p = 0; p < n; ++p) for (long q = 0; q <= p; ++q) a(p, q) = 1;
    const bool bad = out(i, n) | out(j, n) | (j > i);
    if (vp_flag("const")) ACCESS(bad, use(c(i, j)));
    ACCESS(bad, a(i, j) = 3);
  } else {
    il::UpperArray2D<int> a{n};
    const il::UpperArray2D<int>& c = a;
    for (long p = 0; p < n; ++p) for (long q = p; q < n; ++q) a(p, q) = 1;
    const bool bad = out(i, n) | out(j, n) | (i > j);
    if (vp_flag("const")) ACCESS(bad, use(c(i, j)));
    ACCESS(bad, a(i, j) = 3);
  }
}
VP_ENTRY(A05_band) {
  long n0 = vp_pick("n0", 1, 3), n1 = vp_pick("n1", 1, 3), l = vp_pick("l", 0, 1), r = vp_pick("r", 0, 2);
  il::BandArray2C<int> a{n0, n1, l, r};
  const il::BandArray2C<int>& c = a;
  for (long i = 0; i < n0; ++i) for (long k = -l; k <= r; ++k) if (i + k >= 0 && i + k < n1) a(i, k) = 1;
  long i = vp_i64("i"), k = vp_i64("k");
  const bool bad = out(i, n0) | (k < -l) | (k > r) | out((long)((unsigned long)i + (unsigned long)k), n1);
  if (vp_flag("const")) ACCESS(bad, use(c(i, k)));
  ACCESS(bad, a(i, k) = 3);
}
VP_ENTRY(A05_tridiagonal) {
  long n = vp_pick("n", 0, 3);
  il::TriDiagonal<int> a{n};
  const il::TriDiagonal<int>& c = a;
  for (long i = 0; i < n; ++i) for (long k = -1; k <= 1; ++k) a(i, k) = 1;
  long i = vp_i64("i"), k = vp_i64("k");
  const bool bad = out(i, n) | (k < -1) | (k > 1);
  if (vp_flag("const")) ACCESS(bad, use(c(i, k)));
  ACCESS(bad, a(i, k) = 3);
}
VP_ENTRY(A05_sparse) {
  il::Array<int> column{il::value, {0, 2, 1}};
  il::Array<int> row{il::value, {0, 2, 2, 3}};
  il::Array<double> e{3, 1.0};
  il::SparseMatrixCSR<int, double> A{3, 3, column, row, e};
  const il::SparseMatrixCSR<int, double>& c = A;
  long i = vp_i64("i"), k = vp_i64("k");
  const long w[3] = {2, 0, 1};
  bool in = false;
  for (long p = 0; p < 3; ++p) in = in | ((i == p) & (k >= 0) & (k < w[p]));
  switch (vp_pick("how", 0, 7)) {
    case 0: ACCESS(!in, use(c(i, k)));
    case 1: ACCESS(!in, A(i, k) = 2.0);
    case 2: ACCESS(out(i, 3), use(c[i]));
    case 3: ACCESS(out(i, 3), A[i] = 3.0);
    case 4: ACCESS(out(i, 4), use(c.row(i)));
    case 5: ACCESS(out(i, 3), use(c.column(i)));
    case 6: ACCESS(out(i, 3), use(c.element(i)));
    case 7: ACCESS(out(i, 2), use(c.size(i)));
  }
}
// sizes: a negative one is refused
VP_ENTRY(A05_sizes) {
  long n = vp_i64("n");
  vp_assume(n <= 2);
  switch (vp_pick("how", 0, 18)) {
    case 16: ACCESS(n < 0, (il::UpperArray2D<int>{n}));
    case 17: ACCESS(n < 0, (il::SmallArray<int, 2>(n, 3)));
    case 18: vp_assume(n > -(1L << 60)); ACCESS(n < 0, (il::TriDiagonal<double>{n}));
    case 0: ACCESS(n < 0, il::Array<int> a{n});
    case 1: ACCESS(n < 0, il::Array<int> a(n, 3));
    case 2: { il::Array<int> a{1}; ACCESS(n < 0, a.Resize(n)); }
    case 3: { il::Array<int> a{1, 5}; ACCESS(n < 0, a.Resize(n, 3)); }
    case 4: { il::Array<int> a{1}; ACCESS(n < 0, a.Reserve(n)); }
    case 5: ACCESS(n < 0, (il::SmallArray<int, 2>{n}));
    case 6: { il::SmallArray<int, 2> a{1}; ACCESS(n < 0, a.Resize(n)); }
    case 7: { il::SmallArray<int, 2> a{1}; ACCESS(n < 0, a.Reserve(n)); }
    case 8: { long m = vp_i64("m"); vp_assume(m <= 2); ACCESS(n < 0 || m < 0, (il::Array2D<int>{n, m})); }
    case 9: { long m = vp_i64("m"); vp_assume(m <= 2); ACCESS(n < 0 || m < 0, (il::Array2C<int>{n, m})); }
    case 10: { long m = vp_i64("m"); vp_assume(m <= 2); il::Array2D<int> a{1, 2}; ACCESS(n < 0 || m < 0, a.Resize(n, m)); }
    case 11: { long m = vp_i64("m"); vp_assume(m <= 2); il::Array2C<int> a{1, 2}; ACCESS(n < 0 || m < 0, a.Resize(n, m)); }
    case 12: { long m = vp_i64("m"); vp_assume(m <= 2); il::Array2D<int> a{1, 2}; ACCESS(n < 0 || m < 0, a.Reserve(n, m)); }
    case 13: { long m = vp_i64("m"); vp_assume(m <= 2); ACCESS(n < 0 || m < 0, (il::Array3D<int>{1, n, m})); }
    case 14: { long m = vp_i64("m"); vp_assume(m <= 2); ACCESS(n < 0 || m < 0, (il::Array4D<int>{n, 1, m, 1})); }
    case 15: ACCESS(n < 0, (il::LowerArray2D<int>{n}));
  }
}
// the extents of the arrays and of the views of two to four dimensions
static long extent(const char* name, long most = 2) { long n = vp_pick(name, -1, most); if (n < 0) { n = vp_i64("any"); vp_assume(n < 0); } return n; }
VP_ENTRY(A05_sizes_2) {
  long n = extent("n"), m = extent("m");
  const bool bad = (n < 0) | (m < 0);
  int raw[16] = {0};
  il::Array2D<int> a{1, 2, 3};
  il::Array2C<int> b{1, 2, 3};
  switch (vp_pick("how", 0, 20)) {
    case 0: ACCESS(bad, (il::Array2D<int>{n, m, 3}));
    case 1: ACCESS(bad, (il::Array2C<int>{n, m, 3}));
    case 2: ACCESS(bad, (il::Array2D<int>{n, m, il::emplace, 3}));
    case 3: ACCESS(bad, (il::Array2D<int>{n, m}));
    case 4: ACCESS(bad, (il::Array2C<int>{n, m}));
    case 5: ACCESS(bad, a.Resize(n, m));
    case 6: ACCESS(bad, b.Resize(n, m));
    case 7: ACCESS(bad, a.Resize(n, m, 3));
    case 8: ACCESS(bad, a.Resize(n, m, il::emplace, 3));
    case 9: ACCESS(bad, a.Reserve(n, m));
    case 10: ACCESS(bad, b.Reserve(n, m));
    case 11: ACCESS(bad, (il::Array2D<int>{n, m, il::align, 16}));
    case 12: ACCESS(bad, (il::Array2C<int>{n, m, il::align, 16}));
    case 13: ACCESS(bad, (il::Array2D<int>{n, m, 3, il::align, 16}));
    case 14: ACCESS(bad, (il::Array2C<int>{n, m, 3, il::align, 16}));
    case 15: { const long s = vp_i64("stride"); vp_assume((s < 0) | (s == 3)); ACCESS(bad | (s < 0), (il::Array2DView<int>{raw, n, m, s})); }
    case 16: { const long s = vp_i64("stride"); vp_assume((s < 0) | (s == 3)); ACCESS(bad | (s < 0), (il::Array2CView<int>{raw, n, m, s, (short)8, (short)0})); }
    case 17: { const long s = vp_i64("stride"); vp_assume((s < 0) | (s == 3)); ACCESS(bad | (s < 0), (il::Array2DEdit<int>{raw, n, m, s, (short)8, (short)0})); }
    case 18: { const long s = vp_i64("stride"); vp_assume((s < 0) | (s == 3)); ACCESS(bad | (s < 0), (il::Array2CEdit<int>{raw, n, m, s})); }
    case 19: ACCESS(n < 0, (il::ArrayView<int>{raw, n}));
    case 20: ACCESS(n < 0, (il::ArrayEdit<int>{raw, n}));
  }
}
VP_ENTRY(A05_sizes_3) {
  long n = extent("n"), m = extent("m"), p = extent("p");
  const bool bad = (n < 0) | (m < 0) | (p < 0);
  int raw[16] = {0};
  il::Array3D<int> a{1, 2, 1, 3};
  il::Array3C<int> b{1, 2, 1, 3};
  switch (vp_pick("how", 0, 13)) {
    case 0: ACCESS(bad, (il::Array3D<int>{n, m, p, 3}));
    case 1: ACCESS(bad, (il::Array3C<int>{n, m, p, 3}));
    case 2: ACCESS(bad, (il::Array3D<int>{n, m, p}));
    case 3: ACCESS(bad, (il::Array3C<int>{n, m, p}));
    case 4: ACCESS(bad, a.Resize(n, m, p));
    case 5: ACCESS(bad, b.Resize(n, m, p));
    case 6: ACCESS(bad, a.Reserve(n, m, p));
    case 7: ACCESS(bad, b.Reserve(n, m, p));
    case 8: ACCESS(bad, (il::Array3D<int>{n, m, p, il::align, 16}));
    case 9: ACCESS(bad, (il::Array3C<int>{n, m, p, il::align, 16}));
    case 10: ACCESS(bad, (il::Array3D<int>{n, m, p, 3, il::align, 16}));
    case 11: ACCESS(bad, (il::Array3C<int>{n, m, p, 3, il::align, 16}));
    case 12: ACCESS(bad, (il::Array3DView<int>{raw, n, m, p, 2, 2}));
    case 13: ACCESS(bad, (il::Array3DEdit<int>{raw, n, m, p, 2, 2}));
  }
}
VP_ENTRY(A05_sizes_4) {
  long n = extent("n"), m = extent("m", 1), p = extent("p", 1), q = extent("q", 1);
  const bool bad = (n < 0) | (m < 0) | (p < 0) | (q < 0);
  il::Array4D<int> a{1, 2, 1, 1, 3};
  il::Array4C<int> b{1, 2, 1, 1, 3};
  switch (vp_pick("how", 0, 7)) {
    case 0: ACCESS(bad, (il::Array4D<int>{n, m, p, q, 3}));
    case 1: ACCESS(bad, (il::Array4C<int>{n, m, p, q, 3}));
    case 2: ACCESS(bad, (il::Array4D<int>{n, m, p, q}));
    case 3: ACCESS(bad, (il::Array4C<int>{n, m, p, q}));
    case 4: ACCESS(bad, a.Resize(n, m, p, q));
    case 5: ACCESS(bad, b.Resize(n, m, p, q));
    case 6: ACCESS(bad, a.Reserve(n, m, p, q));
    case 7: ACCESS(bad, b.Reserve(n, m, p, q));
  }
}
// lists whose shape is not the one of the array
VP_ENTRY(A05_lists) {
  const bool fit = vp_flag("fit");
  switch (vp_pick("how", 0, 4)) {
    case 0: if (fit) ACCESS(false, (il::StaticArray<int, 2>{il::value, {1, 2}})); else ACCESS(true, (il::StaticArray<int, 2>{il::value, {1, 2, 3}}));
    case 1: if (fit) ACCESS(false, (il::StaticArray<int, 2>{il::value, {1, 2}})); else ACCESS(true, (il::StaticArray<int, 2>{il::value, {1}}));
    case 2: {
      if (fit) ACCESS(false, (il::StaticArray2D<int, 1, 2>{il::value, {{1}, {2}}}));
      if (vp_flag("more")) ACCESS(true, (il::StaticArray2D<int, 1, 2>{il::value, {{1}, {2}, {3}}}));
      if (vp_flag("fewer")) ACCESS(true, (il::StaticArray2D<int, 1, 2>{il::value, {{1}}}));
      if (vp_flag("first")) ACCESS(true, (il::StaticArray2D<int, 1, 2>{il::value, {{1, 5}, {2}}}));
      ACCESS(true, (il::StaticArray2D<int, 1, 2>{il::value, {{1}, {2, 5}}}));
    }
    case 3: {
      if (fit) ACCESS(false, (il::StaticArray2C<int, 2, 1>{il::value, {{1}, {2}}}));
      if (vp_flag("more")) ACCESS(true, (il::StaticArray2C<int, 2, 1>{il::value, {{1}, {2}, {3}}}));
      if (vp_flag("fewer")) ACCESS(true, (il::StaticArray2C<int, 2, 1>{il::value, {{1}}}));
      if (vp_flag("first")) ACCESS(true, (il::StaticArray2C<int, 2, 1>{il::value, {{1, 5}, {2}}}));
      ACCESS(true, (il::StaticArray2C<int, 2, 1>{il::value, {{1}, {2, 5}}}));
    }
    case 4: {
      if (fit) ACCESS(false, (il::StaticArray3D<int, 1, 1, 2>{il::value, {{{1}}, {{2}}}}));
      if (vp_flag("more")) ACCESS(true, (il::StaticArray3D<int, 1, 1, 2>{il::value, {{{1}}, {{2}}, {{3}}}}));
      if (vp_flag("rows")) ACCESS(true, (il::StaticArray3D<int, 1, 1, 2>{il::value, {{{1}, {4}}, {{2}}}}));
      if (vp_flag("deep")) ACCESS(true, (il::StaticArray3D<int, 1, 1, 2>{il::value, {{{1}}, {{2, 4}}}}));
      ACCESS(true, (il::StaticArray3D<int, 1, 1, 2>{il::value, {{{1}}}}));
    }
  }
}
VP_ENTRY(A05_csr_shape) {
  const long n = vp_pick("rows", 0, 2), k = vp_pick("list", 0, 4);
  il::Array<int> column{1, 0};
  il::Array<int> row{k, 0};
  if (vp_flag("values")) ACCESS(k != n + 1, (il::SparseMatrixCSR<int, double>{n, 1, column, row, il::Array<double>{1, 2.0}}));
  ACCESS(k != n + 1, (il::SparseMatrixCSR<int, double>{n, 1, column, row}));
}
// alignments: a multiple of the one of the type, below 2^15
VP_ENTRY(A05_alignment) {
  static const long some[8] = {-4, 0, 2, 4, 8, 12, 32764, 32768};
  const long al = some[vp_pick("alignment", 0, 7)];
  long r = vp_i64("r"), mod = vp_i64("mod");
  const bool own = vp_flag("own remainder");
  bool bad = (al <= 0) | (al % 4 != 0) | (al > 32767);
  if (own && !bad) bad = bad | (mod <= 0) | (mod % al != 0) | (mod > 32767) | (r < 0) | (r >= mod) | (r % al != 0);
  if (own) vp_assume(bad | (mod == al) | (mod == 2 * al));
  switch (vp_pick("how", 0, 3)) {
    case 0: if (own) ACCESS(bad, (il::Array<int>{3, il::align, al, r, mod})); ACCESS(bad, (il::Array<int>{3, il::align, al}));
    case 1: if (own) ACCESS(bad, (il::Array2D<int>{2, 1, il::align, al, r, mod})); ACCESS(bad, (il::Array2D<int>{2, 1, il::align, al}));
    case 2: if (own) ACCESS(bad, (il::Array2C<int>{1, 2, il::align, al, r, mod})); ACCESS(bad, (il::Array2C<int>{1, 2, il::align, al}));
    case 3: if (own) ACCESS(bad, (il::Array3D<int>{2, 1, 1, il::align, al, r, mod})); ACCESS(bad, (il::Array3D<int>{2, 1, 1, il::align, al}));
  }
}
