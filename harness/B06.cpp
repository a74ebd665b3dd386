// Structured and sparse matrices.
// vp: variants debug ndebug
// bound: triangular matrices of order 0..3 (histories of 2 copies/moves/assignments among 2 matrices), band matrices up to 3x4 with bandwidths 0..3, tridiagonal of order 1..3; all element values any 32-bit integer
// bound: sparse matrices of order 0..3 assembled from 0..4 positions in any order, with repetitions
#include <cstring>
#include <il/LowerArray2D.h>
#include <il/UpperArray2D.h>
#include <il/container/2d/BandArray2C.h>
#include <il/SparseMatrixCSR.h>
#include <il/TriDiagonal.h>
#include "vp.h"

static int val(const int& x) { return x; }
static int val(const VpObj& x) { return x.value(); }

// ---- triangular
struct Tri { long n; int v[3][3]; };
template <typename T> struct Low { typedef il::LowerArray2D<T> A; static bool in(long i, long j) { return j <= i; } };
template <typename T> struct Up { typedef il::UpperArray2D<T> A; static bool in(long i, long j) { return i <= j; } };
template <typename Tr, typename T>
static void same(const typename Tr::A& a, const Tri& m) {
  vp_assert(a.size() == m.n && a.capacity() >= m.n, "size");
  bool ok = true;
  const T* lo = nullptr;
  for (long i = 0; i < m.n; ++i) for (long j = 0; j < m.n; ++j) if (Tr::in(i, j)) ok = ok & (val(a(i, j)) == m.v[i][j]);
  (void)lo;
  vp_assert(ok, "element differs from the reference");
}
template <typename Tr, typename T>
static void fill(typename Tr::A& a, Tri& m, long n, const char* nm) {
  m.n = n;
  for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) if (Tr::in(i, j)) { m.v[i][j] = vp_i32(nm); a(i, j) = T(m.v[i][j]); }
}
template <typename A>
static void gone(const A& a) { vp_assert(a.size() == 0 && a.capacity() == 0, "a matrix that was moved is not empty"); }
template <typename Tr, typename T>
static void tri() {
  typedef typename Tr::A A;
  Tri m, k;
  long n = vp_pick("n", 0, 3), p = vp_pick("p", 0, 3);
  A a{n}, b{p};
  fill<Tr, T>(a, m, n, "a");
  fill<Tr, T>(b, k, p, "b");
  same<Tr, T>(a, m);
#ifdef VP_DEEP
  const int steps = 4;
#else
  const int steps = 2;
#endif
  for (int s = 0; s < steps; ++s) {
    switch (vp_pick("op", 0, 7)) {
      case 0: a = b; m = k; break;
      case 1: b = a; k = m; break;
      case 2: { A c{a}; same<Tr, T>(c, m); if (m.n > 0) { c(0, 0) = T(1); } break; }
      case 3: { A c{std::move(a)}; same<Tr, T>(c, m); gone(a); a = std::move(c); gone(c); break; }
      case 4: a = std::move(b); m = k; gone(b); b = A{2}; fill<Tr, T>(b, k, 2, "f"); break;
      case 5: a = a; break;
      case 6: { int x = vp_i32("x"); if (m.n > 0) { a(m.n - 1, m.n - 1) = T(x); m.v[m.n - 1][m.n - 1] = x; } break; }
      case 7: { A c{1}; c(0, 0) = T(7); b = c; k.n = 1; k.v[0][0] = 7; break; }
    }
    same<Tr, T>(a, m);
    same<Tr, T>(b, k);
  }
  vp_cover("triangular");
}
VP_ENTRY(B06_lower_int) { tri<Low<int>, int>(); }
VP_ENTRY(B06_lower_obj) { tri<Low<VpObj>, VpObj>(); }
VP_ENTRY(B06_upper_int) { tri<Up<int>, int>(); }
VP_ENTRY(B06_upper_obj) { tri<Up<VpObj>, VpObj>(); }

// ---- band
VP_ENTRY(B06_band) {
  long n0 = vp_pick("n0", 1, 3), n1 = vp_pick("n1", 1, 4), l = vp_pick("l", 0, 3), r = vp_pick("r", 0, 3);
  il::BandArray2C<int> a{n0, n1, l, r};
  vp_assert(a.size(0) == n0 && a.size(1) == n1 && a.widthLeft() == l && a.widthRight() == r && a.capacityRight() >= l + r, "shape of a band matrix");
  int v[3][8];
  for (long i = 0; i < n0; ++i) for (long k = -l; k <= r; ++k) if (i + k >= 0 && i + k < n1) { v[i][k + l] = vp_i32("v"); a(i, k) = v[i][k + l]; }
  il::BandArray2C<int> b{a};
  const il::BandArray2C<int>& c = b;
  bool ok = true;
  for (long i = 0; i < n0; ++i) for (long k = -l; k <= r; ++k) if (i + k >= 0 && i + k < n1) ok = ok & (c(i, k) == v[i][k + l]) & (a(i, k) == v[i][k + l]);
  vp_assert(ok, "element differs from the reference");
  vp_cover("band");
}
VP_ENTRY(B06_band_square) {
  long n = vp_pick("n", 1, 3), w = vp_pick("w", 0, 3);
  il::BandArray2C<int> a{n, w};
  vp_assert(a.size(0) == n && a.size(1) == n && a.widthLeft() == w && a.widthRight() == w && a.capacityRight() >= 2 * w, "shape of a band matrix");
  bool ok = true;
  for (long i = 0; i < n; ++i) for (long k = -w; k <= w; ++k) if (i + k >= 0 && i + k < n) { ok = ok & (a(i, k) == 0); a(i, k) = (int)(10 * i + k); }
  vp_assert(ok, "a new band matrix is not zero");
  for (long i = 0; i < n; ++i) for (long k = -w; k <= w; ++k) if (i + k >= 0 && i + k < n) ok = ok & (a(i, k) == (int)(10 * i + k));
  vp_assert(ok, "element differs from the reference");
  vp_cover("band");
}
VP_ENTRY(B06_tridiagonal) {
  long n = vp_pick("n", 1, 3);
  il::TriDiagonal<int> a{n};
  int v[3][3];
  for (long i = 0; i < n; ++i) for (long k = -1; k <= 1; ++k) { v[i][k + 1] = vp_i32("v"); a(i, k) = v[i][k + 1]; }
  const il::TriDiagonal<int> b{a};
  bool ok = b.size() == n;
  for (long i = 0; i < n; ++i) for (long k = -1; k <= 1; ++k) ok = ok & (b(i, k) == v[i][k + 1]);
  // the three diagonals as LAPACK reads them
  for (long i = 0; i < n; ++i) ok = ok & (a.DiagonalData()[i] == v[i][1]);
  for (long i = 0; i + 1 < n; ++i) ok = ok & (a.UpperData()[i] == v[i][2]) & (a.LowerData()[i] == v[i + 1][0]);
  vp_assert(ok, "element differs from the reference");
  vp_cover("tridiagonal");
}

// ---- sparse
template <typename I>
static void csr() {
  long n = vp_pick("n", 0, 3), p = vp_pick("p", 0, 4);
  vp_assume(n > 0 || p == 0);
  il::Array<il::StaticArray<I, 2>> pos{p};
  for (long l = 0; l < p; ++l) { pos[l][0] = (I)vp_pick("i", 0, n - 1); pos[l][1] = (I)vp_pick("j", 0, n - 1); }
  il::Array<I> index{};
  il::SparseMatrixCSR<I, double> A{n, pos, il::io, index};
  vp_assert(A.size(0) == n && A.size(1) == n, "extents of a sparse matrix");
  vp_assert(index.size() == p, "one index per position");
  vp_assert(A.row(0) == 0, "first row does not start at 0");
  long distinct = 0;
  for (long l = 0; l < p; ++l) {
    bool seen = false;
    for (long q = 0; q < l; ++q) seen = seen | (pos[q][0] == pos[l][0] && pos[q][1] == pos[l][1]);
    if (!seen) ++distinct;
  }
  vp_assert(A.nbNonZeros() == distinct && A.row(n) == distinct, "number of entries");
  for (long i = 0; i < n; ++i) {
    vp_assert(A.row(i) <= A.row(i + 1), "rows overlap");
    for (long k = A.row(i); k < A.row(i + 1); ++k) {
      vp_assert(A.column(k) >= 0 && A.column(k) < n, "column out of range");
      vp_assert(k == A.row(i) || A.column(k - 1) < A.column(k), "columns of a row are not increasing");
      vp_assert(A.element(k) == 0.0 && A(i, k - A.row(i)) == 0.0, "a new sparse matrix is not zero");
    }
  }
  for (long l = 0; l < p; ++l) {
    long k = index[l];
    vp_assert(k >= A.row(pos[l][0]) && k < A.row(pos[l][0] + 1) && A.column(k) == pos[l][1], "index does not lead to its position");
    A[k] += (double)(l + 1);
  }
  for (long k = 0; k < A.nbNonZeros(); ++k) {
    double s = 0;
    for (long l = 0; l < p; ++l) if (index[l] == k) s += (double)(l + 1);
    vp_assert(A[k] == s && A.elementData()[k] == s, "assembled value");
  }
  vp_cover("sparse");
}
VP_ENTRY(B06_csr_int) { csr<int>(); }
#ifdef VP_DEEP
VP_ENTRY(B06_csr_long_deep) { csr<il::int_t>(); }
#endif
VP_ENTRY(B06_csr_lists) {
  long n1 = 3, n0 = vp_pick("n0", 0, 3);
  il::Array<il::SmallArray<il::int_t, 2>> c{n0};
  int m[3][3]; long w[3];
  long total = 0;
  for (long i = 0; i < n0; ++i) { w[i] = vp_pick("w", 0, 3); for (long k = 0; k < w[i]; ++k) { m[i][k] = vp_int("c", 0, 2); c[i].Append(m[i][k]); } total += w[i]; }
  il::SparseMatrixCSR<il::int_t, double> A{n1, n0, c};
  vp_assert(A.size(0) == n0 && A.size(1) == n1 && A.nbNonZeros() == total, "shape");
  bool ok = A.row(0) == 0;
  long k = 0;
  for (long i = 0; i < n0; ++i) { ok = ok & (A.row(i + 1) - A.row(i) == w[i]); for (long q = 0; q < w[i]; ++q, ++k) ok = ok & (A.column(k) == m[i][q]); }
  vp_assert(ok, "structure differs from the lists");
  vp_cover("lists");
}
VP_ENTRY(B06_csr_arrays) {
  il::Array<int> column{il::value, {0, 2, 1}};
  il::Array<int> row{il::value, {0, 2, 3}};
  il::Array<double> e{3};
  double v[3];
  for (int k = 0; k < 3; ++k) { v[k] = vp_dint("v", -9, 9); e[k] = v[k]; }
  il::SparseMatrixCSR<int, double> A{2, 3, column, row, e};
  il::SparseMatrixCSR<int, double> B{A};
  bool ok = B.size(0) == 2 && B.size(1) == 3 && B.nbNonZeros() == 3 && B(0, 0) == v[0] && B(0, 1) == v[1] && B(1, 0) == v[2] && B.columnData()[1] == 2 && B.rowData()[2] == 3;
  vp_assert(ok, "matrix differs from its arrays");
  vp_cover("arrays");
}
