// Products of sparse matrices and vectors.
// vp: variants debug ndebug
// vp: flags linalg
// bound: matrices up to 3x3 (1x1 to 2x3 when handed to the sparse BLAS) with up to 6 entries in any places; indices int and int_t; elements and coefficients are any integers of absolute value up to 20 (exact arithmetic)
#include "vp.h"
#include <il/Array.h>
#include <il/SparseMatrixCSR.h>
#include <il/linearAlgebra/sparse/blas/SparseMatrixBlas.h>
#include <il/linearAlgebra/sparse/blas/sparseBlas.h>
#include <limits>

#ifdef VP_DEEP
static const long kN = 4, kE = 5;
#else
static const long kN = 3, kE = 6;
#endif
template <typename I, typename T>
struct Sample {
  long m, n;
  T dense[4][4];
  il::SparseMatrixCSR<I, T> A;
};
template <typename I, typename T>
static void fill(Sample<I, T>& s, long lo) {
  s.m = vp_pick("rows", lo, kN);
  s.n = vp_pick("columns", lo, kN);
  il::Array<I> column{};
  il::Array<I> row{s.m + 1};
  long k = 0;
  row[0] = 0;
  for (long i = 0; i < s.m; ++i) {
    for (long j = 0; j < s.n; ++j) {
      s.dense[i][j] = 0;
      if (k < kE && vp_pick("entry", 0, 1)) {
        column.Append((I)j);
        ++k;
        s.dense[i][j] = 1;
      }
    }
    row[i + 1] = (I)k;
  }
  s.A = il::SparseMatrixCSR<I, T>{s.m, s.n, std::move(column), std::move(row)};
  k = 0;
  for (long i = 0; i < s.m; ++i)
    for (long j = 0; j < s.n; ++j)
      if (s.dense[i][j] != 0) s.A[k++] = s.dense[i][j] = (T)vp_dint("a", -20, 20);
}
template <typename I, typename T, typename F>
static void product(Sample<I, T>& s, F f) {
  const T al = (T)vp_dint("alpha", -20, 20);
  const bool over = vp_pick("overwrite", 0, 1);
  const T be = over ? (T)0 : (T)vp_dint("beta", -20, 20);
  il::Array<T> x{s.n}, y{s.m};
  T e[4];
  for (long j = 0; j < s.n; ++j) x[j] = (T)vp_dint("x", -20, 20);
  for (long i = 0; i < s.m; ++i) {
    e[i] = (T)0;
    for (long j = 0; j < s.n; ++j) e[i] += s.dense[i][j] * x[j];
    e[i] = al * e[i];
    if (over) {
      y[i] = std::numeric_limits<T>::quiet_NaN();
    } else {
      y[i] = (T)vp_dint("y", -20, 20);
      e[i] += be * y[i];
    }
  }
  f(al, x, be, y);
  vp_assert(y.size() == s.m && x.size() == s.n, "sizes of the vectors");
  bool ok = true;
  for (long i = 0; i < s.m; ++i) ok = ok & (y[i] == e[i]);
  vp_assert(ok, "product of a sparse matrix and a vector");
  vp_cover("product");
}
template <typename I>
static void direct() {
  Sample<I, double> s;
  fill(s, 0);
  product(s, [&](double al, const il::Array<double>& x, double be, il::Array<double>& y) { il::blas(al, s.A, x, be, il::io, y); });
}
VP_ENTRY(L05_csr_int) { direct<int>(); }
VP_ENTRY(L05_csr_long) { direct<il::int_t>(); }
template <typename T>
static void optimized() {
  Sample<int, T> s;
  fill(s, 1);
  vp_assume(s.A.nbNonZeros() > 0);
  il::SparseMatrixBlas<int, T> B{il::io, s.A};
  if (vp_pick("hint", 0, 1)) B.setNbMatrixVector(10);
  product(s, [&](T al, const il::Array<T>& x, T be, il::Array<T>& y) { il::blas(al, B, x, be, il::io, y); });
}
VP_ENTRY(L05_blas_double) { optimized<double>(); }
VP_ENTRY(L05_blas_float) { optimized<float>(); }
