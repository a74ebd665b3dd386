// Norms of vectors and matrices.
// vp: variants debug ndebug
// bound: vectors up to 4 elements, matrices up to 3x3 of both storage orders with and without spare rows and columns, tridiagonal matrices of order up to 4; elements are any integers of absolute value up to 20 and weights any integers from 1 to 20 that divide their element (exact arithmetic)
#include "vp.h"
#include <il/Array.h>
#include <il/Array2D.h>
#include <il/StaticArray.h>
#include <il/TriDiagonal.h>
#include <il/linearAlgebra/dense/norm.h>

#ifdef VP_DEEP
static const long kV = 6, kM = 4, kT = 5;
#else
static const long kV = 4, kM = 3, kT = 4;
#endif
static double any(const char* n) { return vp_dint(n, -20, 20); }
static il::Norm pick() {
  const il::Norm t[] = {il::Norm::L1, il::Norm::L2, il::Norm::Linf};
  return t[vp_pick("norm", 0, 2)];
}
static double mag(double x) { return x < 0 ? -x : x; }
// the definition
static double vec(const double* v, long n, il::Norm t) {
  double s = 0;
  for (long i = 0; i < n; ++i) {
    const double a = mag(v[i]);
    if (t == il::Norm::L1) s += a;
    if (t == il::Norm::L2) s += a * a;
    if (t == il::Norm::Linf) s = a > s ? a : s;
  }
  return t == il::Norm::L2 ? __builtin_sqrt(s) : s;
}
template <long n>
static void fixed() {
  const il::Norm t = pick();
  il::StaticArray<double, n> v{};
  double x[n + 1];
  for (long i = 0; i < n; ++i) v[i] = x[i] = any("x");
  vp_assert(il::norm(v, t) == vec(x, n, t), "norm of a vector");
  vp_cover("norm of a vector of static size");
}
VP_ENTRY(L04_static) {
  switch (vp_pick("n", 1, 4)) {
    case 1: fixed<1>(); break;
    case 2: fixed<2>(); break;
    case 3: fixed<3>(); break;
    case 4: fixed<4>(); break;
  }
}
VP_ENTRY(L04_vector) {
  const il::Norm t = pick();
  const long n = vp_pick("n", 0, kV);
  il::Array<double> v{n}, w{n};
  double x[8];
  const bool weights = vp_pick("weights", 0, 1);
  for (long i = 0; i < n; ++i) {
    x[i] = any("x");
    if (weights) {
      w[i] = vp_dint("w", 1, 20);
      v[i] = x[i] * w[i];
    } else {
      v[i] = x[i];
    }
  }
  if (weights)
    vp_assert(il::norm(v, t, w) == vec(x, n, t), "weighted norm of a vector");
  else
    vp_assert(il::norm(v, t) == vec(x, n, t), "norm of a vector");
  vp_cover("norm of a vector");
}
// rows or columns: the largest sum of absolute values
template <typename M>
static void matrix() {
  const long m = vp_pick("m", 0, kM), n = vp_pick("n", 0, kM);
  M A{m, n};
  if (vp_pick("spare", 0, 1)) A.Reserve(m + 1, n + 1);
  double x[4][4];
  for (long i = 0; i < m; ++i)
    for (long j = 0; j < n; ++j) A(i, j) = x[i][j] = any("x");
  const bool rows = vp_pick("rows", 0, 1);
  double e = 0;
  for (long i = 0; i < (rows ? m : n); ++i) {
    double s = 0;
    for (long j = 0; j < (rows ? n : m); ++j) s += mag(rows ? x[i][j] : x[j][i]);
    e = s > e ? s : e;
  }
  vp_assert(il::norm(A, rows ? il::Norm::Linf : il::Norm::L1) == e, "norm of a matrix");
  vp_cover("norm of a matrix");
}
VP_ENTRY(L04_matrix) { matrix<il::Array2D<double>>(); }
VP_ENTRY(L04_tridiagonal) {
  const long n = vp_pick("n", 0, kT);
  il::TriDiagonal<double> A{n};
  double e = 0;
  for (long i = 0; i < n; ++i) {
    double s = 0;
    for (long k = -1; k <= 1; ++k) {
      if (i + k < 0 || i + k >= n) continue;
      A(i, k) = any("x");
      s += mag(A(i, k));
    }
    e = s > e ? s : e;
  }
  vp_assert(il::norm(A, il::Norm::Linf) == e, "norm of a tridiagonal matrix");
  vp_cover("norm of a tridiagonal matrix");
}
