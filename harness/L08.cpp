// Debug builds: linear algebra on operands that do not fit together stops the program, on others it never does.
// vp: variants debug
// vp: flags linalg cxlr
// bound: vectors and matrices of any numbers of elements, rows and columns up to 2^40 where the call is not allowed, up to 1 or 2 where it is (operands of the level 3 of BLAS: up to 1); both storage orders, float, double and their complex types, all kinds of transpositions, matrices, norms and of aliasing of operands
#include "vp.h"
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/SparseMatrixCSR.h>
#include <il/StaticArray.h>
#include <il/StaticArray2D.h>
#include <il/TriDiagonal.h>
#include <mkl.h>
#include <mkl_rci.h>
#include <il/Status.h>
#include <il/container/2d/BandArray2C.h>
#include <il/linearAlgebra/dense/blas/blas.h>
#include <il/linearAlgebra/dense/blas/blas_static.h>
#include <il/linearAlgebra/dense/blas/dot.h>
#include <il/linearAlgebra/dense/blas/solve.h>
#include <il/linearAlgebra/dense/factorization/LU.h>
#include <il/linearAlgebra/dense/factorization/linearSolve.h>
#include <il/linearAlgebra/dense/factorization/luDecomposition.h>
#include <il/linearAlgebra/dense/norm.h>
#include <il/linearAlgebra/matrixFree/solver/Cg.h>
#include <il/linearAlgebra/matrixFree/solver/Gmres.h>
#include <complex>
#include <utility>

typedef std::complex<float> cf;
typedef std::complex<double> cd;
extern "C" void vp_lapack_regular(int);

// a call that must stop the program exactly when bad holds
#define CALL(bad, what) do { const bool b_ = (bad); vp_abort_ok(b_); what; vp_assert(!b_, "operands that do not fit together are accepted: " #what); vp_cover("allowed"); return; } while (0)

// Operands are views of numbers as large as allowed calls need them
static const long kMost = 2, kStride = 2;
static long g_n[8];
static int g_sizes;
static long size(const char* nm) {
  const long n = vp_int(nm, 0, 1L << 40);
  return g_n[g_sizes++] = n;
}
// sizes are small in the calls that are allowed
static bool wrong(bool bad, long most = kMost) {
  for (int i = 0; i < g_sizes; ++i) vp_assume(bad | (g_n[i] <= most));
  return bad;
}
template <typename T>
struct Raw {
  T v[kStride * kMost + kMost];
  Raw() { for (long i = 0; i < kStride * kMost + kMost; ++i) v[i] = T(i % (kStride + 1) == 0 ? 1 : 0); }
};
template <typename T> static il::ArrayView<T> view(Raw<T>& r, long n) { return il::ArrayView<T>{r.v, n}; }
template <typename T> static il::ArrayEdit<T> edit(Raw<T>& r, long n) { return il::ArrayEdit<T>{r.v, n}; }
struct D {  // column major
  template <typename T> using View = il::Array2DView<T>;
  template <typename T> using Edit = il::Array2DEdit<T>;
};
struct C {  // row major
  template <typename T> using View = il::Array2CView<T>;
  template <typename T> using Edit = il::Array2CEdit<T>;
};
template <typename M, typename T> static typename M::template View<T> view(Raw<T>& r, long n0, long n1) { return typename M::template View<T>{r.v, n0, n1, kStride}; }
template <typename M, typename T> static typename M::template Edit<T> edit(Raw<T>& r, long n0, long n1) { return typename M::template Edit<T>{r.v, n0, n1, kStride, (short)0, (short)0}; }
static il::Dot dot(const char* nm) {
  switch (vp_pick(nm, 0, 2)) {
    case 0: return il::Dot::None;
    case 1: return il::Dot::Transpose;
    default: return il::Dot::Star;
  }
}
static il::MatrixType kind() { return (il::MatrixType)vp_int("type", 0, 9); }
static il::Norm norm() { return (il::Norm)vp_pick("norm", 0, 2); }

// ------------------------------------------------------------------- level 1
template <typename T> static void level1() {
  Raw<T> x, y;
  const long n = size("n"), m = size("m");
  const bool bad = wrong(n != m);
  switch (vp_pick("operation", 0, 2)) {
    case 0: CALL(bad, il::blas(T(1), view(x, n), il::io, edit(y, m)));
    case 1: CALL(bad, il::blas(T(1), view(x, n), T(1), il::io, edit(y, m)));
    case 2: CALL(bad, il::dot(view(x, n), view(y, m)));
  }
}
template <typename T> static void level1c() {
  Raw<T> x, y;
  const long n = size("n"), m = size("m");
  const bool bad = wrong(n != m);
  const bool star = vp_flag("star");
  const il::Dot op = star ? il::Dot::Star : il::Dot::None;
  if (vp_flag("first")) CALL(bad, il::dot(view(x, n), op, view(y, m)));
  CALL(bad, il::dot(view(x, n), view(y, m), op));
}
template <typename T> static void matrices() {
  Raw<T> X, Y;
  const long n0 = size("n0"), n1 = size("n1"), m0 = size("m0"), m1 = size("m1");
  const bool bad = wrong((n0 != m0) | (n1 != m1));
  const T b = T(vp_pick("beta", 0, 1));
  CALL(bad, il::blas(T(1), view<D>(X, n0, n1), b, il::io, edit<D>(Y, m0, m1)));
}
VP_ENTRY(L08_vectors) {
  switch (vp_pick("type", 0, 7)) {
    case 0: level1<float>(); break;
    case 1: level1<double>(); break;
    case 2: level1<cf>(); break;
    case 3: level1<cd>(); break;
    case 4: level1c<cf>(); break;
    case 5: level1c<cd>(); break;
    case 6: matrices<double>(); break;
    case 7: matrices<cd>(); break;
  }
}

// ------------------------------------------------------------------- level 2
template <typename M, typename T> static void level2() {
  Raw<T> a, x, y;
  const long n0 = size("n0"), n1 = size("n1"), nx = size("nx"), ny = size("ny");
  const bool alias = vp_flag("alias");
  Raw<T>& z = alias ? x : y;
  if (vp_flag("short")) {
    const bool bad = wrong((n0 != ny) | (n1 != nx) | alias);
    CALL(bad, il::blas(T(1), view<M>(a, n0, n1), view(x, nx), T(1), il::io, edit(z, ny)));
  }
  const il::Dot op = dot("op");
  const bool t = op != il::Dot::None;
  const bool bad = wrong(((t ? n1 : n0) != ny) | ((t ? n0 : n1) != nx) | alias);
  CALL(bad, il::blas(T(1), view<M>(a, n0, n1), op, view(x, nx), T(1), il::io, edit(z, ny)));
}
VP_ENTRY(L08_matrixVector) {
  switch (vp_pick("type", 0, 7)) {
    case 0: level2<D, float>(); break;
    case 1: level2<D, double>(); break;
    case 2: level2<D, cf>(); break;
    case 3: level2<D, cd>(); break;
    case 4: level2<C, float>(); break;
    case 5: level2<C, double>(); break;
    case 6: level2<C, cf>(); break;
    case 7: level2<C, cd>(); break;
  }
}

// ------------------------------------------------------------------- level 3
template <typename M, typename T> static void level3() {
  Raw<T> a, b, c;
  const long a0 = size("a0"), a1 = size("a1"), b0 = size("b0"), b1 = size("b1"), c0 = size("c0"), c1 = size("c1");
  const int which = vp_pick("alias", 0, 2);
  Raw<T>& z = which == 1 ? a : which == 2 ? b : c;
  const bool alias = which != 0;
  const int form = vp_pick("form", 0, 3);
  const il::Dot opa = (form & 1) ? dot("opa") : il::Dot::None, opb = (form & 2) ? dot("opb") : il::Dot::None;
  const bool ta = opa != il::Dot::None, tb = opb != il::Dot::None;
  const bool bad = wrong(((ta ? a0 : a1) != (tb ? b1 : b0)) | ((ta ? a1 : a0) != c0) | ((tb ? b0 : b1) != c1) | alias, 1);
  switch (form) {
    case 0: CALL(bad, il::blas(T(1), view<M>(a, a0, a1), view<M>(b, b0, b1), T(1), il::io, edit<M>(z, c0, c1)));
    case 1: CALL(bad, il::blas(T(1), view<M>(a, a0, a1), opa, view<M>(b, b0, b1), T(1), il::io, edit<M>(z, c0, c1)));
    case 2: CALL(bad, il::blas(T(1), view<M>(a, a0, a1), view<M>(b, b0, b1), opb, T(1), il::io, edit<M>(z, c0, c1)));
    case 3: CALL(bad, il::blas(T(1), view<M>(a, a0, a1), opa, view<M>(b, b0, b1), opb, T(1), il::io, edit<M>(z, c0, c1)));
  }
}
VP_ENTRY(L08_productsD) {
  switch (vp_pick("type", 0, 3)) {
    case 0: level3<D, float>(); break;
    case 1: level3<D, double>(); break;
    case 2: level3<D, cf>(); break;
    case 3: level3<D, cd>(); break;
  }
}
VP_ENTRY(L08_productsC) {
  switch (vp_pick("type", 0, 3)) {
    case 0: level3<C, float>(); break;
    case 1: level3<C, double>(); break;
    case 2: level3<C, cf>(); break;
    case 3: level3<C, cd>(); break;
  }
}

// ------------------------------------------------------------------ dot
// room for more elements changes nothing
static il::Array<double> ones(long n) {
  il::Array<double> x{n, 1.0};
  if (vp_flag("spare")) x.Reserve(3);
  return x;
}
template <typename M, typename T>
static M matrix(long n0, long n1, T v) {
  M A{n0, n1, v};
  if (vp_flag("spare")) A.Reserve(3, 3);
  return A;
}
VP_ENTRY(L08_dot) {
  const long a0 = vp_pick("a0", 0, 2), a1 = vp_pick("a1", 0, 2), b0 = vp_pick("b0", 0, 2), b1 = vp_pick("b1", 0, 1);
  switch (vp_pick("operation", 0, 7)) {
    case 0: { const il::Array2D<double> A = matrix<il::Array2D<double>>(a0, a1, 0.0); const il::Array<double> x = ones(b0); CALL(a1 != b0, il::dot(A, x)); }
    case 1: { const il::Array2C<double> A = matrix<il::Array2C<double>>(a0, a1, 0.0); const il::Array<double> x = ones(b0); CALL(a1 != b0, il::dot(A, x)); }
    case 2: { const il::Array2D<double> A = matrix<il::Array2D<double>>(a0, a1, 0.0), B = matrix<il::Array2D<double>>(b0, b1, 0.0); CALL(a1 != b0, il::dot(A, B)); }
    case 3: { const il::Array2D<float> A = matrix<il::Array2D<float>>(a0, a1, 0.0f), B = matrix<il::Array2D<float>>(b0, b1, 0.0f); CALL(a1 != b0, il::dot(A, B)); }
    case 4: { const il::Array2C<double> A = matrix<il::Array2C<double>>(a0, a1, 0.0), B = matrix<il::Array2C<double>>(b0, b1, 0.0); CALL(a1 != b0, il::dot(A, B)); }
    case 5: { const il::Array<double> x = ones(a0), y = ones(b0); CALL(a0 != b0, il::dot(x, y)); }
    case 6: {
      const il::StaticArray2D<double, 2, 1> A{0.0};
      const il::StaticArray<double, 2> x{0.0};
      const il::Dot op = dot("op");
      CALL(op != il::Dot::Transpose, il::dot(A, op, x));
    }
    case 7: {
      const il::StaticArray2D<double, 2, 1> A{0.0};
      const il::StaticArray2D<double, 2, 2> B{0.0};
      const il::Dot op = dot("op");
      CALL(op != il::Dot::Transpose, il::dot(A, op, B));
    }
  }
}

// --------------------------------------------------------- triangular systems
template <typename T> static void triangular() {
  Raw<T> a, y;
  int p[kMost] = {1, 2};
  const long n0 = size("n0"), n1 = size("n1"), m0 = size("m0");
  vp_assume((m0 > 0) | (n0 > 0));
  const il::MatrixType t = kind();
  const bool L = t == il::MatrixType::LowerUnit, U = t == il::MatrixType::UpperNonUnit;
  const int how = vp_pick("operation", 0, 6);
  if (how == 2 || how == 6) {  // one right-hand side
    const il::ArrayEdit<T> x = edit(y, m0);
    if (how == 2) CALL(wrong((n0 != n1) | (m0 != n0) | !U), il::solve(view<D>(a, n0, n1), t, il::io, x));
    const long k = size("k");
    CALL(wrong((n0 != n1) | (m0 != n0) | (k != n0) | !L), il::solve(il::ArrayView<int>{p, k}, view<D>(a, n0, n1), t, il::io, x));
  }
  const long m1 = size("m1");
  const il::Array2DEdit<T> Y = edit<D>(y, m0, m1);
  switch (how) {
    case 0: CALL(wrong((n0 != n1) | (m0 != n0) | !(L | U)), il::solve(view<D>(a, n0, n1), t, il::io, Y));
    case 1: {
      const long k = size("k");
      CALL(wrong((n0 != n1) | (m0 != n0) | (k != n0) | !L), il::solve(il::ArrayView<int>{p, k}, view<D>(a, n0, n1), t, il::io, Y));
    }
    case 3: {
      const il::Dot op = dot("op");
      CALL(wrong((n0 != n1) | (m0 != n0) | !U | (op != il::Dot::Transpose)), il::solve(view<D>(a, n0, n1), t, op, il::io, Y));
    }
    case 4: CALL(wrong((n0 != n1) | (m1 != n0) | !U), il::solveRight(view<D>(a, n0, n1), t, il::io, Y));
    case 5: {
      vp_assume((n0 == n1) & (n0 == 1));
      const long k = size("k");
      CALL(wrong(k != m0), il::solve(il::ArrayView<int>{p, k}, il::io, Y));
    }
  }
}
VP_ENTRY(L08_triangularReal) { triangular<double>(); }
VP_ENTRY(L08_triangularComplex) { triangular<cd>(); }

// ---------------------------------------------------------------- factorizations
extern "C" lapack_int LAPACKE_dgecon(int, char, lapack_int, const double*, lapack_int, double, double* rcond) { *rcond = 1.0; return 0; }
template <typename T> static void inPlace() {
  Raw<T> a;
  int p[kMost];
  const long n0 = size("n0"), n1 = size("n1"), k = size("k");
  const bool bad = wrong((n0 != n1) | (k != n0), 1);
  vp_assume(bad | (n0 > 0));
  vp_lapack_regular(1);
  CALL(bad, il::luDecomposition(il::io, il::ArrayEdit<int>{p, k}, edit<D>(a, n0, n1)));
}
template <typename M> static M unit(long n0, long n1) {
  M A{n0, n1, 0.0};
  for (long i = 0; i < n0 && i < n1; ++i) A(i, i) = 1.0;
  return A;
}
VP_ENTRY(L08_systems) {
  const int how = vp_pick("operation", 0, 8);
  if (how == 0) return inPlace<double>();
  if (how == 1) return inPlace<cd>();
  const long n0 = vp_pick("n0", 1, 2), n1 = vp_pick("n1", 1, 2), m = vp_pick("m", 0, 2);
  il::Status status{};
  vp_lapack_regular(1);
  switch (how) {
    case 2: CALL((n0 != n1) | (m != n0), il::linearSolve(unit<il::Array2D<double>>(n0, n1), ones(m), il::io, status); status.Ok());
    case 3: CALL((n0 != n1) | (m != n0), il::linearSolve(unit<il::Array2C<double>>(n0, n1), ones(m), il::io, status); status.Ok());
    case 4: {
      il::TriDiagonal<double> A{n0};
      for (long i = 0; i < n0; ++i) { A(i, -1) = 0.0; A(i, 0) = 1.0; A(i, 1) = 0.0; }
      vp_assume(n1 == 1);
      CALL(m != n0, il::linearSolve(std::move(A), ones(m), il::io, status); status.Ok());
    }
    case 5: case 6: case 7: {
      const il::LU<il::Array2D<double>> lu{unit<il::Array2D<double>>(n0, n1), il::io, status};
      status.Ok();
      if (how == 5) CALL((n0 != n1) | (m != n0), lu.solve(ones(m)));
      if (how == 6) CALL((n0 != n1) | (m != n0), lu.solve(il::Array2D<double>{m, 1, 1.0}));
      if (vp_flag("inverse")) CALL(n0 != n1, lu.inverse());
      if (vp_flag("determinant")) CALL(n0 != n1, lu.determinant());
      const il::Norm t = norm();
      CALL((n0 != n1) | (t == il::Norm::L2), lu.conditionNumber(t, 1.0));
    }
    case 8: {
      il::BandArray2C<double> A{n0, n1, 0, 0};
      for (long i = 0; i < n0 && i < n1; ++i) A(i, 0) = 1.0;
      CALL((n0 != n1) | (m != n0), il::linearSolve(std::move(A), ones(m), il::io, status); status.Ok());
    }
  }
}
VP_ENTRY(L08_norms) {
  const long n = vp_pick("n", 1, 2), m = vp_pick("m", 0, 2);
  const il::Norm t = norm();
  const il::Array<double> x = ones(n);
  switch (vp_pick("of", 0, 2)) {
    case 0: { const il::Array<double> alpha = ones(m); CALL(m != n, il::norm(x, t, alpha)); }
    case 1: { const il::Array2D<double> A{n, m, 1.0}; CALL(t == il::Norm::L2, il::norm(A, t)); }
    case 2: {
      il::TriDiagonal<double> A{n};
      for (long i = 0; i < n; ++i) A(i, -1) = A(i, 0) = A(i, 1) = 0.0;
      CALL(t != il::Norm::Linf, il::norm(A, t));
    }
  }
}

// ------------------------------------------------------------- iterative solvers
struct Op : public il::FunctorArray<double> {
  long n_[2];
  Op(long n0, long n1) { n_[0] = n0; n_[1] = n1; }
  il::int_t size(il::int_t d) const override { return n_[d]; }
  void operator()(il::ArrayView<double>, il::io_t, il::ArrayEdit<double>) const override {}
};
extern "C" double dnrm2(const MKL_INT*, const double*, const MKL_INT*) { return 0.0; }
extern "C" double cblas_dnrm2(const MKL_INT, const double*, const MKL_INT) { return 0.0; }
extern "C" void daxpy(const MKL_INT*, const double*, const double*, const MKL_INT*, double*, const MKL_INT*) {}
extern "C" void dcg_init(const MKL_INT*, const double*, const double*, MKL_INT* rci, MKL_INT*, double*, double*) { *rci = 0; }
extern "C" void dcg_check(const MKL_INT*, const double*, const double*, MKL_INT* rci, MKL_INT*, double*, double*) { *rci = 0; }
extern "C" void dcg(const MKL_INT*, double*, const double*, MKL_INT* rci, MKL_INT*, double* dpar, double*) { dpar[2] = dpar[4] = 0.0; *rci = 2; }
extern "C" void dcg_get(const MKL_INT*, const double*, const double*, const MKL_INT*, const MKL_INT*, const double*, const double*, MKL_INT* k) { *k = 0; }
extern "C" void dfgmres_init(const MKL_INT*, const double*, const double*, MKL_INT* rci, MKL_INT*, double*, double*) { *rci = 0; }
extern "C" void dfgmres_check(const MKL_INT*, const double*, const double*, MKL_INT* rci, MKL_INT*, double*, double*) { *rci = 0; }
extern "C" void dfgmres(const MKL_INT*, double*, double*, MKL_INT* rci, MKL_INT*, double*, double*) { *rci = 0; }
extern "C" void dfgmres_get(const MKL_INT*, double*, double*, MKL_INT*, const MKL_INT*, const double*, double*, MKL_INT* k) { *k = 0; }
VP_ENTRY(L08_iterative) {
  const long n0 = vp_pick("n0", 1, 2), n1 = vp_pick("n1", 1, 2), m0 = vp_pick("m0", 1, 2), m1 = vp_pick("m1", 1, 2), k = vp_pick("k", 0, 2), l = vp_pick("l", 0, 2);
  const Op A{n0, n1}, B{m0, m1}, I{n0, n0};
  const int how = vp_pick("operation", 0, 9);
  if (how >= 2) vp_assume((m0 == 1) & (m1 == 1) & (n0 == n1));
  if (how < 7) vp_assume(l == 0);
  if (how < 4) vp_assume(k == 0);
  switch (how) {
    case 0: CALL((n0 != n1) | (m0 != m1) | (n0 != m0), (il::Cg<double>{A, B}));
    case 1: CALL((n0 != n1) | (m0 != m1) | (n0 != m0), (il::Gmres<double>{A, B, 2}));
    case 2: { const Op S{n0, (long)vp_pick("columns", 1, 2)}; CALL(S.n_[0] != S.n_[1], (il::Cg<double>{S})); }
    case 3: { const Op S{n0, (long)vp_pick("columns", 1, 2)}; CALL(S.n_[0] != S.n_[1], (il::Gmres<double>{S, 2})); }
    case 4: { il::Cg<double> s{I}; const il::Array<double> y = ones(k); CALL(k != n0, s.SetToSolve(y.view())); }
    case 5: { il::Cg<double> s{I}; il::Status status{}; CALL(k != n0, s.Solve(ones(k), il::io, status); status.Ok()); }
    case 6: { il::Gmres<double> s{I, 2}; const il::Array<double> y = ones(k); CALL(k != n0, s.SetToSolve(y.view())); }
    case 7: {
      il::Gmres<double> s{I, 2};
      il::Status status{};
      const il::Array<double> y = ones(k);
      il::Array<double> x = ones(l);
      CALL((k != n0) | (l != n0), s.Solve(y.view(), 1.0, 3, il::io, x.Edit(), status); status.Ok());
    }
    case 8: {
      vp_assume((n0 == 1) & (k == 0) & (l == 0));
      il::Cg<double> s{I};
      const double e = vp_dint("precision", -3, 3);
      if (vp_flag("relative")) CALL(e < 0.0, s.SetRelativePrecision(e));
      CALL(e < 0.0, s.SetAbsolutionPrecision(e));
    }
    case 9: {
      vp_assume((n0 == 1) & (k == 0) & (l == 0));
      il::Cg<double> s{I};
      const long most = vp_i64("iterations");
      CALL(most < 0, s.SetMaxNbIterations(most));
    }
  }
}
