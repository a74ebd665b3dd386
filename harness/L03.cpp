// Linear systems: the library gives LAPACK and BLAS the system it was asked to
// solve, and gives back the solution.
// vp: variants debug ndebug
// vp: flags linalg cxlr
// bound: systems of 1 to 4 equations for linearSolve (dense, bands of any widths, tridiagonal), 1 to 2 for LU (3 thorough) and factorizations in place, 1 to 3 for the triangular and the permuted ones, 1 or 2 right-hand sides, matrices with spare capacity and views of larger ones included; coefficients and solutions are any integers of absolute value up to 5 (exact arithmetic)
#include "vp.h"
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/linearAlgebra/dense/factorization/LU.h>
#include <il/linearAlgebra/dense/factorization/linearSolve.h>
#include <il/linearAlgebra/dense/factorization/luDecomposition.h>
#include <il/linearAlgebra/dense/blas/solve.h>
#include <complex>
#include <utility>

extern "C" long vp_lapack_info();
extern "C" void vp_lapack_regular(int);
extern "C" void vp_lapack_hint(const double*, long, const int*);
typedef std::complex<double> cd;
static const long N = 4;
#ifdef VP_DEEP
static const long kMost = 3;
#else
static const long kMost = 2;
#endif
static long K = 5;
static double any(const char* n, double*) { return vp_dint(n, -K, K); }
static cd any(const char* n, cd*) { const double a = vp_dint(n, -K, K), b = vp_dint(n, -K, K); return cd{a, b}; }
static bool same(double a, double b) { return a == b; }
static bool same(cd a, cd b) { return (a.real() == b.real()) & (a.imag() == b.imag()); }
template <typename T>
struct Sys {
  T a[N][N], b[N][N];
  long n, m;
};
template <typename T>
static Sys<T> sys(long n, long m) {
  Sys<T> s;
  s.n = n; s.m = m;
  for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) s.a[i][j] = any("a", (T*)nullptr);
  for (long i = 0; i < n; ++i) for (long j = 0; j < m; ++j) s.b[i][j] = any("b", (T*)nullptr);
  return s;
}
// A system P L U x = b: the factors and the solution are arbitrary, A and b follow.
// All regular systems whose factors are integers are of this form.
template <typename T>
struct Fact {
  Sys<T> s;
  T f[N * N], x[N * N], y[N * N], w[N * N];  // L and U, x, U x and the right-hand side before the permutation
  int pivot[N];
};
template <typename T>
static void factored(Fact<T>& q, long n, long m) {
  q.s.n = n; q.s.m = m;
  for (long i = 0; i < n * n; ++i) q.f[i] = any("lu", (T*)nullptr);
  for (long i = 0; i < n; ++i) vp_assume(!same(q.f[i + i * n], T(0)));
  for (long i = 0; i < n * m; ++i) q.x[i] = any("x", (T*)nullptr);
  for (long i = 0; i < n; ++i) q.pivot[i] = (int)vp_pick("pivot", i + 1, n);
  for (long j = 0; j < m; ++j)
    for (long i = 0; i < n; ++i) {
      T r = T(0);
      for (long p = i; p < n; ++p) r = r + q.f[i + p * n] * q.x[p + j * n];
      q.y[i + j * n] = r;
    }
  for (long i = 0; i < n; ++i) {
    for (long j = 0; j < n; ++j) {
      T r = T(0);
      for (long p = 0; p <= (i < j ? i : j); ++p) r = r + (p == i ? q.f[p + j * n] : q.f[i + p * n] * q.f[p + j * n]);
      q.s.a[i][j] = r;
    }
    for (long j = 0; j < m; ++j) {
      T r = q.y[i + j * n];
      for (long p = 0; p < i; ++p) r = r + q.f[i + p * n] * q.y[p + j * n];
      q.s.b[i][j] = r;
    }
  }
  for (long i = n - 1; i >= 0; --i) {
    const long p = q.pivot[i] - 1;
    for (long j = 0; j < n; ++j) std::swap(q.s.a[i][j], q.s.a[p][j]);
    for (long j = 0; j < m; ++j) std::swap(q.s.b[i][j], q.s.b[p][j]);
  }
  vp_lapack_hint((const double*)q.f, n * n, q.pivot);
  vp_lapack_hint((const double*)q.y, n * m, nullptr);
  vp_lapack_hint((const double*)q.x, n * m, nullptr);
}
// A x = b
template <typename T, typename F>
static bool solves(const Sys<T>& s, const F& x) {
  bool ok = true;
  for (long i = 0; i < s.n; ++i)
    for (long j = 0; j < s.m; ++j) {
      T r = T(0);
      for (long p = 0; p < s.n; ++p) r = r + s.a[i][p] * x(p, j);
      ok = ok & same(r, s.b[i][j]);
    }
  return ok;
}
template <typename M, typename T>
static void full(M& A, const Sys<T>& s, bool spare) {
  if (spare) A.Reserve(s.n + 1, s.n + 2);
  A.Resize(s.n, s.n);
  for (long i = 0; i < s.n; ++i) for (long j = 0; j < s.n; ++j) A(i, j) = s.a[i][j];
}
static il::Array<double> rhs(const Sys<double>& s) {
  il::Array<double> y{s.n};
  for (long i = 0; i < s.n; ++i) y[i] = s.b[i][0];
  return y;
}
template <typename T>
static il::Array2D<T> rhs2(const Sys<T>& s, bool spare) {
  il::Array2D<T> y{};
  if (spare) y.Reserve(s.n + 2, s.m + 1);
  y.Resize(s.n, s.m);
  for (long i = 0; i < s.n; ++i) for (long j = 0; j < s.m; ++j) y(i, j) = s.b[i][j];
  return y;
}
static bool answer(il::Status& st) {
  const bool ok = st.Ok();
  vp_assert(ok == (vp_lapack_info() == 0), "the status does not tell whether the matrix is singular");
  if (!ok) vp_assert(st.error() == il::Error::MatrixSingular, "the error is not that of a singular matrix");
  return ok;
}
VP_ENTRY(L03_solve) {
  {
    const long n = vp_pick("n", 1, 4);
    Sys<double> s = sys<double>(n, 1);
    il::Status st{};
    il::Array<double> x{};
    const long kind = vp_pick("kind", 0, 3);
    if (kind == 0) { il::Array2D<double> A{}; full(A, s, vp_flag("spare")); x = vp_flag("move") ? il::linearSolve(std::move(A), rhs(s), il::io, st) : il::linearSolve(A, rhs(s), il::io, st); }
    if (kind == 1) { il::Array2C<double> A{}; full(A, s, vp_flag("spare")); x = vp_flag("move") ? il::linearSolve(std::move(A), rhs(s), il::io, st) : il::linearSolve(A, rhs(s), il::io, st); }
    if (kind == 2) {
      // bands that are wider than the matrix included
      static const long kL[] = {0, 0, 1, 1, 3, 0, 2, 3}, kR[] = {0, 1, 0, 1, 0, 3, 1, 3};
      const long w = vp_pick("widths", 0, 7), l = kL[w], r = kR[w];
      const bool sq = l == r && vp_flag("square");
      il::BandArray2C<double> A = sq ? il::BandArray2C<double>{n, l} : il::BandArray2C<double>{n, n, l, r};
      for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) { if (i - j > l || j - i > r) s.a[i][j] = 0.0; else A(i, j - i) = s.a[i][j]; }
      x = il::linearSolve(A, rhs(s), il::io, st);
    }
    if (kind == 3) {
      il::TriDiagonal<double> A{n};
      for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) { if (i - j > 1 || j - i > 1) s.a[i][j] = 0.0; else A(i, j - i) = s.a[i][j]; }
      x = il::linearSolve(A, rhs(s), il::io, st);
    }
    if (answer(st)) {
      vp_assert(x.size() == n, "size of the solution");
      vp_assert(solves(s, [&](long i, long) { return x[i]; }), "the solution does not satisfy the system");
      vp_cover("solution");
    }
  }
}
VP_ENTRY(L03_LU) {
  {
    const long n = vp_pick("n", 1, kMost), m = vp_pick("m", 1, 2);
    static Fact<double> q;
    factored(q, n, m);
    const Sys<double>& s = q.s;
    il::Array2D<double> A{};
    full(A, s, vp_flag("spare"));
    il::Status st{};
    const bool move = vp_flag("move");
    const il::LU<il::Array2D<double>> lu = move ? il::LU<il::Array2D<double>>{std::move(A), il::io, st} : il::LU<il::Array2D<double>>{A, il::io, st};
    if (!answer(st)) return;
    vp_assert(lu.size(0) == n && lu.size(1) == n, "size");
    switch (vp_pick("op", 0, 3)) {
      case 0: {
        vp_assume(m == 1);
        const il::Array<double> x = lu.solve(rhs(s));
        vp_assert(x.size() == n, "size of the solution");
        vp_assert(solves(s, [&](long i, long) { return x[i]; }), "the solution does not satisfy the system");
        break;
      }
      case 1: {
        const il::Array2D<double> x = lu.solve(rhs2(s, vp_flag("spare y")));
        vp_assert(x.size(0) == n && x.size(1) == m, "size of the solution");
        vp_assert(solves(s, [&](long i, long j) { return x(i, j); }), "the solution does not satisfy the system");
        break;
      }
      case 2: {
        vp_assume(m == 1);
        const il::Array2D<double> x = lu.inverse();
        vp_assert(x.size(0) == n && x.size(1) == n, "size of the inverse");
        bool ok = true;
        for (long i = 0; i < n; ++i)
          for (long j = 0; j < n; ++j) {
            double r = 0.0;
            for (long p = 0; p < n; ++p) r = r + s.a[i][p] * x(p, j);
            ok = ok & (r == (i == j ? 1.0 : 0.0));
          }
        vp_assert(ok, "the inverse times the matrix is not the identity");
        vp_cover("inverse");
        break;
      }
      case 3: {
        vp_assume(m == 1);
        const double d = n == 1 ? s.a[0][0] : n == 2 ? s.a[0][0] * s.a[1][1] - s.a[0][1] * s.a[1][0] : s.a[0][0] * (s.a[1][1] * s.a[2][2] - s.a[1][2] * s.a[2][1]) - s.a[0][1] * (s.a[1][0] * s.a[2][2] - s.a[1][2] * s.a[2][0]) + s.a[0][2] * (s.a[1][0] * s.a[2][1] - s.a[1][1] * s.a[2][0]);
        vp_assert(lu.determinant() == d, "determinant");
        break;
      }
    }
    vp_cover("LU");
  }
}
template <typename T, long n>
static void fixedLU() {
  static Fact<T> q;
  if (n == 2) K = 2;
  factored(q, n, 0);
  const Sys<T>& s = q.s;
  il::StaticArray2D<T, n, n> A{};
  for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) A(i, j) = s.a[i][j];
  il::Status st{};
  const il::LU<il::StaticArray2D<T, n, n>> lu{A, il::io, st};
  if (!answer(st)) return;
  const il::StaticArray2D<T, n, n> x = lu.inverse();
  bool ok = true;
  for (long i = 0; i < n; ++i)
    for (long j = 0; j < n; ++j) {
      T r = T(0);
      for (long p = 0; p < n; ++p) r = r + s.a[i][p] * x(p, j);
      ok = ok & same(r, i == j ? T(1) : T(0));
    }
  vp_assert(ok, "the inverse times the matrix is not the identity");
  vp_cover("static LU");
}
VP_ENTRY(L03_static) {
  switch (vp_pick("kind", 0, 3)) {
    case 0: fixedLU<double, 1>(); break;
    case 1: fixedLU<double, 2>(); break;
    case 2: fixedLU<cd, 1>(); break;
    case 3: fixedLU<cd, 2>(); break;
  }
}
// The triangular and permuted systems, on views
template <typename T>
static void triangular(long nmax) {
  const long n = vp_pick("n", 1, nmax), m = vp_pick("m", 1, 2);
  const bool right = vp_flag("right");
  const Sys<T> s = right ? sys<T>(n, 0) : sys<T>(n, m);
  const bool sub = vp_flag("sub");
  const long o = sub ? 1 : 0;
  il::Array2D<T> A{n + 2 * o, n + 2 * o, T(9)};
  for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) A(i + o, j + o) = s.a[i][j];
  const il::Array2DView<T> V = A.view(il::Range{o, o + n}, il::Range{o, o + n});
  if (right) {  // X U = B
    il::Array2D<T> Y{m + o, n, T(9)}, Y0{m, n};
    for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) Y(i + o, j) = Y0(i, j) = any("b", (T*)nullptr);
    il::solveRight(V, il::MatrixType::UpperNonUnit, il::io, Y.Edit(il::Range{o, o + m}, il::Range{0, n}));
    bool ok = true;
    for (long i = 0; i < m; ++i)
      for (long j = 0; j < n; ++j) {
        T r = T(0);
        for (long p = 0; p <= j; ++p) r = r + Y(i + o, p) * s.a[p][j];
        ok = ok & same(r, Y0(i, j));
      }
    vp_assert(ok, "the solution does not satisfy the system X U = B");
    return;
  }
  Sys<T> t = s;  // the system that is solved
  const long kind = vp_pick("kind", 0, 6);
  const bool lower = kind == 0 || kind == 5;
  for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) {
    if (lower) t.a[i][j] = i > j ? s.a[i][j] : i == j ? T(1) : T(0);
    else t.a[i][j] = i <= j ? s.a[i][j] : T(0);
  }
  il::Array<int> pivot{n};
  long perm[N];
  if (kind >= 4) {
    for (long i = 0; i < n; ++i) pivot[i] = (int)vp_pick("pivot", i + 1, n);
    for (long i = 0; i < n; ++i) perm[i] = i;
    for (long i = 0; i < n; ++i) std::swap(perm[i], perm[pivot[i] - 1]);
  } else {
    for (long i = 0; i < n; ++i) perm[i] = i;
  }
  il::Array2D<T> Y{n + 2 * o, m + o, T(9)};
  for (long i = 0; i < n; ++i) for (long j = 0; j < m; ++j) Y(i + o, j + o) = s.b[i][j];
  il::Array2DEdit<T> E = Y.Edit(il::Range{o, o + n}, il::Range{o, o + m});
  il::Array<T> y{n};
  for (long i = 0; i < n; ++i) y[i] = s.b[i][0];
  bool one = false;
  switch (kind) {
    case 0: il::solve(V, il::MatrixType::LowerUnit, il::io, E); break;
    case 1: il::solve(V, il::MatrixType::UpperNonUnit, il::io, E); break;
    case 2: one = true; il::solve(V, il::MatrixType::UpperNonUnit, il::io, y.Edit()); break;
    case 3: {  // with the transpose
      for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) t.a[i][j] = j <= i ? s.a[j][i] : T(0);
      il::solve(V, il::MatrixType::UpperNonUnit, il::Dot::Transpose, il::io, E);
      break;
    }
    case 4: {  // only the permutation
      for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) t.a[i][j] = i == j ? T(1) : T(0);
      il::solve(pivot.view(), il::io, E);
      break;
    }
    case 5: il::solve(pivot.view(), V, il::MatrixType::LowerUnit, il::io, E); break;
    case 6: {
      one = true;
      for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) t.a[i][j] = i > j ? s.a[i][j] : i == j ? T(1) : T(0);
      il::solve(pivot.view(), V, il::MatrixType::LowerUnit, il::io, y.Edit());
      break;
    }
  }
  for (long i = 0; i < n; ++i) for (long j = 0; j < m; ++j) t.b[i][j] = s.b[perm[i]][j];
  if (one) { t.m = 1; vp_assert(solves(t, [&](long i, long) { return y[i]; }), "the solution does not satisfy the system"); }
  else { vp_assert(solves(t, [&](long i, long j) { return Y(i + o, j + o); }), "the solution does not satisfy the system"); }
  bool ok = true;
  for (long j = 0; sub && j < m + 1; ++j) ok = ok & same(Y(0, j), T(9)) & same(Y(n + 1, j), T(9));
  vp_assert(ok, "an element outside of the view is changed");
}
VP_ENTRY(L03_triangular) {
  if (vp_flag("complex")) triangular<cd>(2); else triangular<double>(3);
  vp_cover("triangular");
}
// The factorization in place, then the two triangular systems
template <typename T>
static void chain() {
  vp_lapack_regular(1);
  const long n = vp_pick("n", 1, 2);
  static Fact<T> q;
  factored(q, n, vp_pick("m", 1, 2));
  const Sys<T>& s = q.s;
  const long o = vp_flag("sub") ? 1 : 0;
  il::Array2D<T> A{n + o, n + o, T(9)};
  for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) A(i + o, j + o) = s.a[i][j];
  il::Array<int> pivot{n};
  il::luDecomposition(il::io, pivot.Edit(), A.Edit(il::Range{o, o + n}, il::Range{o, o + n}));
  il::Array2D<T> Y = rhs2(s, o == 1);
  const il::Array2DView<T> V = A.view(il::Range{o, o + n}, il::Range{o, o + n});
  il::solve(pivot.view(), V, il::MatrixType::LowerUnit, il::io, Y.Edit());
  il::solve(V, il::MatrixType::UpperNonUnit, il::io, Y.Edit());
  vp_assert(solves(s, [&](long i, long j) { return Y(i, j); }), "the solution does not satisfy the system");
}
VP_ENTRY(L03_chain) {
  if (vp_flag("complex")) chain<cd>(); else chain<double>();
  vp_cover("chain");
}
