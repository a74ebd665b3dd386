// Direct sparse solves and spectra: MKL is given the matrix, and gives back the result.
// vp: variants debug ndebug
// vp: flags linalg cxlr
// bound: sparse systems of 1 to 3 equations with entries in any places and up to 4 (5 thorough) of them, solved after every sequence of 3 (4 thorough) operations of the solver, legal or not, for 2 matrices; elements and solutions are any integers of absolute value up to 20 (exact arithmetic)
// bound: eigenvalues of matrices of order 1 to 3 with spare capacity of 0 or 1, moved or not, QR decompositions in place of views of 1 to 3 rows and columns inside of larger matrices, singular values of real and complex matrices of order 1 to 3; elements, intermediate results, results and error codes of LAPACK are any integers
#include "vp.h"
#include <il/Array.h>
#include <il/Array2D.h>
#include <il/SparseMatrixCSR.h>
#include <il/StaticArray2D.h>
#include <il/linearAlgebra/dense/factorization/Eigen.h>
#include <il/linearAlgebra/dense/factorization/Singular.h>
#include <il/linearAlgebra/dense/factorization/qrDecomposition.h>
#include <il/linearAlgebra/sparse/factorization/Pardiso.h>
#include <complex>
#include <utility>

typedef std::complex<double> cd;
static const long N = 3;
static double any(const char* n) { return vp_dint(n, -20, 20); }

// ------------------------------------------------------------------- Pardiso
// The routine, by its contract: a handle that is analysed (11), factorized (22)
// and solved with (33) in this order, for one sparsity pattern, until it is released.
struct Sys {
  long n;
  double a[N][N], x[N], y[N];
  bool in[N][N];
  il::SparseMatrixCSR<il::int_t, double> A;
  il::Array<double> b;
};
static Sys* g_sys[2];
static int g_analysed = -1, g_factorized = -1;  // the system the handle knows
static long g_released, g_solved;
static const double* g_value;

static bool pattern(const Sys& s, long n, const long long* ia, const long long* ja) {
  if (n != s.n || ia[0] != 0) return false;
  bool ok = true;
  for (long i = 0; i < n; ++i) {
    long k = ia[i];
    for (long j = 0; j < n; ++j)
      if (s.in[i][j]) {
        if (k >= ia[i + 1] || ja[k] != j) return false;
        ++k;
      }
    if (k != ia[i + 1]) return false;
  }
  return ok;
}
static bool values(const Sys& s, const long long* ia, const double* a) {
  bool ok = true;
  for (long i = 0; i < s.n; ++i) {
    long k = ia[i];
    for (long j = 0; j < s.n; ++j)
      if (s.in[i][j]) ok = ok & (a[k++] == s.a[i][j]);
  }
  return ok;
}
static long g_now;  // the system the user works with
extern "C" void pardiso_64(_MKL_DSS_HANDLE_t pt, const long long int* maxfct, const long long int* mnum, const long long int* mtype, const long long int* phase,
                           const long long int* n, const void* a, const long long int* ia, const long long int* ja, long long int*, const long long int* nrhs,
                           long long int* iparm, const long long int*, void* b, void* x, long long int* error) {
  vp_assert(*maxfct >= 1 && *mnum >= 1 && *mnum <= *maxfct && *nrhs == 1, "one factorization, one right-hand side");
  *error = 0;
  if (*phase == -1) {
    vp_assert(g_analysed >= 0, "only an open handle is released");
    g_analysed = g_factorized = -1;
    ++g_released;
    return;
  }
  const Sys& s = *g_sys[g_now];
  vp_assert(*mtype == 11, "the matrix has no symmetry");
  vp_assert(iparm[0] == 0 || iparm[34] == 1, "rows and columns are numbered from 0");
  vp_assert(iparm[4] == 0 && iparm[5] == 0 && iparm[11] == 0 && iparm[27] == 0 && iparm[30] == 0 && iparm[35] == 0, "the system itself is solved, in double precision, into x");
  vp_assert(pattern(s, *n, ia, ja), "the routine is given the sparsity pattern of the matrix");
  vp_assert(values(s, ia, (const double*)a), "the routine is given the elements of the matrix");
  if (*phase == 11) {
    g_analysed = (int)g_now;
    g_factorized = -1;
    return;
  }
  if (*phase == 22) {
    vp_assert(g_analysed == g_now, "a matrix is analysed before it is factorized");
    g_factorized = (int)g_now;
    return;
  }
  vp_assert(*phase == 33 && g_factorized == g_now, "a matrix is factorized before systems are solved");
  vp_assert((const double*)b != (const double*)x, "the right-hand side is not overwritten");
  bool same = true;
  for (long i = 0; i < s.n; ++i) same = same & (((const double*)b)[i] == s.y[i]);
  vp_assert(same, "the routine is given the right-hand side");
  for (long i = 0; i < s.n; ++i) ((double*)x)[i] = s.x[i];
  ++g_solved;
}
extern "C" void pardiso(_MKL_DSS_HANDLE_t, const MKL_INT*, const MKL_INT*, const MKL_INT*, const MKL_INT*, const MKL_INT*, const void*, const MKL_INT*, const MKL_INT*, MKL_INT*,
                        const MKL_INT*, MKL_INT*, const MKL_INT*, void*, void*, MKL_INT*) {
  vp_fail("indices of 64 bits are given to the routine for 32 bits");
}
static void make(Sys& s, long n, long most) {
  s.n = n;
  long k = 0;
  il::Array<il::int_t> row{n + 1}, column{};
  row[0] = 0;
  for (long i = 0; i < n; ++i) {
    for (long j = 0; j < n; ++j) {
      s.in[i][j] = k < most && vp_flag("entry");
      if (s.in[i][j]) { column.Append(j); ++k; }
      s.a[i][j] = s.in[i][j] ? any("a") : 0.0;
    }
    row[i + 1] = k;
  }
  vp_assume(k > 0);
  s.A = il::SparseMatrixCSR<il::int_t, double>{n, n, std::move(column), std::move(row)};
  k = 0;
  for (long i = 0; i < n; ++i)
    for (long j = 0; j < n; ++j) if (s.in[i][j]) s.A[k++] = s.a[i][j];
  s.b.Resize(n);
  for (long i = 0; i < n; ++i) s.x[i] = any("x");
  for (long i = 0; i < n; ++i) {
    s.y[i] = 0.0;
    for (long j = 0; j < n; ++j) s.y[i] = s.y[i] + s.a[i][j] * s.x[j];
    s.b[i] = s.y[i];
  }
}
static void checkSolution(const Sys& s, const il::Array<double>& x) {
  vp_assert(x.size() == s.n, "the solution has the size of the system");
  bool ok = true;
  for (long i = 0; i < s.n; ++i) ok = ok & (x[i] == s.x[i]) & (s.b[i] == s.y[i]);
  vp_assert(ok, "the solution of the system is returned and the right-hand side is kept");
  vp_assert(pattern(s, s.n, (const long long*)s.A.rowData(), (const long long*)s.A.columnData()) && values(s, (const long long*)s.A.rowData(), s.A.elementData()), "the matrix is kept");
}
VP_ENTRY(L06_pardiso) {
  Sys s;
  make(s, vp_pick("n", 1, N), 4);
  g_sys[0] = g_sys[1] = &s;
  {
    il::Pardiso solver{};
    solver.SymbolicFactorization(s.A);
    solver.NumericalFactorization(s.A);
    il::Array<double> x = vp_flag("iterative") ? solver.SolveIterative(s.A, s.b) : solver.Solve(s.A, s.b);
    checkSolution(s, x);
    // another system with the same factorization
    for (long i = 0; i < s.n; ++i) {
      s.x[i] = any("x");
    }
    for (long i = 0; i < s.n; ++i) {
      s.y[i] = 0.0;
      for (long j = 0; j < s.n; ++j) s.y[i] = s.y[i] + s.a[i][j] * s.x[j];
      s.b[i] = s.y[i];
    }
    il::Array<double> z = solver.Solve(s.A, s.b);
    checkSolution(s, z);
    vp_assert(g_released == 0 && g_solved == 2, "both systems are solved with one factorization");
  }
  vp_assert(g_released == 1 && g_analysed == -1, "the memory of the routine is released, once");
  vp_cover("solved");
}
// Histories with two matrices; what is not legal stops a debug build
VP_ENTRY(L06_pardiso_history) {
  Sys s[2];
  for (int k = 0; k < 2; ++k) {
    make(s[k], 2, 2);
    g_sys[k] = &s[k];
  }
#ifdef VP_DEEP
  const int steps = 4;
#else
  const int steps = 3;
#endif
  int analysed = -1, factorized = -1;
  {
    il::Pardiso solver{};
    for (int t = 0; t < steps; ++t) {
      g_now = vp_pick("matrix", 0, 1);
      Sys& w = s[g_now];
      switch (vp_pick("operation", 0, 4)) {
        case 0:
          solver.SymbolicFactorization(w.A);
          analysed = (int)g_now;
          factorized = -1;
          break;
        case 1:
#ifdef NDEBUG
          vp_assume(analysed == g_now);
#else
          vp_abort_ok(analysed != g_now);
#endif
          solver.NumericalFactorization(w.A);
          vp_assert(analysed == g_now, "a debug build stops when a matrix that is not analysed is factorized");
          factorized = (int)g_now;
          break;
        case 2: case 3: {
#ifdef NDEBUG
          vp_assume(factorized == g_now);
#else
          vp_abort_ok(factorized != g_now);
#endif
          checkSolution(w, vp_flag("iterative") ? solver.SolveIterative(w.A, w.b) : solver.Solve(w.A, w.b));
          vp_assert(factorized == g_now, "a debug build stops when a system is solved without factorization");
          vp_cover("solved");
          break;
        }
        default:
          // new elements at the same places
          for (long k = 0; k < w.A.nbNonZeros(); ++k) w.A[k] = any("new");
          {
            long k = 0;
            for (long i = 0; i < w.n; ++i)
              for (long j = 0; j < w.n; ++j) if (w.in[i][j]) w.a[i][j] = w.A[k++];
          }
          for (long i = 0; i < w.n; ++i) {
            w.y[i] = 0.0;
            for (long j = 0; j < w.n; ++j) w.y[i] = w.y[i] + w.a[i][j] * w.x[j];
            w.b[i] = w.y[i];
          }
          if (factorized == g_now) { factorized = -1; t = steps; }
      }
      vp_abort_ok(false);
    }
  }
  vp_assert(g_analysed == -1, "the memory of the routine is released");
}

// ------------------------------------------------------------------- spectra
static long g_n, g_ld;
static double g_a[N * N], g_h[N * N], g_re[N], g_im[N], g_tau[N];
static cd g_za[N * N];
static int g_info, g_step;
extern "C" lapack_int LAPACKE_dgehrd(int layout, lapack_int n, lapack_int ilo, lapack_int ihi, double* a, lapack_int lda, double* tau) {
  vp_assert(layout == LAPACK_COL_MAJOR && n == g_n && ilo == 1 && ihi == n && lda >= n, "the whole matrix is reduced");
  vp_assert(vp_bytes_left(a) >= (int64_t)sizeof(double) * (lda * (n - 1) + n), "the matrix has the size it is announced with");
  bool ok = true;
  for (long j = 0; j < n; ++j)
    for (long i = 0; i < n; ++i) ok = ok & (a[i + j * lda] == g_a[i + j * n]);
  vp_assert(ok, "LAPACK is given the matrix");
  for (long j = 0; j < n; ++j)
    for (long i = 0; i < n; ++i) a[i + j * lda] = g_h[i + j * n] = any("hessenberg");
  for (long i = 0; i + 1 < n; ++i) tau[i] = any("tau");
  g_step = 1;
  return 0;
}
extern "C" lapack_int LAPACKE_dhseqr(int layout, char job, char compz, lapack_int n, lapack_int ilo, lapack_int ihi, double* h, lapack_int ldh, double* wr, double* wi, double*, lapack_int ldz) {
  vp_assert(g_step == 1 && layout == LAPACK_COL_MAJOR && (job == 'E' || job == 'S') && compz == 'N' && n == g_n && ilo == 1 && ihi == n && ldh >= n && ldz >= 1, "the eigenvalues of the whole matrix are computed");
  bool ok = true;
  for (long j = 0; j < n; ++j)
    for (long i = 0; i < n; ++i) ok = ok & ((i > j + 1) | (h[i + j * ldh] == g_h[i + j * n]));
  vp_assert(ok, "the reduced matrix is used");
  for (long i = 0; i < n; ++i) {
    wr[i] = g_re[i] = any("re");
    wi[i] = g_im[i] = any("im");
  }
  g_step = 2;
  return g_info = (int)vp_int("info", 0, n);
}
VP_ENTRY(L06_eigen) {
  const long n = g_n = vp_pick("n", 1, N), spare = vp_pick("spare", 0, 1);
  il::Array2D<double> A{n, n};
  if (spare) A.Reserve(n + 1, n + 1);
  for (long j = 0; j < n; ++j)
    for (long i = 0; i < n; ++i) A(i, j) = g_a[i + j * n] = any("a");
  il::Status status{};
  // moved: the spare capacity is kept
  const bool move = vp_flag("move");
  il::Eigen<il::Array2D<double>> e = move ? il::Eigen<il::Array2D<double>>{std::move(A), il::io, status} : il::Eigen<il::Array2D<double>>{A, il::io, status};
  const bool ok = status.Ok();
  vp_assert(ok == (g_info == 0), "an error is reported if and only if the iterations do not converge");
  if (ok) {
    il::Array<cd> v = e.eigenValue();
    vp_assert(v.size() == n, "there are as many eigenvalues as rows");
    bool same = true;
    for (long i = 0; i < n; ++i) same = same & (v[i].real() == g_re[i]) & (v[i].imag() == g_im[i]);
    vp_assert(same, "the eigenvalues are those found");
    vp_cover("eigenvalues");
  } else {
    vp_assert(status.error() == il::Error::MatrixEigenValueNoConvergence, "the error tells that there is no convergence");
    vp_cover("no convergence");
  }
  if (move) return;
  bool kept = true;
  for (long j = 0; j < n; ++j)
    for (long i = 0; i < n; ++i) kept = kept & (A(i, j) == g_a[i + j * n]);
  vp_assert(kept, "the matrix of the user is kept");
}
static double g_d[N], g_e[N];
static void bidiagonal(long n, double* d, double* e) {
  for (long i = 0; i < n; ++i) d[i] = g_d[i] = any("d");
  for (long i = 0; i + 1 < n; ++i) e[i] = g_e[i] = any("e");
  g_step = 1;
}
static int singular(char uplo, long n, long ncvt, long nru, long ncc, double* d, double* e) {
  vp_assert(g_step == 1 && uplo == 'U' && n == g_n && ncvt == 0 && nru == 0 && ncc == 0, "the singular values of the whole matrix are computed");
  bool ok = true;
  for (long i = 0; i < n; ++i) ok = ok & (d[i] == g_d[i]);
  for (long i = 0; i + 1 < n; ++i) ok = ok & (e[i] == g_e[i]);
  vp_assert(ok, "the reduced matrix is used");
  for (long i = 0; i < n; ++i) d[i] = g_d[i] = any("value");
  g_step = 2;
  return g_info = (int)vp_int("info", 0, n);
}
extern "C" lapack_int LAPACKE_dgebrd(int layout, lapack_int m, lapack_int n, double* a, lapack_int lda, double* d, double* e, double* tauq, double* taup) {
  vp_assert(layout == LAPACK_COL_MAJOR && n == g_n && m == n && lda == n, "the whole matrix is reduced");
  bool ok = true;
  for (long i = 0; i < n * n; ++i) ok = ok & (a[i] == g_a[i]);
  vp_assert(ok, "LAPACK is given the matrix");
  for (long i = 0; i < n * n; ++i) a[i] = 0.0;
  for (long i = 0; i < n; ++i) tauq[i] = taup[i] = 0.0;
  bidiagonal(n, d, e);
  return 0;
}
extern "C" lapack_int LAPACKE_zgebrd(int layout, lapack_int m, lapack_int n, lapack_complex_double* a_, lapack_int lda, double* d, double* e, lapack_complex_double* tauq, lapack_complex_double* taup) {
  cd* a = (cd*)a_;
  vp_assert(layout == LAPACK_COL_MAJOR && n == g_n && m == n && lda == n, "the whole matrix is reduced");
  bool ok = true;
  for (long i = 0; i < n * n; ++i) ok = ok & (a[i].real() == g_za[i].real()) & (a[i].imag() == g_za[i].imag());
  vp_assert(ok, "LAPACK is given the matrix");
  for (long i = 0; i < n * n; ++i) a[i] = cd{0.0, 0.0};
  for (long i = 0; i < n; ++i) ((cd*)tauq)[i] = ((cd*)taup)[i] = cd{0.0, 0.0};
  bidiagonal(n, d, e);
  return 0;
}
extern "C" lapack_int LAPACKE_dbdsqr(int, char uplo, lapack_int n, lapack_int ncvt, lapack_int nru, lapack_int ncc, double* d, double* e, double*, lapack_int, double*, lapack_int, double*, lapack_int) {
  return singular(uplo, n, ncvt, nru, ncc, d, e);
}
extern "C" lapack_int LAPACKE_zbdsqr(int, char uplo, lapack_int n, lapack_int ncvt, lapack_int nru, lapack_int ncc, double* d, double* e, lapack_complex_double*, lapack_int, lapack_complex_double*, lapack_int, lapack_complex_double*, lapack_int) {
  return singular(uplo, n, ncvt, nru, ncc, d, e);
}
template <long n, typename T, typename F>
static void singularValues(F set) {
  g_n = n;
  g_step = 0;
  il::StaticArray2D<T, n, n> A{};
  for (long j = 0; j < n; ++j)
    for (long i = 0; i < n; ++i) set(A(i, j), i + j * n);
  il::Status status{};
  il::StaticArray<double, n> s = il::singularValues(A, il::io, status);
  const bool ok = status.Ok();
  vp_assert(g_step == 2 && ok == (g_info == 0), "an error is reported if and only if the iterations do not converge");
  if (ok) {
    bool same = true;
    for (long i = 0; i < n; ++i) same = same & (s[i] == g_d[i]);
    vp_assert(same, "the singular values are those found");
    vp_cover("singular values");
  } else vp_cover("no convergence");
}
static void setR(double& x, long k) { x = g_a[k] = any("a"); }
static void setZ(cd& x, long k) { const double re = any("re"), im = any("im"); x = g_za[k] = cd{re, im}; }
VP_ENTRY(L06_singular) {
  switch (vp_pick("kind", 0, 5)) {
    case 0: singularValues<1, double>(setR); break;
    case 1: singularValues<2, double>(setR); break;
    case 2: singularValues<3, double>(setR); break;
    case 3: singularValues<1, cd>(setZ); break;
    case 4: singularValues<2, cd>(setZ); break;
    default: singularValues<3, cd>(setZ); break;
  }
}

// ------------------------------------------------------------------------ QR
static long g_m;
static double g_q[2 * N * N], g_t[2 * N];
static bool g_complex;
// numbers are pairs or not
template <typename T>
static int qr(int layout, lapack_int m, lapack_int n, T* a, lapack_int lda, T* tau) {
  const long c = g_complex ? 2 : 1;
  vp_assert(layout == LAPACK_COL_MAJOR && m == g_m && n == g_n && lda >= m && lda >= 1 && g_step == 0, "the whole matrix is decomposed");
  vp_assert(vp_bytes_left(a) >= (int64_t)sizeof(T) * (lda * (n - 1) + m), "the matrix has the size it is announced with");
  vp_assert(vp_bytes_left(tau) >= (int64_t)sizeof(T) * (m < n ? m : n), "there is memory for the reflectors");
  double *p = (double*)a, *t = (double*)tau;
  bool ok = true;
  for (long j = 0; j < n; ++j)
    for (long i = 0; i < c * m; ++i) {
      ok = ok & (p[i + c * j * lda] == g_q[i + c * j * m]);
      p[i + c * j * lda] = g_q[i + c * j * m] = any("qr");
    }
  vp_assert(ok, "LAPACK is given the matrix");
  for (long i = 0; i < c * (m < n ? m : n); ++i) t[i] = g_t[i] = any("tau");
  g_step = 1;
  return 0;
}
extern "C" lapack_int LAPACKE_dgeqrf(int layout, lapack_int m, lapack_int n, double* a, lapack_int lda, double* tau) { return qr(layout, m, n, a, lda, tau); }
extern "C" lapack_int LAPACKE_zgeqrf(int layout, lapack_int m, lapack_int n, lapack_complex_double* a, lapack_int lda, lapack_complex_double* tau) { return qr(layout, m, n, (cd*)a, lda, (cd*)tau); }
static bool same(double a, const double* b) { return a == b[0]; }
static bool same(const cd& a, const double* b) { return (a.real() == b[0]) & (a.imag() == b[1]); }
static void some(double& a) { a = any("a"); }
static void some(cd& a) { const double re = any("re"), im = any("im"); a = cd{re, im}; }
static void keep(const double& a, double* b) { b[0] = a; }
static void keep(const cd& a, double* b) { b[0] = a.real(); b[1] = a.imag(); }
template <typename T>
static void qrOf() {
  g_step = 0;
  const long c = g_complex ? 2 : 1;
  const long m = g_m = vp_pick("m", 1, N), n = g_n = vp_pick("n", 1, N), k = m < n ? m : n;
  const long i0 = vp_pick("i0", 0, 1), i1 = vp_pick("i1", 0, 1), j0 = vp_pick("j0", 0, 1), spare = vp_pick("spare", 0, 1);
  il::Array2D<T> A{i0 + m + i1, j0 + n + 1};
  if (spare) A.Reserve(A.size(0) + 1, A.size(1));
  for (long j = 0; j < A.size(1); ++j)
    for (long i = 0; i < A.size(0); ++i) some(A(i, j));
  il::Array2D<T> B = A;
  for (long j = 0; j < n; ++j)
    for (long i = 0; i < m; ++i) keep(A(i0 + i, j0 + j), g_q + c * (i + j * m));
  il::Array<T> tau{k};
  il::qrDecomposition(il::io, tau.Edit(), A.Edit(il::Range{i0, i0 + m}, il::Range{j0, j0 + n}));
  vp_assert(g_step == 1, "the matrix is decomposed");
  bool ok = true;
  for (long j = 0; j < A.size(1); ++j)
    for (long i = 0; i < A.size(0); ++i) {
      double o[2];
      keep(B(i, j), o);
      const bool in = i >= i0 && i < i0 + m && j >= j0 && j < j0 + n;
      ok = ok & same(A(i, j), in ? g_q + c * (i - i0 + (j - j0) * m) : o);
    }
  for (long i = 0; i < k; ++i) ok = ok & same(tau[i], g_t + c * i);
  vp_assert(ok, "the decomposition is returned in place, and nothing else changes");
  vp_cover("decomposed");
}
VP_ENTRY(L06_qr) {
  g_complex = vp_flag("complex");
  if (g_complex) qrOf<cd>(); else qrOf<double>();
}
