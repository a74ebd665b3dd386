// Iterative solvers: they do what the iteration asks for, and stop when they should.
// vp: variants debug ndebug
// vp: flags linalg cxlr
// bound: systems of 1 and 2 equations; every schedule of up to 4 (5 thorough; 3 and 4 with ILU; 5 and 6 for Cg) requests of MKL's iterations (products, preconditioner, tests, norms; vectors at any place of the work array), with and without preconditioner, 1 to 3 iterations at most; two systems one after the other by one solver (schedules of up to 2 requests for each, 3 for Cg); the elements of matrices and vectors are any integers of absolute value up to 3 (exact arithmetic), their norms one of 2 and 3 values, the precision 0, 1/2 or 1
#include "vp.h"
#include <il/Array.h>
#include <il/SparseMatrixCSR.h>
#include <mkl.h>
#include <mkl_rci.h>
#include <il/Status.h>
#include <il/linearAlgebra/matrixFree/solver/Cg.h>
#include <il/linearAlgebra/matrixFree/solver/Gmres.h>
#include <il/linearAlgebra/sparse/factorization/GmresIlu0.h>
#include <utility>

#ifdef VP_DEEP
static const int kSteps = 5;
#else
static const int kSteps = 4;
#endif
static const long N = 2;
static double any(const char* n) { return vp_dint(n, -3, 3); }

// The system, the preconditioner and the iteration, which is a sequence of requests
static long n;
static double a[N][N], y[N];
static double f[N][N];   // the preconditioner: any matrix (Gmres, Cg) or the factors of ILU
static bool ilu;
static bool pre;         // is there a preconditioner?
static double s[N], r[N];// the current approximation and its residual
static double normY, normR;
static long iteration, maxIteration, request, steps;
static const double* asked;
static double* wanted;
static double input[N];
static bool done, breakdowns, atEnd;
static long limit = kSteps;  // requests of an iteration
static bool fromZero;        // is the initial value 0?
static void initial(const double* x) {
  vp_need(x, 8 * n);
  fromZero = true;
  for (long i = 0; i < n; ++i) fromZero = fromZero & (x[i] == 0.0);
}

static void multiply(const double (*m)[N], const double* u, double* v) {
  for (long i = 0; i < n; ++i) {
    v[i] = 0.0;
    for (long j = 0; j < n; ++j) v[i] = v[i] + m[i][j] * u[j];
  }
}
// A new approximation; the norm of its residual is any of a few values
static void approximate() {
  double p[N];
  for (long i = 0; i < n; ++i) s[i] = any("s");
  multiply(a, s, p);
  for (long i = 0; i < n; ++i) r[i] = p[i] - y[i];
  const long k = vp_pick("residual", 0, 2);
  normR = (double)(k + k / 2);
}
// has the last request been served?
static void served() {
  if (request == 1) {
    double e[N];
    multiply(a, input, e);
    for (long i = 0; i < n; ++i) vp_assert(wanted[i] == e[i], "the product with the matrix is computed where it is asked for");
  } else if (request == 3) {
    double e[N];
    if (!ilu) {
      multiply(f, input, e);
      for (long i = 0; i < n; ++i) vp_assert(wanted[i] == e[i], "the preconditioner is applied where it is asked for");
    } else {
      // L U v = u
      for (long i = n - 1; i >= 0; --i) {
        e[i] = 0.0;
        for (long j = i; j < n; ++j) e[i] = e[i] + f[i][j] * wanted[j];
      }
      for (long i = n - 1; i >= 0; --i) {
        for (long j = 0; j < i; ++j) e[i] = e[i] + f[i][j] * e[j];
        vp_assert(e[i] == input[i], "the preconditioner is applied where it is asked for");
      }
    }
  }
}
static void ask(double* from, double* to) {
  for (long i = 0; i < n; ++i) {
    from[i] = input[i] = any("u");
    to[i] = any("v");
  }
  asked = from;
  wanted = to;
}
static int equal(const double* u, const double* v, double c) {
  bool e = true;
  for (long i = 0; i < n; ++i) e = e & (u[i] == c * v[i]);
  return (int)e;
}
extern "C" {
double dnrm2(const MKL_INT* m, const double* x, const MKL_INT* inc) {
  vp_assert(*m == n && *inc == 1, "the norm of a whole vector");
  if (vp_valid(equal(x, r, 1.0)) || vp_valid(equal(x, r, -1.0))) return normR;
  vp_assert(equal(x, y, 1.0), "norms are those of the right-hand side and of the residual of the current approximation");
  return normY;
}
double cblas_dnrm2(const MKL_INT m, const double* x, const MKL_INT inc) { return dnrm2(&m, x, &inc); }
void daxpy(const MKL_INT* m, const double* al, const double* x, const MKL_INT* ix, double* z, const MKL_INT* iz) {
  vp_assert(*m == n && *ix == 1 && *iz == 1, "the sum of whole vectors");
  for (long i = 0; i < n; ++i) z[i] = z[i] + *al * x[i];
}

// ------------------------------------------------------------------- fgmres
static long gmresTmp(const MKL_INT* ipar) { return (2 * (long)ipar[14] + 1) * n + (long)ipar[14] * (ipar[14] + 9) / 2 + 1; }
void dfgmres_init(const MKL_INT* m, const double*, const double*, MKL_INT* rci, MKL_INT* ipar, double* dpar, double*) {
  vp_assert(*m == n, "the iteration has the size of the system");
  static const int d[23] = {0, 6, 1, 0, 0, 1, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
  for (int i = 0; i < 128; ++i) { ipar[i] = i < 23 ? d[i] : 0; dpar[i] = 0.0; }
  ipar[0] = (int)n;
  ipar[4] = ipar[14] = (int)n;
  dpar[0] = 1.0e-6;
  dpar[7] = 1.0e-12;
  iteration = request = steps = 0;
  done = atEnd = false;
  *rci = 0;
}
void dfgmres_check(const MKL_INT* m, const double* x, const double*, MKL_INT* rci, MKL_INT* ipar, double*, double* tmp) {
  vp_assert(*m == n && ipar[0] == n && ipar[14] >= 1 && ipar[4] >= 0, "the parameters of the iteration are valid");
  vp_assert(vp_bytes_left(tmp) >= (int64_t)sizeof(double) * gmresTmp(ipar), "the work array has the size the iteration needs");
  if (maxIteration < 0) maxIteration = ipar[4];
  vp_assert(ipar[4] == maxIteration, "the iteration knows the number of iterations asked for");
  vp_assert((ipar[10] != 0) == pre, "the iteration knows whether there is a preconditioner");
  initial(x);
  *rci = 0;
}
void dfgmres(const MKL_INT* m, double* x, double* b, MKL_INT* rci, MKL_INT* ipar, double* dpar, double* tmp) {
  vp_assert(*m == n && !done, "an iteration that is over is not continued");
  served();
  // the right-hand side is never changed
  bool same = true;
  for (long i = 0; i < n; ++i) same = same & (b[i] == y[i]);
  vp_assert(same, "the iteration is given the right-hand side");
  if (request == 2) {
    if (iteration == maxIteration) { done = atEnd = true; request = 0; *rci = 0; return; }
    ++iteration;
    ipar[3] = (int)iteration;
  }
  vp_assume(steps < limit - (ilu ? 1 : 0));
  ++steps;
  request = vp_pick("request", breakdowns ? -1 : 0, 4);
  if (request <= 0) {
    // the limit of iterations is found in the middle of one; or the iteration breaks down
    if (request == 0) { vp_assume(iteration == maxIteration); atEnd = true; approximate(); }
    else { request = -10; approximate(); }
    done = true;
    *rci = (int)request;
    return;
  }
  vp_assume(request != 3 || pre);
  if (request == 1 || request == 3) {
    const long from = vp_pick("from", 0, 1), to = 3 - from;
    if (ipar[14] >= 2) {
      ipar[21] = (int)(1 + from * n);
      ipar[22] = (int)(1 + to * n);
    } else {
      ipar[21] = 1;
      ipar[22] = (int)(1 + n);
    }
    ask(tmp + ipar[21] - 1, tmp + ipar[22] - 1);
  }
  if (request == 2) approximate();
  if (request == 4) {
    dpar[6] = (double)vp_pick("next", 0, 1);
    // a vector without length: the approximation can not be improved
    if (dpar[6] == 0.0) approximate();
  }
  *rci = (int)request;
}
void dfgmres_get(const MKL_INT* m, double* x, double* b, MKL_INT* rci, const MKL_INT* ipar, const double*, double*, MKL_INT* it) {
  vp_assert(*m == n, "the iteration has the size of the system");
  *it = (int)iteration;
  *rci = 0;
  if (ipar[12] < 0) return;
  for (long i = 0; i < n; ++i) (ipar[12] == 0 ? x : b)[i] = s[i];
}
// --------------------------------------------------------------------- ilu0
static double b_alu[N * N];
static const double* g_alu;
static long g_nnz;
static const double* g_a;
static void fortran(const MKL_INT* m, const MKL_INT* ia, const MKL_INT* ja) {
  vp_assert(*m == n && ia[0] == 1 && ia[n] == 1 + g_nnz, "rows are numbered from 1");
  for (long i = 0; i < n; ++i)
    for (long k = ia[i] - 1; k < ia[i + 1] - 1; ++k) vp_assert(ja[k] >= 1 && ja[k] <= n, "columns are numbered from 1");
}
void dcsrilu0(const MKL_INT* m, const double* v, const MKL_INT* ia, const MKL_INT* ja, double* alu, const MKL_INT*, const double*, MKL_INT* error) {
  fortran(m, ia, ja);
  vp_assert(vp_bytes_left(alu) >= (int64_t)sizeof(double) * g_nnz, "there is memory for the factors");
  for (long i = 0; i < n; ++i)
    for (long k = ia[i] - 1; k < ia[i + 1] - 1; ++k) {
      const long j = ja[k] - 1;
      vp_assert(v[k] == a[i][j], "the matrix is factorized");
      alu[k] = f[i][j] = i == j ? 1.0 - 2.0 * vp_pick("pivot", 0, 1) : any("lu");
    }
  g_alu = alu;
  *error = 0;
}
void mkl_dcsrgemv(const char* t, const MKL_INT* m, const double* v, const MKL_INT* ia, const MKL_INT* ja, const double* x, double* z) {
  fortran(m, ia, ja);
  for (long i = 0; i < n; ++i) {
    double q = 0.0;
    for (long k = ia[i] - 1; k < ia[i + 1] - 1; ++k) q = q + v[k] * (*t == 'N' || *t == 'n' ? x[ja[k] - 1] : 0.0);
    z[i] = q;
  }
  vp_assert(*t == 'N' || *t == 'n', "the product is not that of the transposed matrix");
}
void mkl_dcsrtrsv(const char* uplo, const char* t, const char* diag, const MKL_INT* m, const double* v, const MKL_INT* ia, const MKL_INT* ja, const double* x, double* z) {
  fortran(m, ia, ja);
  vp_assert(*t == 'N' || *t == 'n', "the product is not that of the transposed matrix");
  const bool lower = *uplo == 'L' || *uplo == 'l', unit = *diag == 'U' || *diag == 'u';
  for (long p = 0; p < n; ++p) {
    const long i = lower ? p : n - 1 - p;
    double q = x[i], d = 1.0;
    for (long k = ia[i] - 1; k < ia[i + 1] - 1; ++k) {
      const long j = ja[k] - 1;
      if (j == i) d = unit ? 1.0 : v[k];
      else if ((j < i) == lower) q = q - v[k] * z[j];
    }
    // the pivots are 1 and -1
    z[i] = q * d;
  }
}
// ----------------------------------------------------------------------- cg
static double d0, d4;
void dcg_init(const MKL_INT* m, const double*, const double*, MKL_INT* rci, MKL_INT* ipar, double* dpar, double*) {
  vp_assert(*m == n, "the iteration has the size of the system");
  static const int d[11] = {0, 6, 1, 0, 0, 1, 1, 1, 0, 1, 0};
  for (int i = 0; i < 128; ++i) { ipar[i] = i < 11 ? d[i] : 0; dpar[i] = 0.0; }
  ipar[0] = (int)n;
  ipar[4] = (int)n;
  dpar[0] = 1.0e-6;
  iteration = -1;
  request = steps = 0;
  done = false;
  *rci = 0;
}
void dcg_check(const MKL_INT* m, const double* x, const double* b, MKL_INT* rci, MKL_INT* ipar, double*, double* tmp) {
  vp_assert(*m == n && ipar[0] == n, "the parameters of the iteration are valid");
  vp_assert(ipar[7] == 0 || ipar[4] >= maxIteration, "the iteration does not stop before the number of iterations asked for");
  vp_assert(ipar[8] == 0 && ipar[9] != 0, "the precision is tested by the library");
  vp_assert((ipar[10] != 0) == pre, "the iteration knows whether there is a preconditioner");
  vp_assert(vp_bytes_left(tmp) >= (int64_t)sizeof(double) * (pre ? 4 : 3) * n, "the work array has the size the iteration needs");
  bool same = true;
  for (long i = 0; i < n; ++i) same = same & (b[i] == y[i]);
  vp_assert(same, "the iteration is given the right-hand side");
  initial(x);
  *rci = 0;
}
void dcg(const MKL_INT* m, double* x, const double* b, MKL_INT* rci, MKL_INT* ipar, double* dpar, double* tmp) {
  vp_assert(*m == n && !done, "an iteration that is over is not continued");
  served();
  bool same = true;
  for (long i = 0; i < n; ++i) same = same & (b[i] == y[i]);
  vp_assert(same, "the iteration is given the right-hand side");
  vp_assume(steps < limit + 1);
  ++steps;
  request = vp_pick("request", 1, 3);
  vp_assume(request != 3 || pre);
  if (request == 1) ask(tmp, tmp + n);
  if (request == 3) ask(tmp + 2 * n, tmp + 3 * n);
  if (request == 2) {
    ++iteration;
    ipar[3] = (int)iteration;
    for (long i = 0; i < n; ++i) x[i] = s[i] = any("s");
    if (iteration == 0) d0 = (double)vp_pick("norm", 0, 2);
    d4 = iteration == 0 ? d0 : (double)vp_pick("norm", 0, 2);
    dpar[2] = d0 * d0;
    dpar[4] = d4 * d4;
  }
  *rci = (int)request;
}
void dcg_get(const MKL_INT* m, const double*, const double*, const MKL_INT*, const MKL_INT*, const double*, const double*, MKL_INT* it) {
  vp_assert(*m == n, "the iteration has the size of the system");
  *it = (int)iteration;
}
}

struct Op : public il::FunctorArray<double> {
  const double (*m_)[N];
  Op(const double (*m)[N]) : m_{m} {}
  il::int_t size(il::int_t) const override { return n; }
  void operator()(il::ArrayView<double> u, il::io_t, il::ArrayEdit<double> v) const override {
    vp_assert(u.size() == n && v.size() == n, "operators are applied to vectors of their size");
    double w[N], q[N];
    for (long i = 0; i < n; ++i) w[i] = u[i];
    multiply(m_, w, q);
    for (long i = 0; i < n; ++i) v[i] = q[i];
  }
};
static void setUp(long most) {
  n = vp_pick("n", 1, most);
  normY = (double)vp_pick("norm", 0, 1) * 2;
  for (long i = 0; i < n; ++i) {
    y[i] = any("y");
    for (long j = 0; j < n; ++j) { a[i][j] = any("a"); f[i][j] = any("f"); }
  }
}
static double precision() { return 0.5 * (double)vp_pick("precision", 0, 2); }
VP_ENTRY(L07_gmres) {
  setUp(N);
  breakdowns = true;
  pre = vp_flag("preconditioner");
  maxIteration = vp_pick("most", 1, 2);
  const long restart = pre ? maxIteration : 3 - maxIteration;
  const double rel = precision();
  Op A{a}, B{f};
  il::Array<double> b{n}, x{n, 0.0};
  for (long i = 0; i < n; ++i) b[i] = y[i];
  il::Gmres<double> solver = pre ? il::Gmres<double>{A, B, restart} : il::Gmres<double>{A, restart};
  il::Status status{};
  solver.Solve(b.view(), rel, maxIteration, il::io, x.Edit(), status);
  const bool ok = status.Ok();
  bool same = true;
  for (long i = 0; i < n; ++i) same = same & (x[i] == s[i]) & (b[i] == y[i]);
  vp_assert(same, "the approximation that is found is returned");
  vp_assert(solver.nbIterations() == iteration, "the number of iterations is that of the solver");
  const bool good = normR <= rel * normY;
  vp_assert(ok == good, "an error is reported if and only if the precision is not reached");
  if (ok) vp_cover("converged"); else vp_cover("not converged");
  if (!atEnd && ok) vp_cover("stopped before the end");
}
// one iteration at a time
VP_ENTRY(L07_gmres_next) {
  setUp(N);
  pre = vp_flag("preconditioner");
  maxIteration = 100;
  Op A{a}, B{f};
  il::Array<double> b{n};
  for (long i = 0; i < n; ++i) b[i] = y[i];
  il::Gmres<double> solver = pre ? il::Gmres<double>{A, B, 1} : il::Gmres<double>{A, 1};
  if (vp_flag("view")) solver.SetToSolve(b.view()); else solver.SetToSolve(b);
  vp_assert(solver.nbIterations() == 0 && solver.normResidual() == normY && fromZero, "the first residual is the right-hand side");
  const long times = vp_pick("times", 1, 2);
  for (long t = 0; t < times; ++t) {
    solver.Next();
    if (request != 2) return;
    vp_assert(solver.nbIterations() == iteration, "the number of iterations is that of the solver");
    vp_assert(iteration == t + 1, "there is one iteration at a time");
    vp_assert(solver.normResidual() == normR, "the norm of the residual is that of the current approximation");
    il::Array<double> x{n};
    if (vp_flag("edit")) solver.getSolution(il::io, x.Edit()); else solver.getSolution(il::io, x);
    bool same = true;
    for (long i = 0; i < n; ++i) same = same & (x[i] == s[i]) & (b[i] == y[i]);
    vp_assert(same, "the current approximation is returned");
    vp_cover("iteration");
  }
}
VP_ENTRY(L07_ilu) {
  n = vp_pick("n", 1, N);
  normY = (double)vp_pick("norm", 0, 1) * 2;
  ilu = pre = true;
  il::Array<int> row{n + 1}, column{};
  row[0] = 0;
  g_nnz = 0;
  for (long i = 0; i < n; ++i) {
    y[i] = any("y");
    for (long j = 0; j < n; ++j) {
      const bool in = i == j || vp_flag("entry");
      a[i][j] = in ? any("a") : 0.0;
      f[i][j] = 0.0;
      if (in) { column.Append((int)j); ++g_nnz; }
    }
    row[i + 1] = (int)g_nnz;
  }
  il::Array<int> row0 = row, column0 = column;
  il::SparseMatrixCSR<int, double> A{n, n, std::move(column), std::move(row)};
  for (long i = 0; i < n; ++i)
    for (long p = row0[i]; p < row0[i + 1]; ++p) A[p] = a[i][column0[p]];
  maxIteration = vp_pick("most", 1, 2);
  const double rel = precision();
  const bool set = vp_flag("set");
  const long restart = set ? 2 : 1;
  il::GmresIlu0 solver = set ? il::GmresIlu0{} : il::GmresIlu0{rel, (int)maxIteration, (int)restart};
  if (set) {
    solver.setRelativePrecision(rel);
    solver.setMaxNbIteration(maxIteration);
    solver.setRestartIteration(restart);
  }
  il::Array<double> b{n};
  for (long i = 0; i < n; ++i) b[i] = y[i];
  solver.computePreconditionner(il::io, A);
  const long before = vp_pick("systems before", 0, 1);
  if (before) {
    limit = 2;
    (void)solver.solve(b, il::io, A);
    for (long i = 0; i < n; ++i) b[i] = y[i] = any("y");
  }
  il::Array<double> x = solver.solve(b, il::io, A);
  vp_assert(x.size() == n && solver.nbIterations() == iteration, "the number of iterations is that of the solver");
  bool same = true;
  for (long i = 0; i < n; ++i) same = same & (x[i] == s[i]) & (b[i] == y[i]);
  vp_assert(same, "the approximation that is found is returned");
  // the iteration is only left at its end, or with the precision
  if (!atEnd && request != 4) { vp_assert(normR <= rel * normY, "the solver stops when the precision is reached"); vp_cover("converged"); }
  if (atEnd) vp_cover("all iterations");
  bool kept = A.nbNonZeros() == g_nnz;
  for (long i = 0; i <= n; ++i) kept = kept & (A.rowData()[i] == row0[i]);
  for (long i = 0; i < n; ++i)
    for (long p = row0[i]; p < row0[i + 1]; ++p) kept = kept & (A.columnData()[p] == column0[p]) & (A[p] == a[i][column0[p]]);
  vp_assert(kept, "the matrix is given back as it was");
}
VP_ENTRY(L07_cg) {
  setUp(N);
  pre = vp_flag("preconditioner");
  maxIteration = vp_pick("most", 0, 2);
  const double rel = precision(), abs = (double)vp_pick("absolute", 0, 1);
  Op A{a}, B{f};
  il::Array<double> b{n};
  for (long i = 0; i < n; ++i) b[i] = y[i];
  il::Cg<double> solver = pre ? il::Cg<double>{A, B} : il::Cg<double>{A};
  solver.SetRelativePrecision(rel);
  solver.SetAbsolutionPrecision(abs);
  solver.SetMaxNbIterations(maxIteration);
  vp_assert(solver.relativePrecision() == rel && solver.absolutePrecision() == abs && solver.maxNbIterations() == maxIteration, "the parameters are those that were set");
  il::Status status{};
  il::Array<double> x = solver.Solve(b, il::io, status);
  const bool ok = status.Ok();
  bool same = x.size() == n;
  for (long i = 0; i < n; ++i) same = same & (x[i] == s[i]) & (b[i] == y[i]);
  vp_assert(same, "the approximation that is found is returned");
  vp_assert(solver.nbIterations() == iteration && iteration <= maxIteration, "there are not more iterations than asked for");
  vp_assert(ok == (d4 <= rel * d0 + abs), "an error is reported if and only if the precision is not reached");
  vp_assert(ok || iteration == maxIteration, "the solver stops when the precision is reached or after the number of iterations asked for");
  if (ok) vp_assert(solver.trueResidualNorm() == d4, "the norm of the residual is that of the solution");
  if (ok) vp_cover("converged"); else vp_cover("not converged");
}
VP_ENTRY(L07_cg_next) {
  setUp(N);
  pre = vp_flag("preconditioner");
  Op A{a}, B{f};
  il::Array<double> b{n};
  for (long i = 0; i < n; ++i) b[i] = y[i];
  il::Cg<double> solver = pre ? il::Cg<double>{A, B} : il::Cg<double>{A};
  solver.SetToSolve(b.view());
  vp_assert(solver.nbIterations() == 0 && solver.trueResidualNorm() == normY && fromZero, "the first residual is the right-hand side");
  const long times = vp_pick("times", 1, 2);
  for (long t = 0; t < times; ++t) {
    solver.Next();
    vp_assert(iteration == t + 1 && solver.nbIterations() == iteration, "there is one iteration at a time");
    vp_assert(solver.trueResidualNorm() == d4, "the norm of the residual is that of the current approximation");
    il::Array<double> x{n};
    solver.getSolution(il::io, x.Edit());
    bool same = true;
    for (long i = 0; i < n; ++i) same = same & (x[i] == s[i]) & (b[i] == y[i]);
    vp_assert(same, "the current approximation is returned");
    vp_cover("iteration");
  }
}
// A solver is used for a second system
static void another() {
  normY = (double)vp_pick("norm", 0, 1) * 2;
  for (long i = 0; i < n; ++i) y[i] = any("y");
}
VP_ENTRY(L07_gmres_again) {
  setUp(N);
  pre = vp_flag("preconditioner");
  limit = 2;
  Op A{a}, B{f};
  il::Gmres<double> solver = pre ? il::Gmres<double>{A, B, 1} : il::Gmres<double>{A, 2};
  for (int k = 0; k < 2; ++k) {
    if (k) another();
    const bool step = vp_flag("step");
    maxIteration = step ? -1 : 1;
    il::Array<double> b{n}, x{n, 1.0};
    for (long i = 0; i < n; ++i) b[i] = y[i];
    if (step) {
      solver.SetToSolve(b);
      vp_assert(solver.nbIterations() == 0 && solver.normResidual() == normY && fromZero, "the first residual is the right-hand side");
      solver.Next();
      if (request != 2) return;
      vp_assert(solver.normResidual() == normR, "the norm of the residual is that of the current approximation");
      solver.getSolution(il::io, x);
    } else {
      const double rel = k ? precision() : 0.5;
      il::Status status{};
      solver.Solve(b.view(), rel, maxIteration, il::io, x.Edit(), status);
      vp_assert(status.Ok() == (normR <= rel * normY), "an error is reported if and only if the precision is not reached");
    }
    vp_assert(solver.nbIterations() == iteration, "the number of iterations is that of the solver");
    bool same = true;
    for (long i = 0; i < n; ++i) same = same & (x[i] == s[i]) & (b[i] == y[i]);
    vp_assert(same, "the approximation that is found is returned");
    if (k) vp_cover("second system");
  }
}
VP_ENTRY(L07_cg_again) {
  setUp(N);
  pre = vp_flag("preconditioner");
  limit = 2;
  Op A{a}, B{f};
  il::Cg<double> solver = pre ? il::Cg<double>{A, B} : il::Cg<double>{A};
  for (int k = 0; k < 2; ++k) {
    if (k) another();
    const bool step = vp_flag("step");
    maxIteration = 1;
    il::Array<double> b{n}, x{};
    for (long i = 0; i < n; ++i) b[i] = y[i];
    if (step) {
      solver.SetToSolve(b.view());
      vp_assert(solver.nbIterations() == 0 && solver.trueResidualNorm() == normY && fromZero, "the first residual is the right-hand side");
      solver.Next();
      vp_assert(solver.trueResidualNorm() == d4, "the norm of the residual is that of the current approximation");
      x.Resize(n);
      solver.getSolution(il::io, x.Edit());
    } else {
      const double rel = k ? precision() : 0.5, abs = k ? 0.0 : 1.0;
      solver.SetRelativePrecision(rel);
      solver.SetAbsolutionPrecision(abs);
      solver.SetMaxNbIterations(maxIteration);
      il::Status status{};
      x = solver.Solve(b, il::io, status);
      const bool ok = status.Ok();
      vp_assert(ok == (d4 <= rel * d0 + abs), "an error is reported if and only if the precision is not reached");
      if (ok) vp_assert(solver.trueResidualNorm() == d4, "the norm of the residual is that of the solution");
    }
    vp_assert(solver.nbIterations() == iteration, "the number of iterations is that of the solver");
    bool same = x.size() == n;
    for (long i = 0; i < n; ++i) same = same & (x[i] == s[i]) & (b[i] == y[i]);
    vp_assert(same, "the approximation that is found is returned");
    if (k) vp_cover("second system");
  }
}
