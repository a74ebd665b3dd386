// Reference models of the BLAS and LAPACK functions the library calls, used by
// the engine and by the replays.  The BLAS functions compute by definition.  The
// LAPACK functions are modelled by their contract: their outputs are arbitrary
// values that satisfy the equations the documentation gives.  Parameters that
// the real libraries reject (they print a message and compute nothing) are
// reported as failures.
#include "vp.h"
#include <mkl_cblas.h>
#include <mkl_lapacke.h>
#include <mkl_spblas.h>
#include <mkl_service.h>

namespace {
template <typename T>
struct Z { T re, im; };
template <typename T> T one(T) { return T(1); }
template <typename T> T conj_(T x) { return x; }
template <typename T> Z<T> conj_(Z<T> x) { Z<T> r = {x.re, -x.im}; return r; }
template <typename T> T mul(T a, T b) { return a * b; }
template <typename T> Z<T> mul(Z<T> a, Z<T> b) { Z<T> r = {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; return r; }
template <typename T> T add(T a, T b) { return a + b; }
template <typename T> Z<T> add(Z<T> a, Z<T> b) { Z<T> r = {a.re + b.re, a.im + b.im}; return r; }
template <typename T> bool zero(T a) { return a == 0; }
template <typename T> bool zero(Z<T> a) { return a.re == 0 && a.im == 0; }
template <typename T> T nul(const T*) { return T(0); }
template <typename T> Z<T> nul(const Z<T>*) { Z<T> r = {0, 0}; return r; }

void bad(bool c, const char* msg) { if (c) vp_fail(msg); }
long pos(CBLAS_LAYOUT l, long i, long j, long ld) { return l == CblasColMajor ? i + j * ld : i * ld + j; }
// element (i, j) of op(A)
template <typename T>
T el(CBLAS_LAYOUT l, CBLAS_TRANSPOSE t, const T* a, long ld, long i, long j) {
  if (t == CblasNoTrans) return a[pos(l, i, j, ld)];
  const T x = a[pos(l, j, i, ld)];
  return t == CblasConjTrans ? conj_(x) : x;
}
void checkLd(CBLAS_LAYOUT l, long rows, long cols, long ld) {
  const long n = l == CblasColMajor ? rows : cols;
  bad(ld < (n > 1 ? n : 1), "BLAS rejects the leading dimension: it prints a message and computes nothing");
}
template <typename T>
void axpby(long n, T alpha, const T* x, long ix, T beta, bool useBeta, T* y, long iy) {
  bad(ix != 1 || iy != 1, "the model of BLAS only knows increments of 1");
  for (long i = 0; i < n; ++i) {
    if (!useBeta) y[i] = add(mul(alpha, x[i]), y[i]);
    else if (zero(beta)) y[i] = mul(alpha, x[i]);
    else y[i] = add(mul(alpha, x[i]), mul(beta, y[i]));
  }
}
template <typename T>
T dotp(long n, const T* x, long ix, const T* y, long iy, bool c) {
  bad(ix != 1 || iy != 1, "the model of BLAS only knows increments of 1");
  T s = nul(x);
  for (long i = 0; i < n; ++i) s = add(s, mul(c ? conj_(x[i]) : x[i], y[i]));
  return s;
}
template <typename T>
void gemm(CBLAS_LAYOUT l, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, long m, long n, long k, T alpha, const T* a, long lda, const T* b, long ldb, T beta, T* c, long ldc) {
  bad(m < 0 || n < 0 || k < 0, "BLAS rejects a negative dimension");
  if (ta == CblasNoTrans) checkLd(l, m, k, lda); else checkLd(l, k, m, lda);
  if (tb == CblasNoTrans) checkLd(l, k, n, ldb); else checkLd(l, n, k, ldb);
  checkLd(l, m, n, ldc);
  const bool z = zero(beta);
  for (long j = 0; j < n; ++j)
    for (long i = 0; i < m; ++i) {
      T s = nul(a);
      for (long p = 0; p < k; ++p) s = add(s, mul(el(l, ta, a, lda, i, p), el(l, tb, b, ldb, p, j)));
      s = mul(alpha, s);
      T& y = c[pos(l, i, j, ldc)];
      y = z ? s : add(s, mul(beta, y));
    }
}
template <typename T>
void gemv(CBLAS_LAYOUT l, CBLAS_TRANSPOSE t, long m, long n, T alpha, const T* a, long lda, const T* x, long ix, T beta, T* y, long iy) {
  bad(m < 0 || n < 0, "BLAS rejects a negative dimension");
  bad(ix != 1 || iy != 1, "the model of BLAS only knows increments of 1");
  checkLd(l, m, n, lda);
  if (m == 0 || n == 0) return;  // as the reference BLAS: y is not touched
  const long ny = t == CblasNoTrans ? m : n, nx = t == CblasNoTrans ? n : m;
  const bool z = zero(beta);
  for (long i = 0; i < ny; ++i) {
    T s = nul(a);
    for (long p = 0; p < nx; ++p) s = add(s, mul(el(l, t, a, lda, i, p), x[p]));
    s = mul(alpha, s);
    y[i] = z ? s : add(s, mul(beta, y[i]));
  }
}
typedef Z<float> zf;
typedef Z<double> zd;
template <typename T> const T& R(const void* p) { return *static_cast<const T*>(p); }
template <typename T> const T* P(const void* p) { return static_cast<const T*>(p); }
template <typename T> T* W(void* p) { return static_cast<T*>(p); }

// An arbitrary number in the exact domain of the engine.
const long kBig = 4000;
double any(const double*) { return vp_dint("lapack", -kBig, kBig); }
zd any(const zd*) { zd r; r.re = vp_dint("lapack", -kBig, kBig); r.im = vp_dint("lapack", -kBig, kBig); return r; }
bool eq(double a, double b) { return a == b; }
bool eq(zd a, zd b) { return (a.re == b.re) & (a.im == b.im); }
const long kN = 4;
void put(double* r, const double* v, long i) { *r = v[i]; }
void put(zd* r, const double* v, long i) { r->re = v[2 * i]; r->im = v[2 * i + 1]; }

// Results the harness knows: when one of them satisfies the equations, the model
// returns it rather than an arbitrary value that satisfies them.
struct Hint { const double* v; long n; const lapack_int* ipiv; };
Hint g_hint[4];
long g_hints = 0;
// x (n x m): a solution of the equations of ok
template <typename T, typename F>
void solution(T (&x)[kN][kN], long n, long m, const F& ok) {
  for (long h = 0; h < g_hints; ++h) {
    if (g_hint[h].n != n * m || g_hint[h].ipiv) continue;
    for (long i = 0; i < n; ++i) for (long j = 0; j < m; ++j) put(&x[i][j], g_hint[h].v, i + j * n);
    if (vp_valid(ok(x))) return;
  }
  for (long i = 0; i < n; ++i) for (long j = 0; j < m; ++j) x[i][j] = any(&x[0][0]);
  vp_assume(ok(x));
}
// op(T) X = B or X op(T) = B with a triangular matrix
template <typename T>
void trsm(CBLAS_LAYOUT l, CBLAS_SIDE side, CBLAS_UPLO uplo, CBLAS_TRANSPOSE t, CBLAS_DIAG diag, long m, long n, T alpha, const T* a, long lda, T* b, long ldb) {
  bad(m < 0 || n < 0, "BLAS rejects a negative dimension");
  const long k = side == CblasLeft ? m : n;
  checkLd(l, k, k, lda);
  checkLd(l, m, n, ldb);
  T tri[kN][kN], x[kN][kN];
  for (long i = 0; i < k; ++i)
    for (long j = 0; j < k; ++j) {
      tri[i][j] = nul(a);
      const bool in = uplo == CblasUpper ? i < j : i > j;
      if (in) tri[i][j] = a[pos(l, i, j, lda)];
      if (i == j) { if (diag == CblasUnit) { tri[i][j] = nul(a); tri[i][j] = add(tri[i][j], R<T>(&alpha)); } else tri[i][j] = a[pos(l, i, j, lda)]; }
    }
  for (long i = 0; i < k; ++i) for (long j = 0; j < k; ++j) vp_need(&tri[i][j], sizeof(T));
  for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) vp_need(&b[pos(l, i, j, ldb)], sizeof(T));
  solution(x, m, n, [&](T (&x)[kN][kN]) {
    bool ok = true;
    for (long i = 0; i < m; ++i)
      for (long j = 0; j < n; ++j) {
        T s = nul(a);
        for (long p = 0; p < k; ++p) {
          if (side == CblasLeft) { const T q = t == CblasNoTrans ? tri[i][p] : t == CblasTrans ? tri[p][i] : conj_(tri[p][i]); s = add(s, mul(q, x[p][j])); }
          else { const T q = t == CblasNoTrans ? tri[p][j] : t == CblasTrans ? tri[j][p] : conj_(tri[j][p]); s = add(s, mul(x[i][p], q)); }
        }
        ok = ok & eq(s, b[pos(l, i, j, ldb)]);  // alpha is 1, see below
      }
    return ok;
  });
  for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) b[pos(l, i, j, ldb)] = x[i][j];
}
template <typename T>
lapack_int laswp(int l, long n, T* a, long lda, long k1, long k2, const lapack_int* ipiv, long incx) {
  bad(l != LAPACK_COL_MAJOR, "the model of laswp only knows the column-major layout");
  bad(incx != 1 || k1 != 1, "the model of laswp only knows the whole of the permutation");
  bad(n > 0 && lda < k2, "LAPACK rejects the leading dimension");
  for (long i = k1 - 1; i < k2; ++i) {
    const long p = ipiv[i] - 1;
    bad(p < i, "laswp: a pivot out of range");
    if (p != i) for (long j = 0; j < n; ++j) { const T t = a[i + j * lda]; a[i + j * lda] = a[p + j * lda]; a[p + j * lda] = t; }
  }
  return 0;
}
void checkL(int l, long rows, long cols, long ld) { checkLd(l == LAPACK_COL_MAJOR ? CblasColMajor : CblasRowMajor, rows, cols, ld); }
long posL(int l, long i, long j, long ld) { return l == LAPACK_COL_MAJOR ? i + j * ld : i * ld + j; }

// 0 if the factorization succeeds, or the order of the singular block
long g_info = 0;
bool g_regular = false;
long info(long n) { return g_info = g_regular || vp_pick("lapack_info", 0, n > 0 ? 1 : 0) == 0 ? 0 : vp_int("lapack_rank", 1, n); }

// A X = B for a full matrix given element by element; X goes to B
template <typename T, typename F>
void linear(const F& A, long n, long nrhs, int l, T* b, long ldb) {
  T x[kN][kN];
  for (long i = 0; i < n; ++i) for (long j = 0; j < nrhs; ++j) vp_need(&b[posL(l, i, j, ldb)], sizeof(T));
  for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) { const T v = A(i, j); vp_need(&v, sizeof(T)); }
  solution(x, n, nrhs, [&](T (&x)[kN][kN]) {
    bool ok = true;
    for (long i = 0; i < n; ++i)
      for (long j = 0; j < nrhs; ++j) {
        T s = nul(b);
        for (long p = 0; p < n; ++p) s = add(s, mul(A(i, p), x[p][j]));
        ok = ok & eq(s, b[posL(l, i, j, ldb)]);
      }
    return ok;
  });
  for (long i = 0; i < n; ++i) for (long j = 0; j < nrhs; ++j) b[posL(l, i, j, ldb)] = x[i][j];
}
// The matrix P.L.U kept in a factorization
template <typename T>
void product(int l, long n, const T* a, long lda, const lapack_int* ipiv, T (&r)[kN][kN]) {
  for (long i = 0; i < n; ++i)
    for (long j = 0; j < n; ++j) {
      vp_need(&a[posL(l, i, j, lda)], sizeof(T));
      T s = nul(a);
      for (long p = 0; p <= (i < j ? i : j); ++p) s = p == i ? add(s, a[posL(l, i, j, lda)]) : add(s, mul(a[posL(l, i, p, lda)], a[posL(l, p, j, lda)]));
      r[i][j] = s;
    }
  for (long i = n - 1; i >= 0; --i) {
    const long p = ipiv[i] - 1;
    bad(p < i || p >= n, "LAPACK: a pivot out of range");
    if (p != i) for (long j = 0; j < n; ++j) { const T t = r[i][j]; r[i][j] = r[p][j]; r[p][j] = t; }
  }
}
template <typename T>
lapack_int getrf(int l, long m, long n, T* a, long lda, lapack_int* ipiv) {
  checkL(l, m, n, lda);
  if (m != n) {  // a matrix that is upper triangular is its own factorization
    bool upper = true;
    for (long i = 0; i < m; ++i) for (long j = 0; j < n && j <= i; ++j) upper = upper & (zero(a[posL(l, i, j, lda)]) == (j < i));
    bad(!vp_valid(upper), "the model of getrf only knows square matrices, and regular upper triangular ones");
    for (long i = 0; i < m && i < n; ++i) ipiv[i] = (lapack_int)(i + 1);
    return 0;
  }
  T f[kN * kN], r[kN][kN];
  for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) vp_need(&a[posL(l, i, j, lda)], sizeof(T));
  const long ranks = info(n);
  bool known = false;
  for (long h = 0; h < g_hints && !known && ranks == 0; ++h) {
    if (g_hint[h].n != n * n || !g_hint[h].ipiv) continue;
    for (long i = 0; i < n; ++i) ipiv[i] = g_hint[h].ipiv[i];
    for (long i = 0; i < n * n; ++i) put(&f[i], g_hint[h].v, i);
    product(LAPACK_COL_MAJOR, n, f, n, ipiv, r);
    bool ok = true;
    for (long i = 0; i < n; ++i) ok = ok & !zero(f[i + i * n]);
    for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) ok = ok & eq(r[i][j], a[posL(l, i, j, lda)]);
    known = vp_valid(ok);
  }
  if (!known) {
    for (long i = 0; i < n; ++i) ipiv[i] = (lapack_int)vp_pick("lapack_pivot", i + 1, n);
    for (long i = 0; i < n * n; ++i) f[i] = any(a);
    if (ranks == 0) for (long i = 0; i < n; ++i) vp_assume(!zero(f[i + i * n]));
    product(LAPACK_COL_MAJOR, n, f, n, ipiv, r);
    for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) vp_assume(eq(r[i][j], a[posL(l, i, j, lda)]));
  }
  for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) a[posL(l, i, j, lda)] = f[i + j * n];
  return (lapack_int)ranks;
}
template <typename T>
lapack_int getri(int l, long n, T* a, long lda, const lapack_int* ipiv) {
  checkL(l, n, n, lda);
  T r[kN][kN], x[kN][kN];
  product(l, n, a, lda, ipiv, r);
  solution(x, n, n, [&](T (&x)[kN][kN]) {
    bool ok = true;
    for (long i = 0; i < n; ++i)
      for (long j = 0; j < n; ++j) {
        T s = nul(a), id = nul(a);
        for (long p = 0; p < n; ++p) s = add(s, mul(r[i][p], x[p][j]));
        if (i == j) *reinterpret_cast<double*>(&id) = 1.0;
        ok = ok & eq(s, id);
      }
    return ok;
  });
  for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) a[posL(l, i, j, lda)] = x[i][j];
  return 0;
}
}  // namespace

extern "C" {
// for the harnesses: what the last factorization reported, and the hypothesis
// that all matrices are regular
long vp_lapack_info() { return g_info; }
void vp_lapack_regular(int flag) { g_regular = flag != 0; }
// n numbers column by column: a possible result, of a factorization if ipiv is given
void vp_lapack_hint(const double* v, long n, const int* ipiv) { Hint h = {v, n, ipiv}; g_hint[g_hints++] = h; }
void cblas_saxpy(const MKL_INT n, const float al, const float* x, const MKL_INT ix, float* y, const MKL_INT iy) { axpby(n, al, x, ix, 0.0f, false, y, iy); }
void cblas_daxpy(const MKL_INT n, const double al, const double* x, const MKL_INT ix, double* y, const MKL_INT iy) { axpby(n, al, x, ix, 0.0, false, y, iy); }
void cblas_caxpy(const MKL_INT n, const void* al, const void* x, const MKL_INT ix, void* y, const MKL_INT iy) { axpby(n, R<zf>(al), P<zf>(x), ix, R<zf>(al), false, W<zf>(y), iy); }
void cblas_zaxpy(const MKL_INT n, const void* al, const void* x, const MKL_INT ix, void* y, const MKL_INT iy) { axpby(n, R<zd>(al), P<zd>(x), ix, R<zd>(al), false, W<zd>(y), iy); }
void cblas_saxpby(const MKL_INT n, const float al, const float* x, const MKL_INT ix, const float be, float* y, const MKL_INT iy) { axpby(n, al, x, ix, be, true, y, iy); }
void cblas_daxpby(const MKL_INT n, const double al, const double* x, const MKL_INT ix, const double be, double* y, const MKL_INT iy) { axpby(n, al, x, ix, be, true, y, iy); }
void cblas_caxpby(const MKL_INT n, const void* al, const void* x, const MKL_INT ix, const void* be, void* y, const MKL_INT iy) { axpby(n, R<zf>(al), P<zf>(x), ix, R<zf>(be), true, W<zf>(y), iy); }
void cblas_zaxpby(const MKL_INT n, const void* al, const void* x, const MKL_INT ix, const void* be, void* y, const MKL_INT iy) { axpby(n, R<zd>(al), P<zd>(x), ix, R<zd>(be), true, W<zd>(y), iy); }
float cblas_sdot(const MKL_INT n, const float* x, const MKL_INT ix, const float* y, const MKL_INT iy) { return dotp(n, x, ix, y, iy, false); }
double cblas_ddot(const MKL_INT n, const double* x, const MKL_INT ix, const double* y, const MKL_INT iy) { return dotp(n, x, ix, y, iy, false); }
void cblas_cdotu_sub(const MKL_INT n, const void* x, const MKL_INT ix, const void* y, const MKL_INT iy, void* r) { *W<zf>(r) = dotp(n, P<zf>(x), ix, P<zf>(y), iy, false); }
void cblas_cdotc_sub(const MKL_INT n, const void* x, const MKL_INT ix, const void* y, const MKL_INT iy, void* r) { *W<zf>(r) = dotp(n, P<zf>(x), ix, P<zf>(y), iy, true); }
void cblas_zdotu_sub(const MKL_INT n, const void* x, const MKL_INT ix, const void* y, const MKL_INT iy, void* r) { *W<zd>(r) = dotp(n, P<zd>(x), ix, P<zd>(y), iy, false); }
void cblas_zdotc_sub(const MKL_INT n, const void* x, const MKL_INT ix, const void* y, const MKL_INT iy, void* r) { *W<zd>(r) = dotp(n, P<zd>(x), ix, P<zd>(y), iy, true); }
void cblas_sgemv(const CBLAS_LAYOUT l, const CBLAS_TRANSPOSE t, const MKL_INT m, const MKL_INT n, const float al, const float* a, const MKL_INT lda, const float* x, const MKL_INT ix, const float be, float* y, const MKL_INT iy) { gemv(l, t, m, n, al, a, lda, x, ix, be, y, iy); }
void cblas_dgemv(const CBLAS_LAYOUT l, const CBLAS_TRANSPOSE t, const MKL_INT m, const MKL_INT n, const double al, const double* a, const MKL_INT lda, const double* x, const MKL_INT ix, const double be, double* y, const MKL_INT iy) { gemv(l, t, m, n, al, a, lda, x, ix, be, y, iy); }
void cblas_cgemv(const CBLAS_LAYOUT l, const CBLAS_TRANSPOSE t, const MKL_INT m, const MKL_INT n, const void* al, const void* a, const MKL_INT lda, const void* x, const MKL_INT ix, const void* be, void* y, const MKL_INT iy) { gemv(l, t, m, n, R<zf>(al), P<zf>(a), lda, P<zf>(x), ix, R<zf>(be), W<zf>(y), iy); }
void cblas_zgemv(const CBLAS_LAYOUT l, const CBLAS_TRANSPOSE t, const MKL_INT m, const MKL_INT n, const void* al, const void* a, const MKL_INT lda, const void* x, const MKL_INT ix, const void* be, void* y, const MKL_INT iy) { gemv(l, t, m, n, R<zd>(al), P<zd>(a), lda, P<zd>(x), ix, R<zd>(be), W<zd>(y), iy); }
void cblas_sgemm(const CBLAS_LAYOUT l, const CBLAS_TRANSPOSE ta, const CBLAS_TRANSPOSE tb, const MKL_INT m, const MKL_INT n, const MKL_INT k, const float al, const float* a, const MKL_INT lda, const float* b, const MKL_INT ldb, const float be, float* c, const MKL_INT ldc) { gemm(l, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
void cblas_dgemm(const CBLAS_LAYOUT l, const CBLAS_TRANSPOSE ta, const CBLAS_TRANSPOSE tb, const MKL_INT m, const MKL_INT n, const MKL_INT k, const double al, const double* a, const MKL_INT lda, const double* b, const MKL_INT ldb, const double be, double* c, const MKL_INT ldc) { gemm(l, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
void cblas_cgemm3m(const CBLAS_LAYOUT l, const CBLAS_TRANSPOSE ta, const CBLAS_TRANSPOSE tb, const MKL_INT m, const MKL_INT n, const MKL_INT k, const void* al, const void* a, const MKL_INT lda, const void* b, const MKL_INT ldb, const void* be, void* c, const MKL_INT ldc) { gemm(l, ta, tb, m, n, k, R<zf>(al), P<zf>(a), lda, P<zf>(b), ldb, R<zf>(be), W<zf>(c), ldc); }
void cblas_zgemm3m(const CBLAS_LAYOUT l, const CBLAS_TRANSPOSE ta, const CBLAS_TRANSPOSE tb, const MKL_INT m, const MKL_INT n, const MKL_INT k, const void* al, const void* a, const MKL_INT lda, const void* b, const MKL_INT ldb, const void* be, void* c, const MKL_INT ldc) { gemm(l, ta, tb, m, n, k, R<zd>(al), P<zd>(a), lda, P<zd>(b), ldb, R<zd>(be), W<zd>(c), ldc); }
void cblas_cgemm(const CBLAS_LAYOUT l, const CBLAS_TRANSPOSE ta, const CBLAS_TRANSPOSE tb, const MKL_INT m, const MKL_INT n, const MKL_INT k, const void* al, const void* a, const MKL_INT lda, const void* b, const MKL_INT ldb, const void* be, void* c, const MKL_INT ldc) { cblas_cgemm3m(l, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
void cblas_zgemm(const CBLAS_LAYOUT l, const CBLAS_TRANSPOSE ta, const CBLAS_TRANSPOSE tb, const MKL_INT m, const MKL_INT n, const MKL_INT k, const void* al, const void* a, const MKL_INT lda, const void* b, const MKL_INT ldb, const void* be, void* c, const MKL_INT ldc) { cblas_zgemm3m(l, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
void cblas_dtrsm(const CBLAS_LAYOUT l, const CBLAS_SIDE s, const CBLAS_UPLO u, const CBLAS_TRANSPOSE t, const CBLAS_DIAG d, const MKL_INT m, const MKL_INT n, const double al, const double* a, const MKL_INT lda, double* b, const MKL_INT ldb) {
  if (al != 1.0) vp_fail("the model of trsm only knows alpha = 1");
  trsm(l, s, u, t, d, m, n, al, a, lda, b, ldb);
}
void cblas_ztrsm(const CBLAS_LAYOUT l, const CBLAS_SIDE s, const CBLAS_UPLO u, const CBLAS_TRANSPOSE t, const CBLAS_DIAG d, const MKL_INT m, const MKL_INT n, const void* al, const void* a, const MKL_INT lda, void* b, const MKL_INT ldb) {
  if (R<zd>(al).re != 1.0 || R<zd>(al).im != 0.0) vp_fail("the model of trsm only knows alpha = 1");
  trsm(l, s, u, t, d, m, n, R<zd>(al), P<zd>(a), lda, W<zd>(b), ldb);
}
lapack_int LAPACKE_dlaswp(int l, lapack_int n, double* a, lapack_int lda, lapack_int k1, lapack_int k2, const lapack_int* ipiv, lapack_int incx) { return laswp(l, n, a, lda, k1, k2, ipiv, incx); }
lapack_int LAPACKE_zlaswp(int l, lapack_int n, lapack_complex_double* a, lapack_int lda, lapack_int k1, lapack_int k2, const lapack_int* ipiv, lapack_int incx) { return laswp(l, n, W<zd>(a), lda, k1, k2, ipiv, incx); }
lapack_int LAPACKE_dgesv(int l, lapack_int n, lapack_int nrhs, double* a, lapack_int lda, lapack_int* ipiv, double* b, lapack_int ldb) {
  checkL(l, n, n, lda);
  checkL(l, n, nrhs, ldb);
  const long r = info(n);
  for (long i = 0; i < n; ++i) ipiv[i] = (lapack_int)vp_int("lapack_pivot", i + 1, n);
  if (r == 0) linear([&](long i, long j) { return a[posL(l, i, j, lda)]; }, n, nrhs, l, b, ldb);
  for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) a[posL(l, i, j, lda)] = any(a);
  return (lapack_int)r;
}
lapack_int LAPACKE_dgbsv(int l, lapack_int n, lapack_int kl, lapack_int ku, lapack_int nrhs, double* ab, lapack_int ldab, lapack_int* ipiv, double* b, lapack_int ldb) {
  // row-major: ab is a table of 2*kl+ku+1 rows, the transpose of the one of Fortran
  bad(l != LAPACK_COL_MAJOR && l != LAPACK_ROW_MAJOR, "LAPACK rejects the layout");
  if (l == LAPACK_COL_MAJOR) bad(ldab < 2 * kl + ku + 1, "LAPACK rejects the leading dimension"); else bad(ldab < n, "LAPACK rejects the leading dimension");
  checkL(l, n, nrhs, ldb);
  const long r = info(n);
  for (long i = 0; i < n; ++i) ipiv[i] = (lapack_int)vp_int("lapack_pivot", i + 1, n);
  if (r == 0) linear([&](long i, long j) { return j - i > ku || i - j > kl ? 0.0 : ab[posL(l, kl + ku + i - j, j, ldab)]; }, n, nrhs, l, b, ldb);
  // the whole table is overwritten
  for (long j = 0; j < n; ++j) for (long i = 0; i < 2 * kl + ku + 1; ++i) ab[posL(l, i, j, ldab)] = any(ab);
  return (lapack_int)r;
}
lapack_int LAPACKE_dgtsv(int l, lapack_int n, lapack_int nrhs, double* dl, double* d, double* du, double* b, lapack_int ldb) {
  checkL(l, n, nrhs, ldb);
  const long r = info(n);
  if (r == 0) linear([&](long i, long j) { return i == j ? d[i] : i == j + 1 ? dl[j] : j == i + 1 ? du[i] : 0.0; }, n, nrhs, l, b, ldb);
  for (long i = 0; i < n; ++i) { d[i] = any(d); if (i + 1 < n) { dl[i] = any(d); du[i] = any(d); } }
  return (lapack_int)r;
}
lapack_int LAPACKE_dgetrf(int l, lapack_int m, lapack_int n, double* a, lapack_int lda, lapack_int* ipiv) { return getrf(l, m, n, a, lda, ipiv); }
lapack_int LAPACKE_zgetrf(int l, lapack_int m, lapack_int n, lapack_complex_double* a, lapack_int lda, lapack_int* ipiv) { return getrf(l, m, n, W<zd>(a), lda, ipiv); }
lapack_int LAPACKE_dgetrs(int l, char trans, lapack_int n, lapack_int nrhs, const double* a, lapack_int lda, const lapack_int* ipiv, double* b, lapack_int ldb) {
  checkL(l, n, n, lda);
  checkL(l, n, nrhs, ldb);
  bad(trans != 'N' && trans != 'T', "the model of getrs only knows N and T");
  double r[kN][kN];
  product(l, n, a, lda, ipiv, r);
  linear([&](long i, long j) { return trans == 'N' ? r[i][j] : r[j][i]; }, n, nrhs, l, b, ldb);
  return 0;
}
lapack_int LAPACKE_dgetri(int l, lapack_int n, double* a, lapack_int lda, const lapack_int* ipiv) { return getri(l, n, a, lda, ipiv); }
lapack_int LAPACKE_zgetri(int l, lapack_int n, lapack_complex_double* a, lapack_int lda, const lapack_int* ipiv) { return getri(l, n, W<zd>(a), lda, ipiv); }
// ---- sparse matrices -----------------------------------------------------------
}
struct sparse_matrix { long rows, cols; const MKL_INT *start, *end, *column; const void* values; int base; bool single; };
namespace {
template <typename T>
sparse_status_t spCreate(sparse_matrix_t* A, sparse_index_base_t b, MKL_INT m, MKL_INT n, MKL_INT* s, MKL_INT* e, MKL_INT* c, T* v) {
  if (m <= 0 || n <= 0 || !s || !e || !c || !v) return SPARSE_STATUS_INVALID_VALUE;
  sparse_matrix* p = (sparse_matrix*)__builtin_malloc(sizeof(sparse_matrix));
  p->rows = m; p->cols = n; p->start = s; p->end = e; p->column = c; p->values = v; p->base = (int)b; p->single = sizeof(T) == 4;
  *A = p;
  return SPARSE_STATUS_SUCCESS;
}
template <typename T>
sparse_status_t spMv(sparse_operation_t o, T al, sparse_matrix_t A, matrix_descr d, const T* x, T be, T* y) {
  if (!A) return SPARSE_STATUS_NOT_INITIALIZED;
  if (A->single != (sizeof(T) == 4)) return SPARSE_STATUS_INVALID_VALUE;
  if (o != SPARSE_OPERATION_NON_TRANSPOSE || d.type != SPARSE_MATRIX_TYPE_GENERAL) vp_fail("the model of mkl_sparse_mv only knows general matrices that are not transposed");
  const T* v = (const T*)A->values;
  for (long i = 0; i < A->rows; ++i) {
    T s = 0;
    for (long k = A->start[i] - A->base; k < A->end[i] - A->base; ++k) s = s + v[k] * x[A->column[k] - A->base];
    y[i] = be == 0 ? al * s : al * s + be * y[i];
  }
  return SPARSE_STATUS_SUCCESS;
}
}
extern "C" {
sparse_status_t mkl_sparse_d_create_csr(sparse_matrix_t* A, const sparse_index_base_t b, const MKL_INT m, const MKL_INT n, MKL_INT* s, MKL_INT* e, MKL_INT* c, double* v) { return spCreate(A, b, m, n, s, e, c, v); }
sparse_status_t mkl_sparse_s_create_csr(sparse_matrix_t* A, const sparse_index_base_t b, const MKL_INT m, const MKL_INT n, MKL_INT* s, MKL_INT* e, MKL_INT* c, float* v) { return spCreate(A, b, m, n, s, e, c, v); }
sparse_status_t mkl_sparse_d_mv(const sparse_operation_t o, const double al, const sparse_matrix_t A, const struct matrix_descr d, const double* x, const double be, double* y) { return spMv(o, al, A, d, x, be, y); }
sparse_status_t mkl_sparse_s_mv(const sparse_operation_t o, const float al, const sparse_matrix_t A, const struct matrix_descr d, const float* x, const float be, float* y) { return spMv(o, al, A, d, x, be, y); }
sparse_status_t mkl_sparse_set_mv_hint(const sparse_matrix_t A, const sparse_operation_t, const struct matrix_descr, const MKL_INT n) { return !A ? SPARSE_STATUS_NOT_INITIALIZED : n <= 0 ? SPARSE_STATUS_INVALID_VALUE : SPARSE_STATUS_SUCCESS; }
sparse_status_t mkl_sparse_destroy(sparse_matrix_t A) { __builtin_free(A); return SPARSE_STATUS_SUCCESS; }
}
