// Dense BLAS on vectors and matrices, against the definition of the operation.
// vp: variants debug ndebug
// vp: flags linalg cxlr
// bound: vectors of 0 to 3 elements; matrices of 0 to 2 rows and columns (3 for double, and for all types with VP_DEEP), views of larger ones included, both storage orders, all combinations of transpositions; float, double and their complex types; elements and coefficients are any integers of absolute value up to 20 (exact arithmetic)
#include "vp.h"
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/Array2D.h>
#include <il/linearAlgebra/dense/blas/blas.h>
#include <il/linearAlgebra/dense/blas/dot.h>
#include <complex>
#include <limits>

typedef std::complex<float> cf;
typedef std::complex<double> cd;
const long B = 20;
struct C { double re, im; };
template <typename T> struct Num;
template <> struct Num<float> {
  static float any(const char* n) { return (float)vp_dint(n, -B, B); }
  static float nan() { return std::numeric_limits<float>::quiet_NaN(); }
  static C c(float x) { return C{(double)x, 0.0}; }
  static const bool complex = false;
};
template <> struct Num<double> {
  static double any(const char* n) { return vp_dint(n, -B, B); }
  static double nan() { return std::numeric_limits<double>::quiet_NaN(); }
  static C c(double x) { return C{x, 0.0}; }
  static const bool complex = false;
};
template <typename T> struct Num<std::complex<T>> {
  static std::complex<T> any(const char* n) { const T a = Num<T>::any(n), b = Num<T>::any(n); return std::complex<T>{a, b}; }
  static std::complex<T> nan() { return std::complex<T>{Num<T>::nan(), Num<T>::nan()}; }
  static C c(std::complex<T> x) { return C{(double)x.real(), (double)x.imag()}; }
  static const bool complex = true;
};
static C mul(C a, C b) { return C{a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
static C add(C a, C b) { return C{a.re + b.re, a.im + b.im}; }
static C conj(C a, bool c) { return C{a.re, c ? -a.im : a.im}; }
static bool same(C a, C b) { return (a.re == b.re) & (a.im == b.im); }
static const C zero = {0.0, 0.0};

// alpha x + beta y, the coefficient 0 of BLAS erases y whatever it is
template <typename T>
struct Coef {
  T v;
  bool zero;
};
template <typename T>
static Coef<T> beta(const char* n) {
  Coef<T> b;
  b.zero = vp_flag("beta is 0");
  b.v = b.zero ? T(0) : Num<T>::any(n);
  return b;
}
template <typename T>
static C old(const Coef<T>& b, C y) { return b.zero ? zero : mul(Num<T>::c(b.v), y); }

template <typename T>
static il::Array<T> vec(long n, const char* nm, bool bad = false) {
  il::Array<T> a{n};
  for (long i = 0; i < n; ++i) a[i] = bad ? Num<T>::nan() : Num<T>::any(nm);
  return a;
}
template <typename M, typename T>
struct Mat;
template <typename T>
struct Mat<il::Array2D<T>, T> {
  il::Array2D<T> a;
  long m, n;
  bool sub;
  il::Array2DView<T> view() const { return sub ? a.view(il::Range{1, 1 + m}, il::Range{1, 1 + n}) : a.view(); }
  il::Array2DEdit<T> edit() { return sub ? a.Edit(il::Range{1, 1 + m}, il::Range{1, 1 + n}) : a.Edit(); }
};
template <typename T>
struct Mat<il::Array2C<T>, T> {
  il::Array2C<T> a;
  long m, n;
  bool sub;
  il::Array2CView<T> view() const { return sub ? a.view(il::Range{1, 1 + m}, il::Range{1, 1 + n}) : a.view(); }
  il::Array2CEdit<T> edit() { return sub ? il::Array2CEdit<T>{a.Data() + a.stride(0) + 1, m, n, a.stride(0), 0, 0} : a.Edit(); }
};
template <typename M, typename T>
static Mat<M, T> mat(long m, long n, const char* nm, bool sub, bool bad = false) {
  Mat<M, T> r;
  r.m = m; r.n = n; r.sub = sub;
  r.a.Resize(sub ? m + 2 : m, sub ? n + 2 : n);
  for (long i = 0; i < r.a.size(0); ++i) for (long j = 0; j < r.a.size(1); ++j) r.a(i, j) = Num<T>::nan();
  const long o = sub ? 1 : 0;
  for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) r.a(i + o, j + o) = bad ? Num<T>::nan() : Num<T>::any(nm);
  return r;
}
template <typename M, typename T>
static C at(const Mat<M, T>& a, il::Dot op, long i, long j) {
  const long o = a.sub ? 1 : 0;
  if (op == il::Dot::None) return Num<T>::c(a.a(i + o, j + o));
  return conj(Num<T>::c(a.a(j + o, i + o)), op == il::Dot::Star);
}
template <typename M, typename T>
static bool frame(const Mat<M, T>& a) {
  // what is around the view is not touched
  bool ok = true;
  if (!a.sub) return ok;
  for (long i = 0; i < a.a.size(0); ++i)
    for (long j = 0; j < a.a.size(1); ++j)
      if (i == 0 || j == 0 || i == a.m + 1 || j == a.n + 1) { const C c = Num<T>::c(a.a(i, j)); ok = ok & (c.re != c.re); }
  return ok;
}
static il::Dot op(const char* nm) {
  const long k = vp_pick(nm, 0, 2);
  return k == 0 ? il::Dot::None : k == 1 ? il::Dot::Transpose : il::Dot::Star;
}

template <typename T> struct OnlyComplex { static void go() {} };
template <typename T>
struct OnlyComplex<std::complex<T>> {
  static void go() {
    typedef std::complex<T> Z;
    const long n = vp_pick("n", 0, 3);
    const il::Array<Z> x = vec<Z>(n, "x"), y = vec<Z>(n, "y");
    C s = zero;
    switch (vp_pick("op", 0, 3)) {
      case 0: {
        for (long i = 0; i < n; ++i) s = add(s, mul(conj(Num<Z>::c(x[i]), true), Num<Z>::c(y[i])));
        vp_assert(same(Num<Z>::c(il::dot(x, il::Dot::Star, y)), s) && same(Num<Z>::c(il::dot(x.view(), il::Dot::Star, y.view())), s), "scalar product with the conjugate of x");
        break;
      }
      case 1: {
        for (long i = 0; i < n; ++i) s = add(s, mul(Num<Z>::c(x[i]), conj(Num<Z>::c(y[i]), true)));
        vp_assert(same(Num<Z>::c(il::dot(x, y, il::Dot::Star)), s) && same(Num<Z>::c(il::dot(x.view(), y.view(), il::Dot::Star)), s), "scalar product with the conjugate of y");
        break;
      }
      default: {
        for (long i = 0; i < n; ++i) s = add(s, mul(Num<Z>::c(x[i]), Num<Z>::c(y[i])));
        vp_assert(same(Num<Z>::c(il::dot(x, il::Dot::None, y)), s) && same(Num<Z>::c(il::dot(x, y, il::Dot::None)), s), "scalar product without conjugate");
      }
    }
  }
};
template <typename T>
static void level1() {
  const long n = vp_pick("n", 0, 3);
  const T alpha = Num<T>::any("alpha");
  const il::Array<T> x = vec<T>(n, "x");
  switch (vp_pick("op", 0, 2)) {
    case 0: {
      il::Array<T> y = vec<T>(n, "y");
      const il::Array<T> y0 = y;
      il::blas(alpha, x.view(), il::io, y.Edit());
      bool ok = true;
      for (long i = 0; i < n; ++i) ok = ok & same(Num<T>::c(y[i]), add(mul(Num<T>::c(alpha), Num<T>::c(x[i])), Num<T>::c(y0[i])));
      vp_assert(ok, "y = alpha x + y");
      break;
    }
    case 1: {
      const Coef<T> b = beta<T>("beta");
      il::Array<T> y = vec<T>(n, "y", b.zero);
      const il::Array<T> y0 = y;
      il::blas(alpha, x.view(), b.v, il::io, y.Edit());
      bool ok = true;
      for (long i = 0; i < n; ++i) ok = ok & same(Num<T>::c(y[i]), add(mul(Num<T>::c(alpha), Num<T>::c(x[i])), old(b, Num<T>::c(y0[i]))));
      vp_assert(ok, "y = alpha x + beta y");
      break;
    }
    case 2: {
      const il::Array<T> y = vec<T>(n, "y");
      C s = zero;
      for (long i = 0; i < n; ++i) s = add(s, mul(Num<T>::c(x[i]), Num<T>::c(y[i])));
      vp_assert(same(Num<T>::c(il::dot(x, y)), s) && same(Num<T>::c(il::dot(x.view(), y.view())), s), "scalar product");
      break;
    }
  }
}
VP_ENTRY(L01_vector) {
  {
    switch (vp_pick("type", 0, 5)) {
      case 0: level1<float>(); break;
      case 1: level1<double>(); break;
      case 2: level1<cf>(); break;
      case 3: level1<cd>(); break;
      case 4: OnlyComplex<cf>::go(); break;
      case 5: OnlyComplex<cd>::go(); break;
    }
    vp_cover("vector");
  }
}
#ifdef VP_DEEP
template <typename T> static long maxn() { return 3; }
#else
template <typename T> static long maxn() { return 2; }
template <> long maxn<double>() { return 3; }
#endif
// B = alpha A + beta B
template <typename T>
static void sum() {
  const long m = vp_pick("m", 0, maxn<T>()), n = vp_pick("n", 0, maxn<T>());
  const T alpha = Num<T>::any("alpha");
  const Coef<T> b = beta<T>("beta");
  const Mat<il::Array2D<T>, T> A = mat<il::Array2D<T>, T>(m, n, "a", vp_flag("sub a"));
  Mat<il::Array2D<T>, T> Y = mat<il::Array2D<T>, T>(m, n, "y", vp_flag("sub y"), b.zero);
  const Mat<il::Array2D<T>, T> Y0 = Y;
  il::blas(alpha, A.view(), b.v, il::io, Y.edit());
  bool ok = true;
  for (long i = 0; i < m; ++i)
    for (long j = 0; j < n; ++j) ok = ok & same(at(Y, il::Dot::None, i, j), add(mul(Num<T>::c(alpha), at(A, il::Dot::None, i, j)), old(b, at(Y0, il::Dot::None, i, j))));
  vp_assert(ok, "Y = alpha X + beta Y");
  vp_assert(frame(Y), "an element outside of the view is changed");
}
VP_ENTRY(L01_sum) {
  if (vp_flag("complex")) sum<cd>(); else sum<double>();
  vp_cover("sum");
}
// y = alpha op(A) x + beta y
template <typename M, typename T>
static void level2() {
  const il::Dot o = op("op");
  const long m = vp_pick("m", 0, maxn<T>()), n = vp_pick("n", 0, maxn<T>());
  const long ny = o == il::Dot::None ? m : n, nx = o == il::Dot::None ? n : m;
  const T alpha = Num<T>::any("alpha");
  const Coef<T> b = beta<T>("beta");
  const Mat<M, T> A = mat<M, T>(m, n, "a", vp_flag("sub"));
  const il::Array<T> x = vec<T>(nx, "x");
  il::Array<T> y = vec<T>(ny, "y", b.zero);
  const il::Array<T> y0 = y;
  if (o == il::Dot::None && vp_flag("short")) il::blas(alpha, A.view(), x.view(), b.v, il::io, y.Edit());
  else il::blas(alpha, A.view(), o, x.view(), b.v, il::io, y.Edit());
  bool ok = true;
  for (long i = 0; i < ny; ++i) {
    C s = zero;
    for (long j = 0; j < nx; ++j) s = add(s, mul(at(A, o, i, j), Num<T>::c(x[j])));
    ok = ok & same(Num<T>::c(y[i]), add(mul(Num<T>::c(alpha), s), old(b, Num<T>::c(y0[i]))));
  }
  vp_assert(ok, "y = alpha op(A) x + beta y");
}
template <template <typename> class M>
static void product2() {
  switch (vp_pick("type", 0, 3)) {
    case 0: level2<M<float>, float>(); break;
    case 1: level2<M<double>, double>(); break;
    case 2: level2<M<cf>, cf>(); break;
    case 3: level2<M<cd>, cd>(); break;
  }
  vp_cover("matrix x vector");
}
VP_ENTRY(L01_matrix_vector_D) { product2<il::Array2D>(); }
VP_ENTRY(L01_matrix_vector_C) { product2<il::Array2C>(); }
// C = alpha op(A) op(B) + beta C
template <typename M, typename T>
static void level3() {
  const il::Dot oa = op("op a"), ob = op("op b");
  const long m = vp_pick("m", 0, maxn<T>()), n = vp_pick("n", 0, maxn<T>()), k = vp_pick("k", 0, maxn<T>());
  const T alpha = Num<T>::any("alpha");
  const Coef<T> b = beta<T>("beta");
  const long sub = vp_pick("sub", 0, 3);  // none, A, B, C
  const Mat<M, T> A = oa == il::Dot::None ? mat<M, T>(m, k, "a", sub == 1) : mat<M, T>(k, m, "a", sub == 1);
  const Mat<M, T> Bm = ob == il::Dot::None ? mat<M, T>(k, n, "b", sub == 2) : mat<M, T>(n, k, "b", sub == 2);
  Mat<M, T> Y = mat<M, T>(m, n, "c", sub == 3, b.zero);
  const Mat<M, T> Y0 = Y;
  const int how = oa != il::Dot::None && ob != il::Dot::None ? 0 : sub == 0 ? (int)vp_flag("short") : 0;
  if (how == 0) il::blas(alpha, A.view(), oa, Bm.view(), ob, b.v, il::io, Y.edit());
  else if (oa == il::Dot::None && ob == il::Dot::None) il::blas(alpha, A.view(), Bm.view(), b.v, il::io, Y.edit());
  else if (ob == il::Dot::None) il::blas(alpha, A.view(), oa, Bm.view(), b.v, il::io, Y.edit());
  else il::blas(alpha, A.view(), Bm.view(), ob, b.v, il::io, Y.edit());
  bool ok = true;
  for (long i = 0; i < m; ++i)
    for (long j = 0; j < n; ++j) {
      C s = zero;
      for (long p = 0; p < k; ++p) s = add(s, mul(at(A, oa, i, p), at(Bm, ob, p, j)));
      ok = ok & same(at(Y, il::Dot::None, i, j), add(mul(Num<T>::c(alpha), s), old(b, at(Y0, il::Dot::None, i, j))));
    }
  vp_assert(ok, "C = alpha op(A) op(B) + beta C");
  vp_assert(frame(Y), "an element outside of the view is changed");
}
template <template <typename> class M>
static void product3() {
  switch (vp_pick("type", 0, 3)) {
    case 0: level3<M<float>, float>(); break;
    case 1: level3<M<double>, double>(); break;
    case 2: level3<M<cf>, cf>(); break;
    case 3: level3<M<cd>, cd>(); break;
  }
  vp_cover("matrix x matrix");
}
VP_ENTRY(L01_matrix_matrix_D) { product3<il::Array2D>(); }
VP_ENTRY(L01_matrix_matrix_C) { product3<il::Array2C>(); }
// The products that return their result
template <typename M, typename T>
static void dot3() {
  const long m = vp_pick("m", 0, 2), n = vp_pick("n", 0, 2), k = vp_pick("k", 0, 2);
  const Mat<M, T> A = mat<M, T>(m, k, "a", false), Bm = mat<M, T>(k, n, "b", false);
  const M Y = il::dot(A.a, Bm.a);
  vp_assert(Y.size(0) == m && Y.size(1) == n, "size of the product");
  bool ok = true;
  for (long i = 0; i < m; ++i)
    for (long j = 0; j < n; ++j) {
      C s = zero;
      for (long p = 0; p < k; ++p) s = add(s, mul(at(A, il::Dot::None, i, p), at(Bm, il::Dot::None, p, j)));
      ok = ok & same(Num<T>::c(Y(i, j)), s);
    }
  vp_assert(ok, "product of two matrices");
}
template <typename M>
static void dot2() {
  const long m = vp_pick("m", 0, 2), n = vp_pick("n", 0, 2);
  const Mat<M, double> A = mat<M, double>(m, n, "a", false);
  const il::Array<double> x = vec<double>(n, "x"), y = il::dot(A.a, x);
  vp_assert(y.size() == m, "size of the product");
  bool ok = true;
  for (long i = 0; i < m; ++i) {
    double s = 0.0;
    for (long j = 0; j < n; ++j) s += A.a(i, j) * x[j];
    ok = ok & (y[i] == s);
  }
  vp_assert(ok, "product of a matrix and a vector");
}
VP_ENTRY(L01_dot) {
  switch (vp_pick("kind", 0, 4)) {
    case 0: dot3<il::Array2D<float>, float>(); break;
    case 1: dot3<il::Array2D<double>, double>(); break;
    case 2: dot3<il::Array2C<double>, double>(); break;
    case 3: dot2<il::Array2D<double>>(); break;
    case 4: dot2<il::Array2C<double>>(); break;
  }
  vp_cover("dot");
}
// A debug build stops when the sizes do not match.
template <typename M, typename T>
static void sizes() {
  switch (vp_pick("level", 1, 3)) {
    case 1: {
      const long n = vp_pick("n", 0, 2), k = vp_pick("k", 0, 2);
      const il::Array<T> x = vec<T>(n, "x");
      il::Array<T> y = vec<T>(k, "y");
      vp_abort_ok(n != k);
      const long f = vp_pick("f", 0, 2);
      if (f == 0) il::blas(T(1), x.view(), il::io, y.Edit());
      if (f == 1) il::blas(T(1), x.view(), T(2), il::io, y.Edit());
      if (f == 2) (void)il::dot(x, y);
      vp_assert(n == k, "vectors of different sizes are accepted");
      break;
    }
    case 2: {
      const il::Dot o = op("op");
      const long m = vp_pick("m", 1, 2), n = vp_pick("n", 1, 2), nx = vp_pick("x", 1, 2), ny = vp_pick("y", 1, 2);
      const Mat<M, T> A = mat<M, T>(m, n, "a", false);
      const il::Array<T> x = vec<T>(nx, "x");
      il::Array<T> y = vec<T>(ny, "y");
      const bool ok = o == il::Dot::None ? m == ny && n == nx : m == nx && n == ny;
      vp_abort_ok(!ok);
      il::blas(T(1), A.view(), o, x.view(), T(0), il::io, y.Edit());
      vp_assert(ok, "a vector whose size does not match is accepted");
      break;
    }
    case 3: {
      const il::Dot oa = op("op a"), ob = op("op b");
      const long m = vp_pick("m", 1, 2), n = vp_pick("n", 1, 2), k = vp_pick("k", 1, 2), kb = vp_pick("kb", 1, 2), mc = vp_pick("mc", 1, 2), nc = vp_pick("nc", 1, 2);
      const Mat<M, T> A = oa == il::Dot::None ? mat<M, T>(m, k, "a", false) : mat<M, T>(k, m, "a", false);
      const Mat<M, T> Bm = ob == il::Dot::None ? mat<M, T>(kb, n, "b", false) : mat<M, T>(n, kb, "b", false);
      Mat<M, T> Y = mat<M, T>(mc, nc, "c", false);
      const bool ok = k == kb && m == mc && n == nc;
      vp_abort_ok(!ok);
      il::blas(T(1), A.view(), oa, Bm.view(), ob, T(0), il::io, Y.edit());
      vp_assert(ok, "a matrix whose size does not match is accepted");
      break;
    }
  }
}
VP_ENTRY(L01_sizes) {
#ifndef NDEBUG
  vp_allow_leak();
  switch (vp_pick("type", 0, 7)) {
    case 0: sizes<il::Array2D<float>, float>(); break;
    case 1: sizes<il::Array2D<double>, double>(); break;
    case 2: sizes<il::Array2D<cf>, cf>(); break;
    case 3: sizes<il::Array2D<cd>, cd>(); break;
    case 4: sizes<il::Array2C<float>, float>(); break;
    case 5: sizes<il::Array2C<double>, double>(); break;
    case 6: sizes<il::Array2C<cf>, cf>(); break;
    case 7: sizes<il::Array2C<cd>, cd>(); break;
  }
#endif
}
