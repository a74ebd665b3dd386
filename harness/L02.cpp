// BLAS on tensors of static size, and the cross product.
// vp: variants debug ndebug
// bound: tensors with every dimension 1, 2 or 3 as instantiated below; elements and coefficients are any integers of absolute value up to 20 (exact arithmetic), for float, double and int (without the updates with coefficients of type double for int)
#include "vp.h"
#include <il/StaticArray.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/linearAlgebra/dense/blas/blas_static.h>
#include <il/linearAlgebra/dense/blas/cross.h>
#include <limits>

template <typename T> struct Num {
  static T any(const char* n) { return (T)vp_dint(n, -20, 20); }
  static T nan() { return std::numeric_limits<T>::quiet_NaN(); }
};
template <> struct Num<int> {
  static int any(const char* n) { return (int)vp_int(n, -20, 20); }
  static int nan() { return any("garbage"); }
};
template <typename T, long a> static il::StaticArray<T, a> t1(const char* nm, bool bad = false) {
  il::StaticArray<T, a> r{};
  for (long i = 0; i < a; ++i) r[i] = bad ? Num<T>::nan() : Num<T>::any(nm);
  return r;
}
template <typename T, long a, long b> static il::StaticArray2D<T, a, b> t2(const char* nm, bool bad = false) {
  il::StaticArray2D<T, a, b> r{};
  for (long i = 0; i < a; ++i) for (long j = 0; j < b; ++j) r(i, j) = bad ? Num<T>::nan() : Num<T>::any(nm);
  return r;
}
template <typename T, long a, long b, long c> static il::StaticArray3D<T, a, b, c> t3(const char* nm, bool bad = false) {
  il::StaticArray3D<T, a, b, c> r{};
  for (long i = 0; i < a; ++i) for (long j = 0; j < b; ++j) for (long k = 0; k < c; ++k) r(i, j, k) = bad ? Num<T>::nan() : Num<T>::any(nm);
  return r;
}
template <typename T, long a, long b, long c, long d> static il::StaticArray4D<T, a, b, c, d> t4(const char* nm) {
  il::StaticArray4D<T, a, b, c, d> r{};
  for (long i = 0; i < a; ++i) for (long j = 0; j < b; ++j) for (long k = 0; k < c; ++k) for (long l = 0; l < d; ++l) r(i, j, k, l) = Num<T>::any(nm);
  return r;
}
template <typename T, long a, long b, long c, long n>
static void tensors() {
  bool ok = true;
  const il::StaticArray<T, n> x = t1<T, n>("x"), y = t1<T, n>("y");
  const long op = vp_pick("op", 0, 13);
  if (std::numeric_limits<T>::is_integer && op >= 10 && op <= 12) return;
  switch (op) {
    case 0: {
      T s = 0;
      for (long i = 0; i < n; ++i) s += x[i] * y[i];
      vp_assert(il::dot(x, y) == s, "scalar product");
      break;
    }
    case 1: {
      const il::StaticArray2D<T, a, n> A = t2<T, a, n>("a");
      const il::StaticArray<T, a> r = il::dot(A, x);
      for (long i = 0; i < a; ++i) { T s = 0; for (long p = 0; p < n; ++p) s += A(i, p) * x[p]; ok = ok & (r[i] == s); }
      break;
    }
    case 2: {
      const il::StaticArray2D<T, n, a> A = t2<T, n, a>("a");
      const il::StaticArray<T, a> r = il::dot(A, il::Dot::Transpose, x);
      for (long i = 0; i < a; ++i) { T s = 0; for (long p = 0; p < n; ++p) s += A(p, i) * x[p]; ok = ok & (r[i] == s); }
      break;
    }
    case 3: {
      const il::StaticArray2D<T, n, a> A = t2<T, n, a>("a");
      const il::StaticArray<T, a> r = il::dot(x, A);
      for (long i = 0; i < a; ++i) { T s = 0; for (long p = 0; p < n; ++p) s += x[p] * A(p, i); ok = ok & (r[i] == s); }
      break;
    }
    case 4: {
      const il::StaticArray2D<T, a, n> A = t2<T, a, n>("a");
      const il::StaticArray2D<T, n, b> B = t2<T, n, b>("b");
      const il::StaticArray2D<T, a, b> r = il::dot(A, B);
      for (long i = 0; i < a; ++i) for (long j = 0; j < b; ++j) { T s = 0; for (long p = 0; p < n; ++p) s += A(i, p) * B(p, j); ok = ok & (r(i, j) == s); }
      break;
    }
    case 5: {
      const il::StaticArray2D<T, n, a> A = t2<T, n, a>("a");
      const il::StaticArray2D<T, n, b> B = t2<T, n, b>("b");
      const il::StaticArray2D<T, a, b> r = il::dot(A, il::Dot::Transpose, B);
      for (long i = 0; i < a; ++i) for (long j = 0; j < b; ++j) { T s = 0; for (long p = 0; p < n; ++p) s += A(p, i) * B(p, j); ok = ok & (r(i, j) == s); }
      break;
    }
    case 6: {
      const il::StaticArray2D<T, a, n> A = t2<T, a, n>("a");
      const il::StaticArray3D<T, n, b, c> B = t3<T, n, b, c>("b");
      const il::StaticArray3D<T, a, b, c> r = il::dot(A, B);
      for (long i = 0; i < a; ++i) for (long j = 0; j < b; ++j) for (long k = 0; k < c; ++k) { T s = 0; for (long p = 0; p < n; ++p) s += A(i, p) * B(p, j, k); ok = ok & (r(i, j, k) == s); }
      break;
    }
    case 7: {
      const il::StaticArray3D<T, a, b, n> A = t3<T, a, b, n>("a");
      const il::StaticArray2D<T, a, b> r = il::dot(A, x);
      for (long i = 0; i < a; ++i) for (long j = 0; j < b; ++j) { T s = 0; for (long p = 0; p < n; ++p) s += A(i, j, p) * x[p]; ok = ok & (r(i, j) == s); }
      break;
    }
    case 8: {
      const il::StaticArray4D<T, a, b, c, n> A = t4<T, a, b, c, n>("a");
      const il::StaticArray3D<T, a, b, c> r = il::dot(A, x);
      for (long i = 0; i < a; ++i) for (long j = 0; j < b; ++j) for (long k = 0; k < c; ++k) { T s = 0; for (long p = 0; p < n; ++p) s += A(i, j, k, p) * x[p]; ok = ok & (r(i, j, k) == s); }
      break;
    }
    case 9: {  // the updates
      const bool zero = vp_flag("beta is 0");
      const T al = Num<T>::any("alpha"), be = zero ? T(0) : Num<T>::any("beta");
      const il::StaticArray3D<T, a, b, n> A = t3<T, a, b, n>("a");
      il::StaticArray3D<T, a, b, n> C = t3<T, a, b, n>("c", zero);
      const il::StaticArray3D<T, a, b, n> C0 = C;
      il::blas(al, A, be, il::io, C);
      for (long i = 0; i < a; ++i) for (long j = 0; j < b; ++j) for (long k = 0; k < n; ++k) ok = ok & (C(i, j, k) == (zero ? al * A(i, j, k) : al * A(i, j, k) + be * C0(i, j, k)));
      break;
    }
    case 10: {
      const bool zero = vp_flag("beta is 0");
      const T al = Num<T>::any("alpha"), be = zero ? T(0) : Num<T>::any("beta");
      const il::StaticArray2D<T, a, n> A = t2<T, a, n>("a");
      il::StaticArray<T, a> C = t1<T, a>("c", zero);
      const il::StaticArray<T, a> C0 = C;
      il::blas((double)al, A, x, (double)be, il::io, C);
      for (long i = 0; i < a; ++i) { T s = 0; for (long p = 0; p < n; ++p) s += A(i, p) * x[p]; ok = ok & (C[i] == (zero ? al * s : al * s + be * C0[i])); }
      break;
    }
    case 11: {
      const bool zero = vp_flag("beta is 0");
      const T al = Num<T>::any("alpha"), be = zero ? T(0) : Num<T>::any("beta");
      const il::StaticArray3D<T, a, b, n> A = t3<T, a, b, n>("a");
      il::StaticArray2D<T, a, b> C = t2<T, a, b>("c", zero);
      const il::StaticArray2D<T, a, b> C0 = C;
      il::blas((double)al, A, x, (double)be, il::io, C);
      for (long i = 0; i < a; ++i) for (long j = 0; j < b; ++j) { T s = 0; for (long p = 0; p < n; ++p) s += A(i, j, p) * x[p]; ok = ok & (C(i, j) == (zero ? al * s : al * s + be * C0(i, j))); }
      break;
    }
    case 12: {
      const bool zero = vp_flag("beta is 0");
      const T al = Num<T>::any("alpha"), be = zero ? T(0) : Num<T>::any("beta");
      const il::StaticArray4D<T, a, b, c, n> A = t4<T, a, b, c, n>("a");
      il::StaticArray3D<T, a, b, c> C = t3<T, a, b, c>("c", zero);
      const il::StaticArray3D<T, a, b, c> C0 = C;
      il::blas((double)al, A, x, (double)be, il::io, C);
      for (long i = 0; i < a; ++i) for (long j = 0; j < b; ++j) for (long k = 0; k < c; ++k) { T s = 0; for (long p = 0; p < n; ++p) s += A(i, j, k, p) * x[p]; ok = ok & (C(i, j, k) == (zero ? al * s : al * s + be * C0(i, j, k))); }
      break;
    }
    case 13: {
      const il::StaticArray<T, 2> u = t1<T, 2>("u"), v = il::cross(u);
      ok = (v[0] == -u[1]) & (v[1] == u[0]);
      const il::StaticArray<T, 3> p = t1<T, 3>("p"), q = t1<T, 3>("q"), r = il::cross(p, q);
      for (long i = 0; i < 3; ++i) ok = ok & (r[i] == p[(i + 1) % 3] * q[(i + 2) % 3] - p[(i + 2) % 3] * q[(i + 1) % 3]);
      break;
    }
  }
  vp_assert(ok, "the result is not the one of the definition");
}
VP_ENTRY(L02_static) {
  switch (vp_pick("kind", 0, 6)) {
    case 0: tensors<double, 2, 3, 2, 2>(); break;
    case 1: tensors<double, 3, 2, 1, 2>(); break;
    case 2: tensors<double, 1, 2, 3, 3>(); break;
    case 3: tensors<double, 2, 1, 1, 1>(); break;
    case 4: tensors<float, 2, 2, 2, 3>(); break;
    case 5: tensors<int, 3, 2, 2, 2>(); break;
    case 6: tensors<double, 3, 3, 3, 3>(); break;
  }
  vp_cover("static");
}
