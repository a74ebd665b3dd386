// Searching, ordering and averaging the elements of arrays.
// vp: variants debug ndebug
// bound: extrema of up to 4 elements (any integers, any floating-point numbers that are not NaN, -0 and infinities included) on all ranges; sort of up to 5 and binary search among up to 4 arbitrary elements; longer arrays of 17 elements in ascending, descending, constant, alternating and organ-pipe arrangement, one of them, in any place, or two of the first, middle and last, arbitrary; means and variances of up to 5 integers of absolute value up to 1000 as doubles
#include "vp.h"
#include <il/Array.h>
#include <il/Array2D.h>
#include <il/StaticArray.h>
#include <il/algorithmArray.h>
#include <il/algorithmArray2D.h>
#include <climits>

#ifdef VP_DEEP
static const long kN = 5, kS = 6, kL0 = 16, kL = 19;
#else
static const long kN = 4, kS = 5, kL0 = 17, kL = 17;
#endif
static void any(int& x, bool a) { x = vp_i32("x"); if (a) vp_assume(x != INT_MIN); }
static void any(long& x, bool a) { x = vp_i64("x"); if (a) vp_assume(x != LONG_MIN); }
static void any(double& x, bool) { x = vp_double("x"); vp_assume(x == x); }
template <typename T> static T mag(T x) { return x < 0 ? -x : x; }

template <typename T>
static void extrema() {
  const long n = vp_pick("n", 1, kN);
  const bool part = vp_pick("part", 0, 1);
  const long b = part ? vp_pick("begin", 0, n - 1) : 0, e = part ? vp_pick("end", b + 1, n) : n;
  const long f = vp_pick("f", 0, 6);
  const bool abs = f == 2 || f == 5;
  il::Array<T> v{n};
  for (long i = 0; i < n; ++i) any(v[i], abs);
  const il::Array<T>& c = v;
  const il::Range r{b, e};
  bool in = false, all = true;
  switch (f) {
    case 0: case 1: case 2: {
      const T x = f == 0 ? (part ? il::min(c, r) : il::min(c)) : f == 1 ? (part ? il::max(c, r) : il::max(c)) : part ? il::maxAbs(c, r) : il::maxAbs(c);
      for (long i = b; i < e; ++i) {
        const T y = abs ? mag(c[i]) : c[i];
        in = in | (x == y);
        all = all & (f == 0 ? x <= y : x >= y);
      }
      vp_assert(in & all, "extremum");
      break;
    }
    case 3: case 4: case 5: {
      const long k = vp_concretize(f == 3 ? (part ? il::indexMin(c, r) : il::indexMin(c)) : f == 4 ? (part ? il::indexMax(c, r) : il::indexMax(c)) : part ? il::indexMaxAbs(c, r) : il::indexMaxAbs(c));
      vp_assert(k >= b && k < e, "place of the extremum");
      for (long i = b; i < e; ++i) {
        const T x = abs ? mag(c[k]) : c[k], y = abs ? mag(c[i]) : c[i];
        all = all & (f == 3 ? x <= y : x >= y);
        if (i < k) in = in | (x == y);  // the first one
      }
      vp_assert(all, "place of the extremum");
      vp_assert(!in, "the first place of the extremum");
      break;
    }
    case 6: {
      const il::MinMax<T> m = part ? il::minMax(c, r) : il::minMax(c);
      bool in1 = false;
      for (long i = b; i < e; ++i) {
        in = in | (m.min == c[i]);
        in1 = in1 | (m.max == c[i]);
        all = all & (m.min <= c[i]) & (m.max >= c[i]);
      }
      vp_assert(in & in1 & all, "minimum and maximum");
      break;
    }
  }
  vp_cover("extrema");
}
VP_ENTRY(G01_extrema_int) { extrema<int>(); }
VP_ENTRY(G01_extrema_long) { extrema<long>(); }
VP_ENTRY(G01_extrema_double) { extrema<double>(); }
template <typename T>
static void columns() {
  const long m = vp_pick("m", 1, 3), n = vp_pick("n", 1, 2), j = vp_pick("j", 0, n - 1);
  const long b = vp_pick("begin", 0, m - 1), e = vp_pick("end", b + 1, m);
  il::Array2D<T> A{m, n};
  for (long i = 0; i < m; ++i) for (long k = 0; k < n; ++k) any(A(i, k), false);
  const il::MinMax<T> r = il::minMax(A, il::Range{b, e}, j);
  bool in = false, in1 = false, all = true;
  for (long i = b; i < e; ++i) {
    in = in | (r.min == A(i, j));
    in1 = in1 | (r.max == A(i, j));
    all = all & (r.min <= A(i, j)) & (r.max >= A(i, j));
  }
  vp_assert(in & in1 & all, "minimum and maximum of a column");
  vp_cover("column");
}
VP_ENTRY(G01_columns) {
  if (vp_pick("double", 0, 1)) columns<double>(); else columns<int>();
}

// w is a sorted arrangement of the n elements of x
template <typename T>
static void sorted(const T* w, const T* x, long n, const T& t) {
  bool ok = true;
  for (long i = 0; i + 1 < n; ++i) ok = ok & (w[i] <= w[i + 1]);
  vp_assert(ok, "not sorted");
  long a = 0, b = 0;  // every value as often as before
  for (long i = 0; i < n; ++i) { a += w[i] == t; b += x[i] == t; }
  vp_assert(a == b, "not the same elements");
}
template <typename T, typename X>
static void run(long how, X& x, long n) {
  T old[32], t;
  any(t, false);
  for (long i = 0; i < n; ++i) old[i] = x[i];
  il::Array<T> v{n};
  for (long i = 0; i < n; ++i) v[i] = x[i];
  if (how == 0) {
    il::sort(il::io, v);
    vp_assert(v.size() == n, "size after sorting");
    sorted(v.data(), old, n, t);
  } else {
    il::Array<T> w = il::sort(v);
    vp_assert(w.size() == n && v.size() == n, "size after sorting");
    sorted(w.data(), old, n, t);
    bool ok = true;
    for (long i = 0; i < n; ++i) ok = ok & (v[i] == old[i]);
    vp_assert(ok, "sorting a copy changed the array");
  }
  vp_cover("sorted");
}
template <typename T>
static void shortSort() {
  const long n = vp_pick("n", 0, kS);
  T x[8];
  for (long i = 0; i < n; ++i) any(x[i], false);
  run<T>(vp_pick("how", 0, 1), x, n);
}
VP_ENTRY(G01_sort_short_int) { shortSort<int>(); }
VP_ENTRY(G01_sort_short_double) { shortSort<double>(); }
VP_ENTRY(G01_sort_long) {
  const long n = vp_pick("n", kL0, kL);
  const long shape = vp_pick("shape", 0, 4);
  int x[32];
  for (long i = 0; i < n; ++i) {
    switch (shape) {
      case 0: x[i] = (int)i; break;
      case 1: x[i] = (int)(n - i); break;
      case 2: x[i] = 7; break;
      case 3: x[i] = (int)(i % 2); break;
      case 4: x[i] = (int)(i < n / 2 ? i : n - i); break;
    }
  }
  const long p = vp_pick("p", 0, n + 2);
  const long places[] = {0, n / 2, n - 1};
  if (p < n) {
    x[p] = vp_i32("y");
  } else {
    x[places[(p - n) % 3]] = vp_i32("y");
    x[places[(p - n + 1) % 3]] = vp_i32("z");
  }
  run<int>(0, x, n);
}
VP_ENTRY(G01_search) {
  const long n = vp_pick("n", 0, kN);
  il::Array<int> v{n};
  const int t = vp_i32("t");
  bool in = false;
  for (long i = 0; i < n; ++i) {
    v[i] = vp_i32("x");
    if (i > 0) vp_assume(v[i - 1] <= v[i]);
    in = in | (v[i] == t);
  }
  const long k = vp_concretize(il::binarySearch(v, t));
  vp_assert(k >= -1 && k < n, "place of an element");
  if (k < 0) vp_assert(!in, "element not found");
  else vp_assert(v[k] == t, "place of an element");
  vp_cover("search");
}
// the mean of integers whose mean is an integer, and sums of squares
VP_ENTRY(G01_mean) {
  const long n = vp_pick("n", 1, 5);
  il::Array<double> v{n};
  double s = 0;
  const double m = vp_dint("mean", -1000, 1000);
  for (long i = 0; i + 1 < n; ++i) { v[i] = vp_dint("x", -1000, 1000); s += v[i]; }
  v[n - 1] = (double)n * m - s;
  vp_assert(il::mean(v) == m, "mean");
  const bool sample = n > 1 && vp_pick("sample", 0, 1);
  const il::VarianceKind k = sample ? il::VarianceKind::Sample : il::VarianceKind::Population;
  double q = 0;
  for (long i = 0; i < n; ++i) q += (v[i] - m) * (v[i] - m);
  const double e = q / (double)(sample ? n - 1 : n);
  vp_assert(il::variance(v, k) == e, "variance");
  const il::MeanVariance<double> b = il::meanVariance(v, k);
  vp_assert(b.mean == m, "mean");
  vp_assert(b.variance == e, "variance");
  vp_cover("mean");
}
