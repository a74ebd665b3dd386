// The mathematical helpers.
// vp: variants debug ndebug
// bound: all integers and all floating-point numbers for the powers of two, absolute values, minima, maxima and parts; floor for all numbers up to 2^53; powers up to 9 of integers up to 20 as doubles, up to 3 of all integers whose power fits, up to 30 of integers up to 4
#include "vp.h"
#include <il/math.h>
#include <cfloat>
#include <climits>

static void any(int& x, const char* n) { x = vp_i32(n); }
static void any(il::int_t& x, const char* n) { x = vp_i64(n); }
static void any(double& x, const char* n) { x = vp_double(n); vp_assume(x == x); }
static void any(float& x, const char* n) { uint32_t u = vp_u32(n); __builtin_memcpy(&x, &u, 4); vp_assume(x == x); }
VP_ENTRY(M02_powers_of_two) {
  switch (vp_pick("f", 0, 5)) {
    case 0: {
      const unsigned x = vp_u32("x");
      vp_assume(x >= 1);
      const unsigned r = il::previous_power_of_2_32(x);
      vp_assert((r != 0) & ((r & (r - 1)) == 0) & (r <= x) & (x - r < r), "previous power of 2");
      break;
    }
    case 1: {
      const uint64_t x = vp_u64("x");
      vp_assume(x >= 1);
      const uint64_t r = il::previous_power_of_2_64(x);
      vp_assert((r != 0) & ((r & (r - 1)) == 0) & (r <= x) & (x - r < r), "previous power of 2");
      break;
    }
    case 2: {
      const unsigned x = vp_u32("x");
      vp_assume(x >= 1);
      vp_assume(x <= 1u << 31);
      const unsigned r = il::next_power_of_2_32(x);
      vp_assert((r != 0) & ((r & (r - 1)) == 0) & (r >= x) & ((r >> 1) < x), "next power of 2");
      break;
    }
    case 3: {
      const uint64_t x = vp_u64("x");
      vp_assume(x >= 1);
      vp_assume(x <= (uint64_t)1 << 63);
      const uint64_t r = il::next_power_of_2_64(x);
      vp_assert((r != 0) & ((r & (r - 1)) == 0) & (r >= x) & ((r >> 1) < x), "next power of 2");
      break;
    }
    case 4: {
      const uint64_t x = vp_u64("x");
      const long k = vp_concretize(il::nextLog2(x));
      vp_assert(k >= 0 && k <= 64, "logarithm");
      if (k < 64) vp_assert((uint64_t)1 << k >= x, "logarithm too small");
      if (k > 0) vp_assert((uint64_t)1 << (k - 1) < x, "logarithm too large");
      break;
    }
    case 5: {
      const unsigned x = vp_u32("x");
      const long k = vp_concretize(il::next_log2_32(x));
      vp_assert(k >= 0 && k <= 32, "logarithm");
      if (k < 32) vp_assert(1u << k >= x, "logarithm too small");
      if (k > 0) vp_assert(1u << (k - 1) < x, "logarithm too large");
      break;
    }
  }
  vp_cover("power of two");
}
template <long n>
static double fixed(double x) { return il::ipow<n>(x); }
VP_ENTRY(M02_power) {
  switch (vp_pick("kind", 0, 3)) {
    case 0: {  // n known at compile time
      const double x = vp_dint("x", -20, 20);
      static double (*const f[])(double) = {fixed<0>, fixed<1>, fixed<2>, fixed<3>, fixed<4>, fixed<5>, fixed<6>, fixed<7>, fixed<8>, fixed<9>};
      const long n = vp_pick("n", 0, 9);
      double e = 1.0;
      for (long i = 0; i < n; ++i) e = e * x;
      vp_assert(f[n](x) == e, "power");
      break;
    }
    case 1: {
      const double x = vp_dint("x", -20, 20);
      const long n = vp_pick("n", 0, 9);
      double e = 1.0;
      for (long i = 0; i < n; ++i) e = e * x;
      vp_assert(il::ipow(x, n) == e, "power");
      break;
    }
    case 2: {  // integers: whenever the power fits
      const long n = vp_pick("n", 0, 3);
      static const long m[] = {INT_MAX, INT_MAX, 46340, 1290};
      const int x = (int)vp_int("x", -m[n], m[n]);
      int e = 1;
      for (long i = 0; i < n; ++i) e = e * x;
      vp_assert(il::ipow(x, n) == e, "power");
      break;
    }
    case 3: {
      const int x = (int)vp_pick("x", -4, 4);
      const long n = vp_pick("n", 0, 30);
      int e = 1;
      bool o = false;
      for (long i = 0; i < n; ++i) o = o || __builtin_mul_overflow(e, x, &e);
      vp_assume(!o);
      vp_assert(il::ipow(x, n) == e, "power");
      break;
    }
  }
  vp_cover("power");
}
template <typename T>
static void order() {
  T a, b, c, d, e, f;
  any(a, "a"); any(b, "b"); any(c, "c"); any(d, "d"); any(e, "e"); any(f, "f");
  T r = a;
  bool up = true;
  T v[6] = {a, b, c, d, e, f};
  long n = 0;
  switch (vp_pick("f", 0, 5)) {
    case 0: r = il::max(a, b); n = 2; break;
    case 1: r = il::max(a, b, c); n = 3; break;
    case 2: r = il::max(a, b, c, d); n = 4; break;
    case 3: r = il::max(a, b, c, d, e); n = 5; break;
    case 4: r = il::max(a, b, c, d, e, f); n = 6; break;
    case 5: r = il::min(a, b); n = 2; up = false; break;
  }
  bool in = false, all = true;
  for (long i = 0; i < n; ++i) { in = in | (r == v[i]); all = all & (up ? r >= v[i] : r <= v[i]); }
  vp_assert(in & all, "minimum or maximum");
  vp_cover("order");
}
VP_ENTRY(M02_order) {
  switch (vp_pick("type", 0, 3)) {
    case 0: order<int>(); break;
    case 1: order<il::int_t>(); break;
    case 2: order<double>(); break;
    case 3: order<float>(); break;
  }
}
template <typename T>
static void absolute(T lowest) {
  T x;
  any(x, "x");
  vp_assume(x >= lowest);
  const T r = il::abs(x);
  vp_assert((r >= 0) & ((r == x) | (r == -x)), "absolute value");
}
VP_ENTRY(M02_values) {
  switch (vp_pick("f", 0, 6)) {
    case 0: absolute<int>(-INT_MAX); break;
    case 1: absolute<il::int_t>(-LONG_MAX); break;
    case 2: absolute<double>(-__builtin_inf()); break;
    case 3: absolute<float>(-__builtin_inff()); break;
    case 4: {
      const double x = vp_double("x"), y = vp_double("y");
      const bool fx = __builtin_fabs(x) <= DBL_MAX, fy = __builtin_fabs(y) <= DBL_MAX;
      vp_assert(il::isFinite(x) == fx, "isFinite");
      vp_assert(il::isFinite(std::complex<double>{x, y}) == (fx & fy), "isFinite");
      break;
    }
    case 5: {
      double x, y;
      any(x, "x"); any(y, "y");
      const std::complex<double> z{x, y}, c = il::conjugate(z);
      vp_assert((il::real(z) == x) & (il::real(x) == x) & (c.real() == x) & (c.imag() == -y) & (il::conjugate(x) == x), "conjugate, real part");
      break;
    }
    case 6: {
      const double x = vp_dint("x", -100, 100), y = vp_dint("y", -100, 100);
      vp_assert(il::abs(std::complex<double>{x, y}) == __builtin_sqrt(x * x + y * y), "modulus");
      break;
    }
  }
  vp_cover("values");
}
VP_ENTRY(M02_floor) {
  switch (vp_pick("f", 0, 2)) {
    case 0: {
      const double x = vp_double("x");
      vp_assume(x > -9007199254740992.0);
      vp_assume(x < 9007199254740992.0);
      uint64_t u;
      __builtin_memcpy(&u, &x, 8);
      const long e = (long)(u >> 52 & 0x7ff) - 1023;
      const long m = (long)((u & (((uint64_t)1 << 52) - 1)) | (uint64_t)1 << 52);
      // the integer part and whether something was cut off
      const long t = e < 0 ? 0 : m >> (52 - e);
      const bool cut = e < 0 ? x != 0 : (t << (52 - e)) != m;
      const il::int_t r = il::floor(x);
      vp_assert(r == (x < 0 ? -t - (cut ? 1 : 0) : t), "floor");
      break;
    }
    case 1: {
      const il::int_t a = vp_i64("a"), b = vp_i64("b");
      vp_assume(a >= 0); vp_assume(b > 0);
      const il::int_t r = il::floor(a, b);
      vp_assert((r <= a) & (r >= 0) & (a - r < b), "floor");
      vp_assert(r % b == 0, "floor is not a multiple");
      break;
    }
    case 2: {
      const il::int_t a = vp_i64("a");
      const int b = vp_i32("b");
      vp_assume(a >= 0); vp_assume(b > 0);
      const il::int_t r = il::floor(a, b);
      vp_assert((r <= a) & (r >= 0) & (a - r < b), "floor");
      vp_assert(r % b == 0, "floor is not a multiple");
      break;
    }
  }
  vp_cover("floor");
}
