// Checked arithmetic: the result is exact or the error is reported.
// vp: variants debug ndebug
// bound: all values of int, long, long long and their unsigned types; products of two and three factors; products of four factors of any int, or of any non-negative long or long long
#include "vp.h"
#include <il/core/math/safe_arithmetic.h>

static void any(int& x, const char* n) { x = vp_i32(n); }
static void any(unsigned& x, const char* n) { x = vp_u32(n); }
static void any(long& x, const char* n) { x = vp_i64(n); }
static void any(unsigned long& x, const char* n) { x = vp_u64(n); }
static void any(long long& x, const char* n) { x = vp_i64(n); }
static void any(unsigned long long& x, const char* n) { x = vp_u64(n); }
// The error flag has any value before the call
static bool flag() { return vp_bool("flag"); }
template <typename T>
static void exact(T r, bool error, T expected, bool overflow) {
  vp_assert(error == overflow, "the error does not tell whether the result overflows");
  vp_assert(error | (r == expected), "the result is wrong");
  vp_cover("exact");
}
template <typename T>
static void sum() {
  T a, b, e;
  any(a, "a"); any(b, "b");
  bool error = flag();
  const bool o = __builtin_add_overflow(a, b, &e);
  exact<T>(il::safeSum(a, b, il::io, error), error, e, o);
}
template <typename T>
static void difference() {
  T a, b, e;
  any(a, "a"); any(b, "b");
  bool error = flag();
  const bool o = __builtin_sub_overflow(a, b, &e);
  exact<T>(il::safeDifference(a, b, il::io, error), error, e, o);
}
template <typename T>
static void product() {
  T a, b, e;
  any(a, "a"); any(b, "b");
  bool error = flag();
  const bool o = __builtin_mul_overflow(a, b, &e);
  exact<T>(il::safeProduct(a, b, il::io, error), error, e, o);
}
// Without error the result is exact; for positive factors there is no error without overflow
template <typename T>
static void product3() {
  T a, b, c, ab, e;
  any(a, "a"); any(b, "b"); any(c, "c");
  const bool positive = vp_flag("positive");
  if (positive) { vp_assume(a > 0); vp_assume(b > 0); vp_assume(c > 0); }
  bool error = flag();
  const T r = il::safeProduct(a, b, c, il::io, error);
  const bool oab = __builtin_mul_overflow(a, b, &ab);
  if (error) {
    vp_assume(positive);
    const bool oe = __builtin_mul_overflow(ab, c, &e);
    vp_assert(oab | oe, "an error is reported although the product does not overflow");
  } else {
    vp_assert(!oab | (c == 0), "an overflow is not reported");
    vp_assert(!oab | (r == 0), "the result is wrong");
    const bool oe = __builtin_mul_overflow(ab, c, &e);
    vp_assert(oab | !oe, "an overflow is not reported");
    vp_assert(oab | (r == e), "the result is wrong");
  }
  vp_cover("product3");
}
template <typename T>
static void product4() {
  T a, b, c, d, ab, cd, e;
  any(a, "a"); any(b, "b"); any(c, "c"); any(d, "d");
  const bool positive = vp_flag("positive");
  const T least = positive ? 1 : sizeof(T) == 8 ? 0 : (T)(1u << 31);
  vp_assume(a >= least); vp_assume(b >= least); vp_assume(c >= least); vp_assume(d >= least);
  bool error = flag();
  const T r = il::safeProduct(a, b, c, d, il::io, error);
  const bool oab = __builtin_mul_overflow(a, b, &ab), ocd = __builtin_mul_overflow(c, d, &cd), oe = __builtin_mul_overflow(ab, cd, &e);
  if (error) {
    vp_assume(positive);
    vp_assert(oab | ocd | oe, "an error is reported although the product does not overflow");
  } else {
    const bool zero = (a == 0) | (b == 0) | (c == 0) | (d == 0);
    vp_assert(!oab | zero, "an overflow is not reported");
    vp_assert(!ocd | zero, "an overflow is not reported");
    vp_assert(oab | ocd | !oe, "an overflow is not reported");
    vp_assert(oab | ocd | (r == e), "the result is wrong");
    vp_assert(!zero | (r == 0), "the result is wrong");
  }
  vp_cover("product4");
}
template <typename T>
static void division() {
  T a, b;
  any(a, "a"); any(b, "b");
  bool error = flag();
  const T r = il::safeDivision(a, b, il::io, error);
  const T min = (T)((T)1 << (sizeof(T) * 8 - 2)) * -2;
  const bool o = b == 0 || (b == -1 && a == min);
  vp_assert(error == o, "the error does not tell whether the quotient exists");
  if (!o) vp_assert(r == a / b, "the quotient is wrong");
  vp_cover("division");
}
template <typename T>
static void upper() {
  T a, b;
  any(a, "a"); any(b, "b");
  vp_assume(a >= 0);
  vp_assume(b > 0);
  bool error = flag();
  const T r = il::safeUpperRound(a, b, il::io, error);
  // the smallest multiple of b that is not below a
  const T m = a % b;
  T e = a;
  const bool o = m != 0 && __builtin_add_overflow(a, (T)(b - m), &e);
  exact<T>(r, error, e, o);
}
template <typename T, typename U>
static void convert() {
  U a;
  any(a, "a");
  bool error = flag();
  const T r = il::safeConvert<T>(a, il::io, error);
  // signed and unsigned types of one size differ on the numbers with the highest bit
  exact<T>(r, error, (T)a, (a >> (sizeof(U) * 8 - 1)) != 0);
}
VP_ENTRY(M01_sum) {
  switch (vp_pick("type", 0, 5)) {
    case 0: sum<int>(); break;
    case 1: sum<unsigned>(); break;
    case 2: sum<long>(); break;
    case 3: sum<unsigned long>(); break;
    case 4: sum<long long>(); break;
    case 5: sum<unsigned long long>(); break;
  }
}
VP_ENTRY(M01_difference) {
  switch (vp_pick("type", 0, 2)) {
    case 0: difference<int>(); break;
    case 1: difference<long>(); break;
    case 2: difference<long long>(); break;
  }
}
VP_ENTRY(M01_product) {
  switch (vp_pick("type", 0, 6)) {
    case 0: product<int>(); break;
    case 1: product<unsigned>(); break;
    case 2: product<long>(); break;
    case 3: product<unsigned long>(); break;
    case 4: product<long long>(); break;
    case 5: product<unsigned long long>(); break;
    case 6: {
      long a = vp_i64("a"), e;
      vp_assume(a >= 0);
      bool error = flag();
      const bool o = __builtin_mul_overflow(a, 2L, &e);
      exact<long>(il::safeProduct2Positive(a, il::io, error), error, e, o);
      break;
    }
  }
}
VP_ENTRY(M01_products) {
  switch (vp_pick("type", 0, 5)) {
    case 0: product3<int>(); break;
    case 1: product3<long>(); break;
    case 2: product3<long long>(); break;
    case 3: product4<int>(); break;
    case 4: product4<long>(); break;
    case 5: product4<long long>(); break;
  }
}
VP_ENTRY(M01_division) {
  switch (vp_pick("type", 0, 2)) {
    case 0: division<int>(); break;
    case 1: division<long>(); break;
    case 2: division<long long>(); break;
  }
}
VP_ENTRY(M01_round) {
  switch (vp_pick("type", 0, 2)) {
    case 0: upper<int>(); break;
    case 1: upper<long>(); break;
    case 2: upper<long long>(); break;
  }
}
VP_ENTRY(M01_convert) {
  switch (vp_pick("type", 0, 5)) {
    case 0: convert<int, unsigned>(); break;
    case 1: convert<unsigned, int>(); break;
    case 2: convert<long, unsigned long>(); break;
    case 3: convert<unsigned long, long>(); break;
    case 4: convert<long long, unsigned long long>(); break;
    case 5: convert<unsigned long long, long long>(); break;
  }
}
