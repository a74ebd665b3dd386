// Programs whose verdict is known: good_* hold, bad_<kind>_* must be reported with that kind.
// vp: variants ndebug
#include "vp.h"
#include <cctype>
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <new>

// --- integers
VP_ENTRY(good_divmod) {
  int a = vp_i32("a"), b = vp_i32("b");
  vp_assume(b != 0 && !(b == -1 && a == -2147483647 - 1));
  vp_assume(b > -8 && b < 8);
  vp_assert(a / b * b + a % b == a, "division");
}
VP_ENTRY(bad_assert_divmod) {
  int a = vp_i32("a"), b = vp_int("b", 1, 7);
  vp_assert(a % b >= 0, "remainder of a negative number");
}
VP_ENTRY(bad_undefined_add) {
  int a = vp_i32("a");
  volatile int c = a + 1;
  (void)c;
}
VP_ENTRY(bad_undefined_shift) {
  int s = vp_int("s", 0, 64);
  volatile long c = 1L << s;
  (void)c;
}
VP_ENTRY(good_shift) {
  int s = vp_int("s", 0, 63);
  unsigned long c = 1UL << s;
  vp_assert(c != 0 && (c & (c - 1)) == 0 && c >> s == 1, "power of two");
}
VP_ENTRY(good_mul128) {
  unsigned a = vp_u32("a"), b = vp_u32("b");
  vp_assert((unsigned long)a * b == (unsigned long)b * a, "commutative");
}
VP_ENTRY(bad_assert_one_value) {
  unsigned long a = vp_u64("a");
  vp_assert((a ^ 0x123456789abcdefUL) * 3 != 0x123UL, "one value in 2^64");
}
VP_ENTRY(good_saturate) {
  unsigned a = vp_u32("a"), b = vp_u32("b");
  unsigned d = a > b ? a - b : 0;
  vp_assert(d <= a && (a <= b || d == a - b) && (a > b || d == 0), "saturating difference");
}
// --- branches and loops
VP_ENTRY(good_loop) {
  long n = vp_int("n", 0, 10), s = 0;
  for (long i = 1; i <= n; ++i) s += i;
  vp_assert(s == n * (n + 1) / 2, "sum");
}
VP_ENTRY(bad_assert_loop) {
  long n = vp_int("n", 0, 10), s = 0;
  for (long i = 1; i <= n; ++i) s += i;
  vp_assert(s != 55, "reached at the last value");
}
VP_ENTRY(bad_steps_forever) {
  volatile long n = vp_int("n", 0, 3);
  while (n == 2) {}
}
// --- memory
VP_ENTRY(bad_out_over) {
  int* p = new int[4];
  for (int i = 0; i < 4; ++i) p[i] = i;
  long i = vp_int("i", 0, 4);
  vp_assert(p[i] >= 0, "read");
  delete[] p;
}
VP_ENTRY(good_index) {
  int* p = new int[4];
  for (int i = 0; i < 4; ++i) p[i] = i * i;
  long i = vp_int("i", 0, 3), j = vp_int("j", 0, 3);
  p[j] = -1;
  vp_assert(p[i] == (i == j ? -1 : i * i), "store and load");
  delete[] p;
}
VP_ENTRY(bad_assert_alias) {
  int p[4] = {1, 2, 3, 4};
  long i = vp_int("i", 0, 3), j = vp_int("j", 0, 3);
  p[j] = 9;
  vp_assert(p[i] != 9 , "aliasing stores");
}
VP_ENTRY(bad_free_use) {
  int* p = (int*)malloc(4);
  *p = 1;
  bool b = vp_bool("b");
  if (b) free(p);
  vp_assert(*p == 1, "read");
  if (!b) free(p);
}
VP_ENTRY(bad_free_twice) {
  char* p = (char*)malloc(4);
  free(p);
  if (vp_bool("b")) free(p);
}
VP_ENTRY(bad_leak_) {
  int* p = new int(3);
  if (vp_int("i", 0, 9) != 7) delete p;
}
VP_ENTRY(bad_uninit_branch) {
  int* p = (int*)malloc(8);
  p[0] = 1;
  long i = vp_int("i", 0, 1);
  int r = p[i] > 0 ? 1 : 2;
  vp_assert(r == 1, "decided by an uninitialised value");
  free(p);
}
VP_ENTRY(good_uninit_copy) {
  struct S { char c; int i; };
  S* p = (S*)malloc(sizeof(S));
  p->c = 1; p->i = 2;
  S q = *p;
  vp_assert(q.c == 1 && q.i == 2, "padding may be copied");
  free(p);
}
VP_ENTRY(bad_mismatch_) {
  int* p = new int[2];
  delete p;
}
VP_ENTRY(bad_null_) {
  int* p = vp_int("i", 0, 5) == 3 ? nullptr : new int(1);
  vp_assert(*p == 1, "read");
  delete p;
}
// --- calls to abort
VP_ENTRY(bad_abort_) {
  if (vp_u32("x") == 77777) abort();
}
VP_ENTRY(good_abort) {
  unsigned x = vp_u32("x");
  vp_abort_ok(x == 77777);
  if (x == 77777) abort();
  vp_assert(x != 77777, "only then");
}
VP_ENTRY(bad_abort_missing) {
  unsigned x = vp_u32("x");
  vp_abort_ok(x < 10);
  if (x < 9) abort();
  vp_assert(!(x < 10), "has to stop");
}
// --- floating-point numbers
VP_ENTRY(good_double) {
  double x = vp_double("x");
  vp_assert(x != x || (x < 0) + (x == 0) + (x > 0) == 1, "ordered");
}
VP_ENTRY(bad_assert_nan) {
  double x = vp_double("x");
  vp_assert(x == x, "NaN");
}
VP_ENTRY(bad_assert_minus_zero) {
  double x = vp_double("x");
  vp_assert(x != 0 || 1 / x > 0, "minus zero");
}
VP_ENTRY(bad_assert_round) {
  double x = vp_dint("x", -1000, 1000);
  vp_assert((x + 1e300) - 1e300 == x, "absorption");
}
VP_ENTRY(good_integers_exact) {
  double x = vp_dint("x", -1000, 1000), y = vp_dint("y", -1000, 1000);
  vp_assert((x + y) * (x - y) == x * x - y * y, "exact for small integers");
}
VP_ENTRY(good_minmax) {
  double x = vp_dint("x", -9, 9), y = vp_dint("y", -9, 9);
  double a = std::fmin(x, y), b = std::fmax(x, y);
  vp_assert(a <= b && (a == x || a == y) && a + b == x + y, "minimum and maximum");
}
VP_ENTRY(good_ceil) {
  double x = vp_dint("x", -9, 9);
  vp_assert(std::ceil(x) == x && std::trunc(x) == x && std::floor(x) == x, "of integers");
  vp_assert(std::ceil(0.5) == 1 && std::ceil(-0.5) == 0 && std::trunc(-1.5) == -1 && std::trunc(1.5) == 1 && std::floor(-0.5) == -1, "of fractions");
}
// --- C library
VP_ENTRY(good_strtol) {
  char s[4] = {(char)vp_int("c", 32, 127), (char)vp_int("d", 32, 127), 0, 0};
  char* e;
  long v = strtol(s, &e, 10);
  bool d0 = s[0] >= '0' && s[0] <= '9', d1 = s[1] >= '0' && s[1] <= '9';
  if (d0) vp_assert(v == (d1 ? (s[0] - '0') * 10 + s[1] - '0' : s[0] - '0') && e == s + (d1 ? 2 : 1), "digits");
  else if (d1 && s[0] == '-') vp_assert(v == '0' - s[1] && e == s + 2, "sign");
  else if (d1 && (s[0] == '+' || s[0] == ' ')) vp_assert(v == s[1] - '0' && e == s + 2, "sign or blank");
  else vp_assert(v == 0 && e == s, "no number");
}
VP_ENTRY(good_str) {
  char s[6] = {(char)vp_int("c", 1, 3), (char)vp_int("d", 1, 3), (char)vp_int("e", 0, 3), 0, 0, 0};
  char* p = strstr(s, "\1\2");
  bool at0 = s[0] == 1 && s[1] == 2, at1 = s[1] == 1 && s[2] == 2;
  vp_assert(p == (at0 ? s : at1 ? s + 1 : nullptr), "strstr");
  vp_assert(strspn(s, "\1") + strlen(s + strspn(s, "\1")) == strlen(s) && strcspn(s, "\3") <= strlen(s), "spans");
  vp_assert(strnlen(s, 2) == 2 && toupper('a') == 'A' && tolower('Z') == 'z' && isxdigit('f') && !isxdigit('g'), "characters");
}
VP_ENTRY(good_sort) {
  long a[4];
  for (int i = 0; i < 4; ++i) a[i] = vp_i64("a");
  std::sort(a, a + 4);
  vp_assert(a[0] <= a[1] && a[1] <= a[2] && a[2] <= a[3], "sorted");
}
// --- lifetimes
VP_ENTRY(bad_life_copy) {
  alignas(VpObj) char b[sizeof(VpObj)], c[sizeof(VpObj)];
  VpObj* p = new (b) VpObj(3);
  memcpy(c, b, sizeof(VpObj));
  if (vp_bool("b")) ((VpObj*)c)->~VpObj(); else p->~VpObj();
}
VP_ENTRY(bad_assert_after_destructor) {
  alignas(VpObj) char b[sizeof(VpObj)];
  new (b) VpObj(3);
  ((VpObj*)b)->~VpObj();
  vp_assert(((VpObj*)b)->value() == 3 || vp_live() == 0, "x");
}
