// Sizes that do not fit in memory
// vp: variants ndebug
// bound: arrays of 1 and 2 dimensions (one of them among 5, from 1 to 2^63 - 1), strings and deques of any size up to 2^63 - 1, arrays of 3 and 4 dimensions of sizes among 12; elements of 1, 8 and (arrays) 24 bytes; the allocator is asked for any size and gives it
#include "vp.h"
#include <il/Array.h>
#include <il/SmallArray.h>
#include <il/Array2D.h>
#include <il/Array2C.h>
#include <il/Array3D.h>
#include <il/Array3C.h>
#include <il/Array4D.h>
#include <il/Array4C.h>
#include <il/String.h>
#include <il/Deque.h>
#include <il/LowerArray2D.h>
#include <il/UpperArray2D.h>
#include <il/BandArray2C.h>

struct P { long a, b, c; };
typedef unsigned __int128 big;
static const big kMax = (big)1 << 56;
static long any(const char* name) { return vp_int(name, 0, 9223372036854775807); }
static long some(const char* name) {
  static const long n[] = {0, 1, 2, 3, 1000003, 55109, 2097152, 3037000500, 4294967296, 1152921504606846976, 4611686018427387904, 9223372036854775807};
  return n[vp_pick(name, 0, 11)];
}
// abort() is only right when the memory could not be provided; otherwise there is memory for every element
static void begin(big bytes) { vp_sym_malloc(1); vp_abort_ok(bytes >= kMax); }
static void end(big bytes) {
  vp_assert(((big)(uint64_t)vp_last_malloc() >= bytes), "the memory is smaller than the elements");
  vp_cover("allocated");
  vp_sym_malloc(0);
}
template <typename T> static void array() {
  const long n = any("n");
  const big b = (big)n * sizeof(T);
  vp_assume(n > 0);
  begin(b);
  il::Array<T> v{n};
  end(b);
  vp_assert(v.size() == n && v.capacity() >= n, "size");
}
VP_ENTRY(M03_array_char) { array<char>(); }
VP_ENTRY(M03_array_double) { array<double>(); }
template <typename T> static void grow() {
  il::Array<T> v{vp_pick("old", 0, 2)};
  const long n = any("n");
  vp_assume(n > 2);
  const big b = (big)n * sizeof(T);
  begin(b);
  if (vp_flag("reserve")) {
    v.Reserve(n);
  } else {
    v.Resize(n);
    vp_assert(v.size() == n, "size");
  }
  vp_assert(v.capacity() >= n, "capacity");
  end(b);
}
VP_ENTRY(M03_array_grow_double) { grow<double>(); }
VP_ENTRY(M03_array_reserve_struct) {
  il::Array<P> v{vp_pick("old", 0, 2)};
  const long n = any("n");
  vp_assume(n > 2);
  const big b = (big)n * sizeof(P);
  begin(b);
  v.Reserve(n);
  vp_assert(v.capacity() >= n, "capacity");
  end(b);
}
VP_ENTRY(M03_array_aligned) {
  const long n = any("n");
  const big b = (big)n * 8;
  vp_assume(n > 0);
  begin(b);
  il::Array<double> v{n, il::align, 32};
  end(b + 31);
}
VP_ENTRY(M03_small_array) {
  const long n = any("n");
  vp_assume(n > 3);
  const big b = (big)n * 8;
  begin(b);
  switch (vp_pick("how", 0, 2)) {
    case 0: { il::SmallArray<double, 3> v{n}; vp_assert(v.size() == n, "size"); end(b); } break;
    case 1: { il::SmallArray<double, 3> v{}; v.Resize(n); vp_assert(v.size() == n, "size"); end(b); } break;
    default: { il::SmallArray<double, 3> v{}; v.Reserve(n); vp_assert(v.capacity() >= n, "capacity"); end(b); }
  }
}
static long few(const char* name) {
  static const long n[] = {1, 2, 3, 4294967296, 4611686018427387904};
  return n[vp_pick(name, 0, 4)];
}
template <typename A> static void two() {
  const bool first = vp_flag("first");
  const long n0 = first ? few("n0") : any("n0"), n1 = first ? any("n1") : few("n1");
  vp_assume((n0 > 0) & (n1 > 0));
  // 3 factors: 2^63 x 2^63 x 8 does not fit
  const big product = (big)n0 * (big)n1;
  const big bytes = (product >> 100) != 0 ? (big)1 << 110 : product * 8;
  begin(bytes);
  switch (vp_pick("how", 0, 2)) {
    case 0: { A a{n0, n1}; vp_assert(a.size(0) == n0 && a.size(1) == n1, "size"); end(bytes); } break;
    case 1: { A a{}; a.Resize(n0, n1); vp_assert(a.size(0) == n0 && a.size(1) == n1, "size"); end(bytes); } break;
    default: { A a{}; a.Reserve(n0, n1); vp_assert(a.capacity(0) >= n0 && a.capacity(1) >= n1, "capacity"); end(bytes); }
  }
}
VP_ENTRY(M03_two_double) { two<il::Array2D<double>>(); }
VP_ENTRY(M03_two_rows_double) { two<il::Array2C<double>>(); }
static big product(const long* n, int k, big size) {
  big b = size;
  for (int i = 0; i < k; ++i) {
    b *= (big)n[i];
    if (b >= ((big)1 << 64)) b = (big)1 << 64;
  }
  return b;
}
template <typename A> static void three() {
  long n[3];
  for (int i = 0; i < 3; ++i) n[i] = some("n");
  vp_assume(n[0] > 0 && n[1] > 0 && n[2] > 0);
  const big b = product(n, 3, 8);
  begin(b);
  if (vp_flag("resize")) {
    A a{};
    a.Resize(n[0], n[1], n[2]);
    end(b);
  } else {
    A a{n[0], n[1], n[2]};
    end(b);
  }
}
VP_ENTRY(M03_three) { three<il::Array3D<double>>(); }
VP_ENTRY(M03_three_rows) { three<il::Array3C<double>>(); }
template <typename A> static void four() {
  long n[4];
  for (int i = 0; i < 4; ++i) n[i] = some("n");
  vp_assume(n[0] > 0 && n[1] > 0 && n[2] > 0 && n[3] > 0);
  const big b = product(n, 4, 8);
  begin(b);
  A a{n[0], n[1], n[2], n[3]};
  end(b);
}
VP_ENTRY(M03_four) { four<il::Array4D<double>>(); }
VP_ENTRY(M03_four_rows) { four<il::Array4C<double>>(); }
VP_ENTRY(M03_string) {
  const long n = any("n");
  vp_assume(n > 100);
  begin((big)n + 1);
  il::String s{};
  s.Reserve(n);
  vp_assert(s.capacity() >= n, "capacity");
  end((big)n + 1);
}
VP_ENTRY(M03_deque) {
  const long n = any("n");
  vp_assume(n > 0);
  const big b = (big)n * 8;
  begin(b);
  il::Deque<double> d{n};
  end(b);
}
