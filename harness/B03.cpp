// Array3D<T> (column-major) and Array3C<T> (row-major): value semantics against a reference box.
// vp: variants debug ndebug
// bound: every extent 0..2 with 0 or 1 spare in each direction, then every operation with extents 0..2 (VP_DEEP: 0..3); any element values
// bound: a trivial element type (int) and one that owns memory and checks its own lifetime
#include <il/Array3D.h>
#include <il/Array3C.h>
#include "nd.h"
#ifdef VP_DEEP
static const long kHi = 3;
#else
static const long kHi = 2;
#endif

template <typename T_>
struct M3D : il::Array3D<T_> {
  using il::Array3D<T_>::Array3D;
  M3D() {}
  void Resize_(const long* n) { this->Resize(n[0], n[1], n[2]); }
  void Reserve_(const long* n) { this->Reserve(n[0], n[1], n[2]); }
};
template <typename T_>
struct Tr3D {
  typedef T_ T;
  typedef M3D<T_> A;
  static const int R = 3;
  static const bool column_major = true;
  static const T& at(const A& a, const Idx& k) { return a(k.i[0], k.i[1], k.i[2]); }
  static T& at(A& a, const Idx& k) { return a(k.i[0], k.i[1], k.i[2]); }
  static A make(const long* n) { return A(n[0], n[1], n[2]); }
  static A make(const long* n, const T& x) { return A(n[0], n[1], n[2], x); }
  static void extra(A& a, Box<3>& m, long hi) {
    if (!vp_flag("list")) return;
    int x[8];
    for (int k = 0; k < 8; ++k) x[k] = vp_i32("x");
    m.n[0] = m.n[1] = m.n[2] = 2;
    A c(il::value, {{{T(x[0]), T(x[1])}, {T(x[2]), T(x[3])}}, {{T(x[4]), T(x[5])}, {T(x[6]), T(x[7])}}});
    each<3>(m.n, [&](const Idx& k) { m.at(k) = x[4 * k.i[2] + 2 * k.i[1] + k.i[0]]; });
    a = c;
  }
};

template <typename T_>
struct M3C : il::Array3C<T_> {
  using il::Array3C<T_>::Array3C;
  M3C() {}
  void Resize_(const long* n) { this->Resize(n[0], n[1], n[2]); }
  void Reserve_(const long* n) { this->Reserve(n[0], n[1], n[2]); }
};
template <typename T_>
struct Tr3C {
  typedef T_ T;
  typedef M3C<T_> A;
  static const int R = 3;
  static const bool column_major = false;
  static const T& at(const A& a, const Idx& k) { return a(k.i[0], k.i[1], k.i[2]); }
  static T& at(A& a, const Idx& k) { return a(k.i[0], k.i[1], k.i[2]); }
  static A make(const long* n) { return A(n[0], n[1], n[2]); }
  static A make(const long* n, const T& x) { return A(n[0], n[1], n[2], x); }
  static void extra(A& a, Box<3>& m, long hi) {
    if (!vp_flag("list")) return;
    int x[8];
    for (int k = 0; k < 8; ++k) x[k] = vp_i32("x");
    m.n[0] = m.n[1] = m.n[2] = 2;
    A c(il::value, {{{T(x[0]), T(x[1])}, {T(x[2]), T(x[3])}}, {{T(x[4]), T(x[5])}, {T(x[6]), T(x[7])}}});
    each<3>(m.n, [&](const Idx& k) { m.at(k) = x[4 * k.i[0] + 2 * k.i[1] + k.i[2]]; });
    a = c;
  }
};

VP_ENTRY(B03_3D_int) { history<Tr3D<int>>(kHi, 2, 1, true); }
VP_ENTRY(B03_3D_obj) { history<Tr3D<VpObj>>(kHi, 2, 1, true); }
VP_ENTRY(B03_3C_int) { history<Tr3C<int>>(kHi, 2, 1, true); }
VP_ENTRY(B03_3C_obj) { history<Tr3C<VpObj>>(kHi, 2, 1, true); }

VP_ENTRY(B03_3D_aligned) {
  const long alignment = 16, mod = 32, r = alignment * vp_pick("r", 0, 1);
  vp_malloc_skew(16 * vp_pick("skew", 0, 1));
  const long n0 = vp_pick("n0", 0, 3), n1 = vp_pick("n1", 0, 2), n2 = vp_pick("n2", 0, 3);
  double x = vp_dint("x", -1000, 1000);
  typedef il::Array3D<double> A;
  A a = vp_flag("valued") ? A{n0, n1, n2, x, il::align, alignment, r, mod} : A{n0, n1, n2, il::align, alignment, r, mod};
  for (long i = 0; i < n0; ++i) for (long j = 0; j < n1; ++j) for (long k = 0; k < n2; ++k) a(i, j, k) = x + (double)(i + 10 * j + 100 * k);
  vp_malloc_skew(16 * vp_pick("skew", 0, 1));
  A b;
  switch (vp_pick("op", 0, 4)) {
    case 0: b = a; break;
    case 1: b = A{a}; break;
    case 2: b = std::move(a); break;
    case 3: a.Resize(n0 + 1, n1, n2 + 1); b = a; break;
    case 4: a.Reserve(n0 + 1, n1 + 1, n2 + 1); b = std::move(a); break;
  }
  bool ok = true;
  for (long i = 0; i < n0; ++i) for (long j = 0; j < n1; ++j) for (long k = 0; k < n2; ++k) ok = ok & (b(i, j, k) == x + (double)(i + 10 * j + 100 * k));
  vp_assert(ok, "element lost");
  if (n0 > 0 && n1 > 0 && n2 > 0) {
    vp_assert(b.alignment() == alignment, "alignment lost");
    vp_assert((std::size_t)b.data() % (std::size_t)mod == (std::size_t)r, "storage is not at the requested address");
    for (long i = 0; i < n1; ++i) for (long j = 0; j < n2; ++j) vp_assert((std::size_t)&b(0, i, j) % (std::size_t)alignment == 0, "line is not aligned");
  }
  vp_cover("aligned");
}

VP_ENTRY(B03_3C_aligned) {
  const long alignment = 16, mod = 32, r = alignment * vp_pick("r", 0, 1);
  vp_malloc_skew(16 * vp_pick("skew", 0, 1));
  const long n0 = vp_pick("n0", 0, 3), n1 = vp_pick("n1", 0, 2), n2 = vp_pick("n2", 0, 3);
  double x = vp_dint("x", -1000, 1000);
  typedef il::Array3C<double> A;
  A a = vp_flag("valued") ? A{n0, n1, n2, x, il::align, alignment, r, mod} : A{n0, n1, n2, il::align, alignment, r, mod};
  for (long i = 0; i < n0; ++i) for (long j = 0; j < n1; ++j) for (long k = 0; k < n2; ++k) a(i, j, k) = x + (double)(i + 10 * j + 100 * k);
  vp_malloc_skew(16 * vp_pick("skew", 0, 1));
  A b;
  switch (vp_pick("op", 0, 4)) {
    case 0: b = a; break;
    case 1: b = A{a}; break;
    case 2: b = std::move(a); break;
    case 3: a.Resize(n0 + 1, n1, n2 + 1); b = a; break;
    case 4: a.Reserve(n0 + 1, n1 + 1, n2 + 1); b = std::move(a); break;
  }
  bool ok = true;
  for (long i = 0; i < n0; ++i) for (long j = 0; j < n1; ++j) for (long k = 0; k < n2; ++k) ok = ok & (b(i, j, k) == x + (double)(i + 10 * j + 100 * k));
  vp_assert(ok, "element lost");
  if (n0 > 0 && n1 > 0 && n2 > 0) {
    vp_assert(b.alignment() == alignment, "alignment lost");
    vp_assert((std::size_t)b.data() % (std::size_t)mod == (std::size_t)r, "storage is not at the requested address");
    for (long i = 0; i < n0; ++i) for (long j = 0; j < n1; ++j) vp_assert((std::size_t)&b(i, j, 0) % (std::size_t)alignment == 0, "line is not aligned");
  }
  vp_cover("aligned");
}
