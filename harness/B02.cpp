// Array2C<T> (row-major): value semantics against a reference matrix.
// vp: variants debug ndebug
// bound: every extent 0..2, then every sequence of 2 operations with extents 0..2 (VP_DEEP: also from every state with a spare row or column); every extent 0..3 with 0 or 1 spare row/column, then one operation with extents 0..3; any element values
// bound: a trivial element type (int) and one that owns memory and checks its own lifetime
#include <il/Array2C.h>
#include "nd.h"
#ifdef VP_DEEP
#define VP_SPARE true
#else
#define VP_SPARE false
#endif

template <typename T_>
struct M2C : il::Array2C<T_> {
  using il::Array2C<T_>::Array2C;
  M2C() {}
  void Resize_(const long* n) { this->Resize(n[0], n[1]); }
  void Reserve_(const long* n) { this->Reserve(n[0], n[1]); }
};
template <typename T_>
struct Tr2C {
  typedef T_ T;
  typedef M2C<T_> A;
  static const int R = 2;
  static const bool column_major = false;
  static const T& at(const A& a, const Idx& k) { return a(k.i[0], k.i[1]); }
  static T& at(A& a, const Idx& k) { return a(k.i[0], k.i[1]); }
  static A make(const long* n) { return A(n[0], n[1]); }
  static A make(const long* n, const T& x) { return A(n[0], n[1], x); }
  static void extra(A& a, Box<2>& m, long hi) {
    switch (vp_pick("extra", 0, 1)) {
      case 0: { int x = vp_i32("x"); a.Set(T(x)); each<2>(m.n, [&](const Idx& k) { m.at(k) = x; }); break; }
      case 1: {
        int x[6];
        for (int k = 0; k < 6; ++k) x[k] = vp_i32("x");
        m.n[0] = 2; m.n[1] = 3;
        A c(il::value, {{T(x[0]), T(x[1]), T(x[2])}, {T(x[3]), T(x[4]), T(x[5])}});
        each<2>(m.n, [&](const Idx& k) { m.at(k) = x[3 * k.i[0] + k.i[1]]; });
        a = c;
        break;
      }
    }
    const il::Array2C<T>& ca = a;
    for (long i = 0; i < m.n[0]; ++i) vp_assert(ca.data(i) == ca.data() + i * ca.stride(0) && a.Data(i) == ca.data(i), "row pointer");
    vp_assert(ca.stride(1) == 1, "stride of the columns");
  }
};

VP_ENTRY(B02_int) { history<Tr2C<int>>(2, 2, 2, VP_SPARE); }
VP_ENTRY(B02_obj) { history<Tr2C<VpObj>>(2, 2, 2, VP_SPARE); }
VP_ENTRY(B02_big_int) { history<Tr2C<int>>(3, 2, 1, true); }
VP_ENTRY(B02_big_obj) { history<Tr2C<VpObj>>(3, 2, 1, true); }

// aligned rows
VP_ENTRY(B02_aligned) {
  const long alignment = vp_pick("alignment", 0, 1) ? 16 : 32, mod = alignment * 2, r = alignment * vp_pick("r", 0, 1);
  vp_malloc_skew(16 * vp_pick("skew", 0, 3));
  long n[2] = {vp_pick("n0", 0, 2), vp_pick("n1", 0, 3)};
  double x = vp_dint("x", -1000, 1000);
  il::Array2C<double> a = vp_flag("valued") ? il::Array2C<double>{n[0], n[1], x, il::align, alignment, r, mod} : il::Array2C<double>{n[0], n[1], il::align, alignment, r, mod};
  for (long i = 0; i < n[0]; ++i) for (long j = 0; j < n[1]; ++j) a(i, j) = x + (double)(i + 10 * j);
  vp_malloc_skew(16 * vp_pick("skew", 0, 3));
  il::Array2C<double> b;
  switch (vp_pick("op", 0, 5)) {
    case 0: b = a; break;
    case 1: b = il::Array2C<double>{a}; break;
    case 2: b = std::move(a); break;
    case 3: a.Resize(n[0] + 1, n[1] + 1); b = a; break;
    case 4: a.Reserve(n[0] + 3, n[1] + 1); b = std::move(a); break;
    case 5: b = il::Array2C<double>{2, 2, 0.0}; b = a; break;
  }
  bool ok = true;
  for (long i = 0; i < n[0]; ++i) for (long j = 0; j < n[1]; ++j) ok = ok & (b(i, j) == x + (double)(i + 10 * j));
  vp_assert(ok, "element lost");
  if (n[0] > 0 && n[1] > 0) {
    vp_assert(b.alignment() == alignment, "alignment lost");
    vp_assert((std::size_t)b.data() % (std::size_t)mod == (std::size_t)r, "storage is not at the requested address");
    for (long i = 0; i < n[0]; ++i) vp_assert((std::size_t)b.data(i) % (std::size_t)alignment == 0, "row is not aligned");
    vp_assert(vp_bytes_left(b.data()) >= (int64_t)(b.capacity(0) * b.capacity(1) * 8), "memory smaller than the capacity");
  }
  vp_cover("aligned");
}
