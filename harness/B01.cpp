// Array2D<T> (column-major): value semantics against a reference matrix.
// vp: variants debug ndebug
// bound: every extent 0..2, then every sequence of 2 operations with extents 0..2 (VP_DEEP: also from every state with a spare row or column); every extent 0..3 with 0 or 1 spare row/column, then one operation with extents 0..3; any element values
// bound: a trivial element type (int) and one that owns memory and checks its own lifetime
#include <il/Array2D.h>
#include "nd.h"

template <typename T_>
struct M : il::Array2D<T_> {
  using il::Array2D<T_>::Array2D;
  M() {}
  void Resize_(const long* n) { this->Resize(n[0], n[1]); }
  void Reserve_(const long* n) { this->Reserve(n[0], n[1]); }
};
template <typename T_>
struct Tr2D {
  typedef T_ T;
  typedef M<T_> A;
  static const int R = 2;
  static const bool column_major = true;
  static const T& at(const A& a, const Idx& k) { return a(k.i[0], k.i[1]); }
  static T& at(A& a, const Idx& k) { return a(k.i[0], k.i[1]); }
  static A make(const long* n) { return A(n[0], n[1]); }
  static A make(const long* n, const T& x) { return A(n[0], n[1], x); }
  static void extra(A& a, Box<2>& m, long hi) {
    long n[4];
    switch (vp_pick("extra", 0, 4)) {
      case 0: { extents<Tr2D>(n, "n", hi); int x = vp_i32("x"); a.Resize(n[0], n[1], T(x)); resized<Tr2D>(a, m, n, true, x); break; }
      case 1: { extents<Tr2D>(n, "n", hi); int x = vp_i32("x"); a.Resize(n[0], n[1], il::emplace, x); resized<Tr2D>(a, m, n, true, x); break; }
      case 2: {  // resize with one of its own elements
        if (m.n[0] == 0 || m.n[1] == 0) break;
        extents<Tr2D>(n, "n", hi);
        if (n[0] < m.n[0] || n[1] < m.n[1]) break;
        Idx k = {{m.n[0] - 1, m.n[1] - 1}};
        int x = m.at(k);
        const A& c = a;
        a.Resize(n[0], n[1], c(k.i[0], k.i[1]));
        resized<Tr2D>(a, m, n, true, x);
        break;
      }
      case 3: {
        extents<Tr2D>(n, "n", hi);
        int x = vp_i32("x");
        A c(n[0], n[1], il::emplace, x);
        m.n[0] = n[0]; m.n[1] = n[1];
        each<2>(m.n, [&](const Idx& k) { m.at(k) = x; });
        a = std::move(c);
        break;
      }
      case 4: {
        int x[4];
        for (int k = 0; k < 4; ++k) x[k] = vp_i32("x");
        m.n[0] = 2; m.n[1] = 2;
        A c(il::value, {{T(x[0]), T(x[1])}, {T(x[2]), T(x[3])}});
        each<2>(m.n, [&](const Idx& k) { m.at(k) = x[2 * k.i[1] + k.i[0]]; });
        a = c;
        break;
      }
    }
    const il::Array2D<T>& ca = a;
    for (long j = 0; j < m.n[1]; ++j) vp_assert(ca.data(j) == ca.data() + j * ca.stride(1) && a.Data(j) == ca.data(j), "column pointer");
    vp_assert(ca.stride(0) == 1, "stride of the rows");
  }
};
#ifdef VP_DEEP
static const long kHi = 2;
#define VP_SPARE true
#else
static const long kHi = 2;
#define VP_SPARE false
#endif
VP_ENTRY(B01_int) { history<Tr2D<int>>(kHi, 2, 2, VP_SPARE); }
VP_ENTRY(B01_obj) { history<Tr2D<VpObj>>(kHi, 2, 2, VP_SPARE); }
VP_ENTRY(B01_big_int) { history<Tr2D<int>>(3, 2, 1, true); }
VP_ENTRY(B01_big_obj) { history<Tr2D<VpObj>>(3, 2, 1, true); }

// aligned columns
VP_ENTRY(B01_aligned) {
  typedef Tr2D<double> Tr;
  const long alignment = vp_pick("alignment", 0, 1) ? 16 : 32, mod = alignment * 2, r = alignment * vp_pick("r", 0, 1);
  vp_malloc_skew(16 * vp_pick("skew", 0, 3));
  long n[2] = {vp_pick("n0", 0, 3), vp_pick("n1", 0, 2)};
  double x = vp_dint("x", -1000, 1000);
  il::Array2D<double> a = vp_flag("valued") ? il::Array2D<double>{n[0], n[1], x, il::align, alignment, r, mod} : il::Array2D<double>{n[0], n[1], il::align, alignment, r, mod};
  for (long j = 0; j < n[1]; ++j) for (long i = 0; i < n[0]; ++i) a(i, j) = x + (double)(i + 10 * j);
  vp_malloc_skew(16 * vp_pick("skew", 0, 3));
  il::Array2D<double> b;
  switch (vp_pick("op", 0, 5)) {
    case 0: b = a; break;
    case 1: b = il::Array2D<double>{a}; break;
    case 2: b = std::move(a); break;
    case 3: a.Resize(n[0] + 1, n[1] + 1); b = a; break;
    case 4: a.Reserve(n[0] + 3, n[1] + 1); b = std::move(a); break;
    case 5: b = il::Array2D<double>{2, 2, 0.0}; b = a; break;
  }
  bool ok = true;
  for (long j = 0; j < n[1]; ++j) for (long i = 0; i < n[0]; ++i) ok = ok & (b(i, j) == x + (double)(i + 10 * j));
  vp_assert(ok, "element lost");
  if (n[0] > 0 && n[1] > 0) {
    vp_assert(b.alignment() == alignment, "alignment lost");
    vp_assert((std::size_t)b.data() % (std::size_t)mod == (std::size_t)r, "storage is not at the requested address");
    for (long j = 0; j < n[1]; ++j) vp_assert((std::size_t)b.data(j) % (std::size_t)alignment == 0, "column is not aligned");
    vp_assert(vp_bytes_left(b.data()) >= (int64_t)(b.capacity(0) * b.capacity(1) * 8), "memory smaller than the capacity");
  }
  vp_cover("aligned");
}
