// Aligned storage of il::Array: the address promised at construction is kept by
// every operation, and the memory behind it is as large as the capacity says.
// vp: variants debug ndebug
// bound: element types char, int, double; alignment in {element size, 16, 32}, modulus up to 64, every remainder allowed by the alignment; the allocator returns addresses congruent to any multiple of 16 modulo 64
// bound: 0..3 elements, then 2 operations (3 with VP_DEEP) with arguments up to 6; any element values
#include <il/Array.h>
#include "vp.h"

#ifdef VP_DEEP
static const int kSteps = 3;
#else
static const int kSteps = 2;
#endif
static const int kMax = 24;
struct Ref { long n; int v[kMax]; };

template <typename T>
static void same(const il::Array<T>& a, const Ref& m, long alignment, long r, long mod) {
  vp_assert(a.size() == m.n, "size differs from the reference");
  bool ok = true;
  for (long i = 0; i < m.n; ++i) ok = ok & (a[i] == (T)m.v[i]);
  vp_assert(ok, "element differs from the reference");
  vp_assert(a.alignment() == alignment, "alignment() differs from the one requested");
  if (alignment != 0 && a.capacity() > 0)
    vp_assert(reinterpret_cast<std::size_t>(a.data()) % (std::size_t)mod == (std::size_t)r, "storage is not at the requested address modulo align_mod");
  if (a.capacity() > 0)
    vp_assert(vp_bytes_left(a.data()) >= (int64_t)(a.capacity() * sizeof(T)), "memory smaller than the capacity");
}

static void skew() { vp_malloc_skew(16 * vp_pick("skew", 0, 3)); }

template <typename T>
static void run() {
  static const long als[3] = {(long)sizeof(T), 16, 32};
  const long alignment = als[vp_pick("alignment", 0, 2)];
  const long mod = alignment * vp_pick("mod", 1, 2);
  long r = alignment * vp_pick("r", 0, 1);
  if (r >= mod) r = 0;
  skew();
  long n = vp_pick("n", 0, 3);
  int x = (T)vp_i32("x");
  const bool valued = vp_flag("valued");
  il::Array<T> a = valued ? il::Array<T>{n, (T)x, il::align, alignment, r, mod} : il::Array<T>{n, il::align, alignment, r, mod};
  Ref m;
  m.n = n;
  for (long i = 0; i < n; ++i) {
    if (!valued) a[i] = (T)x;
    m.v[i] = x;
  }
  // an array built empty owns no memory and forgets its alignment: documented as "undefined" there
  long al = n > 0 ? alignment : 0, ra = r, moda = mod;
  same(a, m, al, r, mod);
  // a second array: not aligned, or aligned differently
  il::Array<T> b;
  Ref mb; mb.n = 0;
  long alb = 0, rb = 0, modb = 1;
  if (vp_flag("b")) {
    alb = alignment; modb = 2 * alignment; rb = r ? 0 : alignment;
    b = il::Array<T>{4, (T)x, il::align, alb, rb, modb};
    mb.n = 4;
    for (long i = 0; i < 4; ++i) mb.v[i] = x;
  }
  vp_malloc_skew(vp_pick("skew", 0, 1) ? 16 : 48);
  for (int k = 0; k < kSteps; ++k) {
#ifdef VP_DEEP
    if (k > 0) vp_malloc_skew(48);
#endif
    switch (vp_pick("op", 0, 8)) {
      case 0: { int y = vp_i32("y"); a.Append((T)y); m.v[m.n++] = y; break; }
      case 1: { int y = vp_i32("y"); long p = vp_pick("p", 0, 1) * 6; a.Resize(p, (T)y); for (long i = m.n; i < p; ++i) m.v[i] = y; m.n = p; break; }
      case 2: { a.Reserve(vp_pick("p", 4, 6)); break; }
      case 3: { il::Array<T> c{a}; same(c, m, al, ra, moda); b = std::move(c); mb = m; alb = al; rb = ra; modb = moda; break; }
      case 4: { il::Array<T> c{std::move(a)}; same(c, m, al, ra, moda); a = std::move(c); break; }
      case 5: a = b; m = mb; al = alb; ra = rb; moda = modb; break;
      case 6: b = a; mb = m; alb = al; rb = ra; modb = moda; break;
      case 7: a = std::move(b); m = mb; al = alb; ra = rb; moda = modb; mb.n = 0; alb = 0; break;
      case 8: { int y = vp_i32("y"); a.Set((T)y); for (long i = 0; i < m.n; ++i) m.v[i] = y; break; }
    }
  }
  same(a, m, al, ra, moda);
  same(b, mb, alb, rb, modb);
  vp_cover("aligned history");
}
VP_ENTRY(A02_char) { run<char>(); }
VP_ENTRY(A02_int) { run<int>(); }
VP_ENTRY(A02_double) { run<double>(); }

// short forms of the constructors
VP_ENTRY(A02_simple) {
  const long alignment = 8L << vp_pick("alignment", 0, 4);
  skew();
  il::Array<double> a{vp_pick("n", 1, 3), il::align, alignment};
  vp_assert(reinterpret_cast<std::size_t>(a.data()) % (std::size_t)alignment == 0, "storage is not aligned");
  il::Array<double> b{vp_pick("n", 1, 3), 1.0, il::align, alignment};
  vp_assert(reinterpret_cast<std::size_t>(b.data()) % (std::size_t)alignment == 0, "storage is not aligned");
  vp_assert(a.alignment() == alignment && b.alignment() == alignment, "alignment() differs from the one requested");
  vp_cover("simple");
}
