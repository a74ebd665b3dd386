// SmallArray<T, k>: value semantics against a reference sequence, across the
// switch between inline and heap storage.
// vp: variants debug ndebug
// bound: inline size 2; arrays of 0..4 elements with any spare capacity up to 2, then every sequence of 2 operations (3 with VP_DEEP), resize/reserve arguments 0..5, all element values any 32-bit integer
// bound: two element types: a trivial one (int) and one that owns memory and checks its own lifetime
#include <il/SmallArray.h>
#include "vp.h"

static const int kMax = 16;
#ifdef VP_DEEP
static const int kSteps = 3;
#else
static const int kSteps = 2;
#endif

static int val(const int& x) { return x; }
static int val(const VpObj& x) { return x.value(); }
struct Ref { long n; int v[kMax]; };
template <typename T> using A = il::SmallArray<T, 2>;

template <typename T>
static void same(const A<T>& a, const Ref& m) {
  vp_assert(a.size() == m.n, "size differs from the reference sequence");
  vp_assert(a.capacity() >= a.size() && a.capacity() >= 2, "capacity smaller than size");
  vp_assert(vp_bytes_left(a.data()) >= (int64_t)(a.capacity() * sizeof(T)) || vp_native(), "memory smaller than the capacity");
  if (a.size() > 0) vp_assert(a.back() == a[a.size() - 1], "back() is not the last element");
  bool ok = true;
  il::ArrayView<T> w = a.view();
  vp_assert(w.size() == m.n, "view size");
  for (long i = 0; i < m.n; ++i) ok = ok & (val(a[i]) == m.v[i]) & (val(a.data()[i]) == m.v[i]) & (val(w[i]) == m.v[i]);
  vp_assert(ok, "element differs from the reference sequence");
}

template <typename T>
static void fill(A<T>& a, Ref& m, long n, long spare, const char* nm) {
  m.n = 0;
  a.Reserve(n + spare);
  for (long i = 0; i < n; ++i) {
    int x = vp_i32(nm);
    a.Append(T(x));
    m.v[m.n++] = x;
  }
}

template <typename T>
static void step(A<T>& a, Ref& m, A<T>& b, Ref& mb) {
  const long op = vp_pick("op", 0, 14);
  const long cap0 = a.capacity();
  const T* const p0 = a.data();
  switch (op) {
    case 0: { int x = vp_i32("x"); const T t(x); a.Append(t); m.v[m.n++] = x; vp_assert(val(t) == x, "Append changed its argument"); break; }
    case 1: { int x = vp_i32("x"); a.Append(x); m.v[m.n++] = x; break; }
    case 2: {
      long n = vp_pick("n", 0, 5);
      a.Resize(n);
      vp_assert(a.size() == n, "Resize does not give the size asked");
      for (long i = m.n; i < n; ++i) { int x = vp_i32("x"); a[i] = T(x); m.v[i] = x; }
      m.n = n;
      vp_assert(a.capacity() == (n <= cap0 ? cap0 : n), "Resize: unexpected capacity");
      vp_assert(n > cap0 || a.data() == p0, "Resize within the capacity reallocates");
      break;
    }
    case 3: {
      long r = vp_pick("r", 0, 6);
      a.Reserve(r);
      vp_assert(a.capacity() == (r <= cap0 ? cap0 : r), "Reserve: unexpected capacity");
      vp_assert(r > cap0 || a.data() == p0, "Reserve within the capacity reallocates");
      break;
    }
    case 4: {
      if (m.n == 0) break;
      long i = vp_pick("i", 0, m.n - 1);
      int x = vp_i32("x");
      a[i] = T(x);
      m.v[i] = x;
      break;
    }
    case 5: a = b; m = mb; break;
    case 6: a = std::move(b); m = mb; mb.n = 0; vp_assert(b.size() == 0, "moved-from array is not empty"); break;
    case 7: { A<T>& r = a; a = r; break; }
    case 8: { A<T>& r = a; a = std::move(r); break; }
    case 9: {
      A<T> c{a};
      same(c, m);
      if (m.n > 0) { int x = vp_i32("x"); c[0] = T(x); }
      same(a, m);
      b = c;
      mb = m;
      if (m.n > 0) mb.v[0] = val(c[0]);
      break;
    }
    case 10: {
      A<T> c{std::move(a)};
      same(c, m);
      Ref e; e.n = 0;
      same(a, e);
      m.n = 0;
      b = std::move(c);
      mb.n = b.size();
      for (long i = 0; i < mb.n; ++i) mb.v[i] = val(b[i]);
      break;
    }
    case 11: {
      if (m.n == 0) break;
      long i = vp_pick("i", 0, m.n - 1);
      int x = m.v[i];
      if (vp_flag("how")) { const A<T>& c = a; a.Append(c[i]); } else a.Append(a[i]);
      m.v[m.n++] = x;
      break;
    }
    case 12: {
      if (m.n == 0) break;
      int x = vp_i32("x");
      a.Back() = T(x);
      m.v[m.n - 1] = x;
      break;
    }
    case 13: {
      if (m.n == 0) break;
      long i = vp_pick("i", 0, m.n - 1);
      int x = vp_i32("x");
      if (vp_flag("how")) { il::ArrayEdit<T> e = a.Edit(); e[i] = T(x); }
      else { il::ArrayEdit<T> e = a.Edit(il::Range{i, m.n}); e[0] = T(x); vp_assert(e.size() == m.n - i, "sub-view size"); }
      m.v[i] = x;
      break;
    }
    case 14: {  // constructors
      long how = vp_pick("ctor", 0, 3);
      if (how == 0) { a = A<T>(); m.n = 0; }
      else if (how == 1) { long n = vp_pick("n", 0, 3); int x = vp_i32("x"); A<T> c(n, T(x)); a = std::move(c); m.n = n; for (long i = 0; i < n; ++i) m.v[i] = x; }
      else if (how == 2) { int x = vp_i32("x"), y = vp_i32("x"), z = vp_i32("x"); A<T> c(il::value, {T(x), T(y), T(z)}); a = c; m.n = 3; m.v[0] = x; m.v[1] = y; m.v[2] = z; }
      else { long n = vp_pick("n", 0, 3); A<T> c(n); vp_assert(c.size() == n, "size"); for (long i = 0; i < n; ++i) { int x = vp_i32("x"); c[i] = T(x); m.v[i] = x; } a = std::move(c); m.n = n; }
      break;
    }
  }
}

template <typename T>
static void history() {
  {
    A<T> a;
    A<T> b;
    Ref m, mb;
    fill(a, m, vp_pick("na", 0, 4), vp_pick("spare", 0, 2), "a");
    fill(b, mb, vp_pick("nb", 0, 3), 0, "b");
    for (int k = 0; k < kSteps; ++k) step(a, m, b, mb);
    same(a, m);
    same(b, mb);
    vp_cover("history");
  }
  vp_assert(VpObj::alive_ == 0, "elements are not destroyed exactly once");
}

VP_ENTRY(A03_history_int) { history<int>(); }
VP_ENTRY(A03_history_obj) { history<VpObj>(); }
