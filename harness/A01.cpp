// Array<T>: value semantics against a reference sequence.
// vp: variants debug ndebug
// bound: initial arrays of 0..3 elements with 0..2 spare capacity, then every sequence of 2 operations (3 with VP_DEEP), each resize/reserve argument in 0..5, all element values any 32-bit integer
// bound: two element types: a trivial one (int) and one that owns memory and checks its own lifetime
#include <il/Array.h>
#include "vp.h"

static const int kMax = 16;
#ifdef VP_DEEP
static const int kSteps = 3;
#else
static const int kSteps = 2;
#endif

static int val(const int& x) { return x; }
static int val(const VpObj& x) { return x.value(); }

struct Ref {
  long n;
  int v[kMax];
};

template <typename T>
static void same(const il::Array<T>& a, const Ref& m) {
  vp_assert(a.size() == m.n, "size differs from the reference sequence");
  vp_assert(a.capacity() >= a.size(), "capacity smaller than size");
  if (a.size() > 0) {
    vp_assert(vp_bytes_left(a.data()) >= (int64_t)(a.capacity() * sizeof(T)), "memory smaller than the capacity");
    vp_assert(a.back() == a[a.size() - 1], "back() is not the last element");
  }
  vp_assert(a.end() - a.begin() == m.n && a.begin() == a.data(), "iteration range is not the sequence");
  vp_assert(a.cend() - a.cbegin() == m.n, "iteration range is not the sequence");
  bool ok = true;
  for (long i = 0; i < m.n; ++i) ok = ok & (val(a[i]) == m.v[i]) & (val(a.data()[i]) == m.v[i]);
  vp_assert(ok, "element differs from the reference sequence");
}

template <typename T>
static void fill(il::Array<T>& a, Ref& m, long n, long spare, const char* nm) {
  m.n = 0;
  a.Reserve(n + spare);
  for (long i = 0; i < n; ++i) {
    int x = vp_i32(nm);
    a.Append(T(x));
    m.v[m.n++] = x;
  }
  vp_assert(a.capacity() == n + spare, "Reserve gives exactly the capacity asked when it grows");
}

template <typename T>
static void step(il::Array<T>& a, Ref& m, il::Array<T>& b, Ref& mb) {
  const long op = vp_pick("op", 0, 17);
  const long cap0 = a.capacity();
  const T* const p0 = a.data();
  switch (op) {
    case 0: { int x = vp_i32("x"); T t(x); a.Append(t); m.v[m.n++] = x; vp_assert(val(t) == x, "Append(const T&) changed its argument"); break; }
    case 1: { int x = vp_i32("x"); a.Append(T(x)); m.v[m.n++] = x; break; }
    case 2: { int x = vp_i32("x"); a.Append(il::emplace, x); m.v[m.n++] = x; break; }
    case 3: {
      long n = vp_pick("n", 0, 5);
      a.Resize(n);
      vp_assert(a.size() == n, "Resize does not give the size asked");
      for (long i = m.n; i < n; ++i) { int x = vp_i32("x"); a[i] = T(x); m.v[i] = x; }
      m.n = n;
      vp_assert(a.capacity() == (n <= cap0 ? cap0 : n), "Resize: unexpected capacity");
      vp_assert(n > cap0 || a.data() == p0, "Resize within the capacity reallocates");
      break;
    }
    case 4: {
      long n = vp_pick("n", 0, 5);
      int x = vp_i32("x");
      a.Resize(n, T(x));
      for (long i = m.n; i < n; ++i) m.v[i] = x;
      m.n = n;
      vp_assert(a.capacity() == (n <= cap0 ? cap0 : n), "Resize: unexpected capacity");
      break;
    }
    case 5: {
      long n = vp_pick("n", 0, 5);
      int x = vp_i32("x");
      a.Resize(n, il::emplace, x);
      for (long i = m.n; i < n; ++i) m.v[i] = x;
      m.n = n;
      break;
    }
    case 6: {
      long r = vp_pick("r", 0, 6);
      a.Reserve(r);
      vp_assert(a.capacity() == (r <= cap0 ? cap0 : r), "Reserve: unexpected capacity");
      vp_assert(r > cap0 || a.data() == p0, "Reserve within the capacity reallocates");
      break;
    }
    case 7: { int x = vp_i32("x"); a.Set(T(x)); for (long i = 0; i < m.n; ++i) m.v[i] = x; break; }
    case 8: {
      if (m.n == 0) break;
      long i = vp_pick("i", 0, m.n - 1);
      int x = vp_i32("x");
      a[i] = T(x);
      m.v[i] = x;
      break;
    }
    case 9: a = b; m = mb; break;
    case 10: a = std::move(b); m = mb; mb.n = 0; vp_assert(b.size() == 0, "moved-from array is not empty"); break;
    case 11: { il::Array<T>& r = a; a = r; break; }
    case 12: { il::Array<T>& r = a; a = std::move(r); break; }
    case 13: {
      il::Array<T> c{a};
      same(c, m);
      if (m.n > 0) { int x = vp_i32("x"); c[0] = T(x); }  // an independent value
      same(a, m);
      b = c;
      mb = m;
      if (m.n > 0) mb.v[0] = val(c[0]);
      break;
    }
    case 14: {
      il::Array<T> c{std::move(a)};
      same(c, m);
      Ref e; e.n = 0;
      same(a, e);
      m.n = 0;
      b = std::move(c);
      mb.n = b.size();
      for (long i = 0; i < mb.n; ++i) mb.v[i] = val(b[i]);
      break;
    }
    case 15: {  // an element of the array itself is appended
      if (m.n == 0) break;
      long i = vp_pick("i", 0, m.n - 1);
      long how = vp_pick("how", 0, 1);
      int x = m.v[i];
      if (how == 0) a.Append(a[i]);
      else a.Append(il::emplace, a[i]);
      m.v[m.n++] = x;
      break;
    }
    case 16: {  // resize with an element of the array itself
      if (m.n == 0) break;
      long n = vp_pick("n", m.n, 5);
      long i = vp_pick("i", 0, m.n - 1);
      int x = m.v[i];
      a.Resize(n, a[i]);
      for (long k = m.n; k < n; ++k) m.v[k] = x;
      m.n = n;
      break;
    }
    case 17: {
      if (m.n == 0) break;
      int x = vp_i32("x");
      a.Back() = T(x);
      m.v[m.n - 1] = x;
      *(a.end() - 1) = T(x);
      break;
    }
  }
}

template <typename T>
static void history() {
  {
    il::Array<T> a;
    il::Array<T> b;
    Ref m, mb;
    fill(a, m, vp_pick("na", 0, 3), vp_pick("spare", 0, 2), "a");
    fill(b, mb, vp_pick("nb", 0, 1) * 2, 0, "b");
    for (int k = 0; k < kSteps; ++k) step(a, m, b, mb);
    same(a, m);
    same(b, mb);
    vp_cover("history");
  }
  vp_assert(VpObj::alive_ == 0, "elements are not destroyed exactly once");
}

VP_ENTRY(A01_history_int) { history<int>(); }
VP_ENTRY(A01_history_obj) { history<VpObj>(); }
