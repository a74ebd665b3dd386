// Shared by B01..B04: histories of a multi-dimensional array against a reference box.
#ifndef ND_H
#define ND_H
#include "vp.h"
#include <utility>

static int val(const int& x) { return x; }
static int val(const VpObj& x) { return x.value(); }
static const int kD = 4;  // largest extent in the reference

struct Idx { long i[4]; };

template <int R>
struct Box {
  long n[4];
  int v[kD * kD * (R > 2 ? kD : 1) * (R > 3 ? kD : 1)];
  long pos(const Idx& k) const {
    long p = 0;
    for (int d = 0; d < R; ++d) p = p * kD + k.i[d];
    return p;
  }
  int& at(const Idx& k) { return v[pos(k)]; }
  int at(const Idx& k) const { return v[pos(k)]; }
};

// calls f(index) for every index of the box
template <int R, typename F>
static void each(const long* n, F f) {
  Idx k;
  for (k.i[0] = 0; k.i[0] < n[0]; ++k.i[0])
    for (k.i[1] = 0; k.i[1] < n[1]; ++k.i[1]) {
      if (R == 2) { f(k); continue; }
      for (k.i[2] = 0; k.i[2] < n[2]; ++k.i[2]) {
        if (R == 3) { f(k); continue; }
        for (k.i[3] = 0; k.i[3] < n[3]; ++k.i[3]) f(k);
      }
    }
}

// Tr: the array class; see B01.cpp
template <typename Tr>
static void same(const typename Tr::A& a, const Box<Tr::R>& m) {
  const int R = Tr::R;
  long cap = 1;
  for (int d = 0; d < R; ++d) {
    vp_assert(a.size(d) == m.n[d], "extent differs from the reference");
    vp_assert(a.capacity(d) >= a.size(d), "capacity smaller than size");
    cap *= a.capacity(d);
  }
  if (cap > 0) vp_assert(vp_bytes_left(a.data()) >= (int64_t)(cap * sizeof(typename Tr::T)), "memory smaller than the capacity");
  bool ok = true, pos = true;
  each<R>(m.n, [&](const Idx& k) {
    ok = ok & (val(Tr::at(a, k)) == m.at(k));
    // column-major or row-major position in the storage, with the capacities as leading dimensions
    long p = 0;
    if (Tr::column_major) { for (int d = R - 1; d >= 0; --d) p = p * (d == R - 1 ? 1 : a.capacity(d)) + k.i[d]; }
    else { for (int d = 0; d < R; ++d) p = p * (d == 0 ? 1 : a.capacity(d)) + k.i[d]; }
    pos = pos & (&Tr::at(a, k) == a.data() + p);
  });
  vp_assert(ok, "element differs from the reference");
  vp_assert(pos, "element is not at its documented position in memory");
}

template <typename Tr>
static void write(typename Tr::A& a, Box<Tr::R>& m, const char* nm) {
  each<Tr::R>(m.n, [&](const Idx& k) {
    int x = vp_i32(nm);
    Tr::at(a, k) = typename Tr::T(x);
    m.at(k) = x;
  });
}

static const int kDefault = -7;  // value of a default constructed VpObj
template <typename T> struct IsObj { static const bool value = false; };
template <> struct IsObj<VpObj> { static const bool value = true; };

template <typename Tr>
static void extents(long* n, const char* nm, long hi) {
  for (int d = 0; d < Tr::R; ++d) n[d] = vp_pick(nm, 0, hi);
}

template <typename Tr>
static void resized(typename Tr::A& a, Box<Tr::R>& m, const long* n, bool filled, int x) {
  Box<Tr::R> o = m;
  for (int d = 0; d < Tr::R; ++d) m.n[d] = n[d];
  bool def = true;
  each<Tr::R>(m.n, [&](const Idx& k) {
    bool old = true;
    for (int d = 0; d < Tr::R; ++d) old = old && k.i[d] < o.n[d];
    if (old) return;
    if (filled) { m.at(k) = x; return; }
    if (IsObj<typename Tr::T>::value) def = def & (val(Tr::at(a, k)) == kDefault);
    int y = vp_i32("y");
    Tr::at(a, k) = typename Tr::T(y);
    m.at(k) = y;
  });
  vp_assert(def, "added element is not default constructed");
}

template <typename Tr>
static void step(typename Tr::A& a, Box<Tr::R>& m, typename Tr::A& b, Box<Tr::R>& mb, long hi) {
  typedef typename Tr::A A;
  typedef typename Tr::T T;
  const int R = Tr::R;
  long n[4];
  switch (vp_pick("op", 0, 9)) {
    case 0: {
      extents<Tr>(n, "n", hi);
      long c[4];
      bool fits = true;
      for (int d = 0; d < R; ++d) { c[d] = a.capacity(d); fits = fits && n[d] <= c[d]; }
      const T* p = a.data();
      a.Resize_(n);
      resized<Tr>(a, m, n, false, 0);
      if (fits) {
        vp_assert(a.data() == p, "Resize within the capacity reallocates");
        for (int d = 0; d < R; ++d) vp_assert(a.capacity(d) == c[d], "Resize within the capacity changes the capacity");
      }
      break;
    }
    case 1: {
      extents<Tr>(n, "r", hi);
      long c[4];
      for (int d = 0; d < R; ++d) c[d] = a.capacity(d);
      a.Reserve_(n);
      for (int d = 0; d < R; ++d) vp_assert(a.capacity(d) >= n[d] && a.capacity(d) >= c[d], "Reserve does not give the capacity asked");
      break;
    }
    case 2: a = b; m = mb; break;
    case 3: {
      a = std::move(b);
      m = mb;
      for (int d = 0; d < R; ++d) { mb.n[d] = 0; vp_assert(b.size(d) == 0, "moved-from array is not empty"); }
      break;
    }
    case 4: { A& r = a; a = r; break; }
    case 5: { A& r = a; a = std::move(r); break; }
    case 6: {
      A c{a};
      same<Tr>(c, m);
      Box<R> mc = m;
      write<Tr>(c, mc, "c");
      same<Tr>(a, m);
      b = std::move(c);
      mb = mc;
      break;
    }
    case 7: {
      A c{std::move(a)};
      same<Tr>(c, m);
      for (int d = 0; d < R; ++d) vp_assert(a.size(d) == 0, "moved-from array is not empty");
      a = c;
      break;
    }
    case 8: {  // built with a value
      extents<Tr>(n, "n", hi);
      int x = vp_i32("x");
      A c = Tr::make(n, T(x));
      for (int d = 0; d < R; ++d) m.n[d] = n[d];
      each<R>(m.n, [&](const Idx& k) { m.at(k) = x; });
      a = std::move(c);
      break;
    }
    case 9: Tr::extra(a, m, hi); break;
  }
}

template <typename Tr>
static void history(long hi, long hib, int steps, bool spare) {
  typedef typename Tr::A A;
  {
    long n[4], r[4];
    Box<Tr::R> m, mb;
    extents<Tr>(n, "na", hi);
    for (int d = 0; d < Tr::R; ++d) { m.n[d] = n[d]; r[d] = n[d] + (spare ? vp_pick("spare", 0, 1) : 0); }
    A a = Tr::make(n);
    if (spare) a.Reserve_(r);
    write<Tr>(a, m, "a");
    same<Tr>(a, m);
    long p[4];
    for (int d = 0; d < Tr::R; ++d) p[d] = mb.n[d] = 0;
    if (hib > 0 && vp_flag("nb")) for (int d = 0; d < Tr::R; ++d) p[d] = mb.n[d] = hib - (d & 1);
    A b = Tr::make(p);
    write<Tr>(b, mb, "b");
    for (int k = 0; k < steps; ++k) step<Tr>(a, m, b, mb, hi);
    same<Tr>(a, m);
    same<Tr>(b, mb);
    vp_cover("history");
  }
  vp_assert(VpObj::alive_ == 0, "elements are not destroyed exactly once");
}
#endif
