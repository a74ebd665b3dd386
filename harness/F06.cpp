// Maps in .data files (filepack)
// vp: variants debug ndebug
// bound: one value of each type between two settings: any boolean, integer, float and double of any bits, texts and keys of up to 3 (keys: 1 to 3) arbitrary bytes, arrays of up to 3 doubles, matrices of up to 2 x 2 doubles and bytes with spare capacity of 0 or 1 in both directions, maps nested on 3 levels, arrays of structures with up to 2 arrays of up to 2 elements; loaded in both kinds of maps; disks that are full after any number of bytes
#include "vp.h"
#include <iostream>
#include <il/data.h>
#include <cstring>

#ifdef VP_DEEP
static const long kMore = 1;
#else
static const long kMore = 0;
#endif
typedef il::MapArray<il::String, il::Dynamic> MapA;
typedef il::Map<il::String, il::Dynamic> MapH;

static il::String file() { return il::String{"f.data"}; }
template <typename T> static bool same(const T& a, const T& b) {
  const unsigned char* p = (const unsigned char*)&a;
  const unsigned char* q = (const unsigned char*)&b;
  unsigned d = 0;
  for (unsigned i = 0; i < sizeof(T); ++i) d |= (unsigned)(p[i] ^ q[i]);
  return d == 0;
}
static bool sameText(const il::String& s, const char* t, long n) {
  if (s.size() != n) return false;
  unsigned d = 0;
  for (long i = 0; i < n; ++i) d |= (unsigned)(s.asCString()[i] ^ t[i]);
  return d == 0 && s.asCString()[n] == 0;
}
static bool saved(const MapA& m) {
  il::Status status{};
  il::save(m, file(), il::io, status);
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
  return status.Ok();
}
template <typename M> static M loaded() {
  il::Status status{};
  M m = il::load<M>(file(), il::io, status);
  vp_assert(status.Ok(), "a file that was saved is not loaded");
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
  return m;
}
static long bytes(char* t, long lo, long hi) {
  const long n = vp_pick("length", lo, hi);
  for (long i = 0; i < n; ++i) t[i] = (char)vp_u8("byte");
  t[n] = 0;
  return n;
}
template <typename M> static long count(const M& m) { return m.nbElements(); }
static long count(const MapA& m) { return m.size(); }
template <typename M> static const il::Dynamic& at(const M& m, const il::String& key) {
  const il::spot_t i = m.search(key);
  vp_assert(m.found(i), "missing key");
  return m.value(i);
}
template <typename M> static const il::Dynamic& at(const M& m, const char* key) { return at(m, il::String{il::StringType::Byte, key, (long)std::strlen(key)}); }

struct Bool {
  bool x = vp_flag("bool");
  il::Dynamic value() const { return il::Dynamic{x}; }
  bool ok(const il::Dynamic& v) const { return v.is<bool>() && v.to<bool>() == x; }
};
struct Integer {
  long x = vp_i64("integer");
  il::Dynamic value() const { return il::Dynamic{x}; }
  bool ok(const il::Dynamic& v) const { return v.is<il::int_t>() && v.to<il::int_t>() == x; }
};
struct Single {
  float x = single();
  static float single() { const unsigned b = vp_u32("single"); float f; std::memcpy(&f, &b, 4); return f; }
  il::Dynamic value() const { return il::Dynamic{x}; }
  bool ok(const il::Dynamic& v) const { return v.is<float>() && same(v.to<float>(), x); }
};
struct Double {
  double x = vp_double("double");
  il::Dynamic value() const { return il::Dynamic{x}; }
  bool ok(const il::Dynamic& v) const { return v.is<double>() && same(v.to<double>(), x); }
};
struct Text {
  char t[5];
  long n = bytes(t, 0, 3 + kMore);
  il::Dynamic value() const { return il::Dynamic{il::String{il::StringType::Byte, t, n}}; }
  bool ok(const il::Dynamic& v) const { return v.is<il::String>() && sameText(v.as<il::String>(), t, n); }
};
struct LongText {
  char t[64];
  long n = vp_pick("length", 20, 27) * (vp_flag("twice") ? 2 : 1);
  LongText() { for (long i = 0; i < n; ++i) t[i] = (char)('a' + i % 26); }
  il::Dynamic value() const { return il::Dynamic{il::String{il::StringType::Byte, t, n}}; }
  bool ok(const il::Dynamic& v) const { return v.is<il::String>() && sameText(v.as<il::String>(), t, n); }
};
struct ArrayOfDouble {
  double x[4];
  long n = vp_pick("size", 0, 3 + kMore);
  ArrayOfDouble() { for (long i = 0; i < n; ++i) x[i] = vp_double("element"); }
  il::Dynamic value() const {
    il::Array<double> v{n};
    for (long i = 0; i < n; ++i) v[i] = x[i];
    v.Reserve(n + vp_pick("spare", 0, 1));
    return il::Dynamic{std::move(v)};
  }
  bool ok(const il::Dynamic& v) const {
    if (!v.is<il::Array<double>>() || v.as<il::Array<double>>().size() != n) return false;
    bool ans = true;
    for (long i = 0; i < n; ++i) ans &= same(v.as<il::Array<double>>()[i], x[i]);
    return ans;
  }
};
template <typename T> struct Matrix {
  T x[9];
  long n0 = vp_pick("rows", 0, 2 + kMore), n1 = vp_pick("columns", 0, 2 + kMore);
  static void any(double& a) { a = vp_double("element"); }
  static void any(unsigned char& a) { a = vp_u8("element"); }
  Matrix() { for (long i = 0; i < n0 * n1; ++i) any(x[i]); }
  il::Dynamic value() const {
    il::Array2D<T> A{n0, n1};
    for (long j = 0; j < n1; ++j) for (long i = 0; i < n0; ++i) A(i, j) = x[j * n0 + i];
    A.Reserve(n0 + vp_pick("spare rows", 0, 1), n1 + vp_pick("spare columns", 0, 1));
    return il::Dynamic{std::move(A)};
  }
  bool ok(const il::Dynamic& v) const {
    if (!v.is<il::Array2D<T>>()) return false;
    const il::Array2D<T>& A = v.as<il::Array2D<T>>();
    if (A.size(0) != n0 || A.size(1) != n1) return false;
    bool ans = true;
    for (long j = 0; j < n1; ++j) for (long i = 0; i < n0; ++i) ans &= same(A(i, j), x[j * n0 + i]);
    return ans;
  }
};
template <typename M, typename V> static void check(const V& x, bool first, bool last) {
  const M r = loaded<M>();
  vp_assert(count(r) == 1 + first + last, "number of settings");
  if (first) vp_assert(at(r, "first").template is<il::int_t>() && at(r, "first").template to<il::int_t>() == -3, "setting before the value");
  if (last) vp_assert(at(r, "last").template is<bool>() && at(r, "last").template to<bool>(), "setting after the value");
  vp_assert(x.ok(at(r, "x")), "value");
}
template <typename V> static void value() {
  {
    const V x{};
    MapA m{};
    const bool first = vp_flag("first"), last = vp_flag("last");
    if (first) m.Set("first", il::Dynamic{il::int_t{-3}});
    m.Set("x", x.value());
    if (last) m.Set("last", il::Dynamic{true});
    vp_assert(saved(m), "a map is not saved");
    if (vp_flag("ordered")) check<MapA>(x, first, last); else check<MapH>(x, first, last);
    vp_cover("round trip");
  }
  vp_assert(vp_live() == 0, "memory is not released");
}
VP_ENTRY(F06_bool) { value<Bool>(); }
VP_ENTRY(F06_integer) { value<Integer>(); }
VP_ENTRY(F06_single) { value<Single>(); }
VP_ENTRY(F06_double) { value<Double>(); }
VP_ENTRY(F06_text) { value<Text>(); }
VP_ENTRY(F06_long_text) { value<LongText>(); }
VP_ENTRY(F06_array) { value<ArrayOfDouble>(); }
VP_ENTRY(F06_matrix) { value<Matrix<double>>(); }
VP_ENTRY(F06_matrix_bytes) { value<Matrix<unsigned char>>(); }

template <typename M> static void checkKey(const il::String& key, const char* t, long n) {
  const M r = loaded<M>();
  vp_assert(count(r) == 1, "number of settings");
  const il::Dynamic& v = at(r, key);
  vp_assert(v.is<double>() && v.to<double>() == 0.5, "setting");
  const il::spot_t i = r.search(key);
  vp_assert(sameText(r.key(i), t, n), "key");
}
VP_ENTRY(F06_key) {
  char t[5];
  const long n = bytes(t, 1, 2 + kMore);
  const il::String key{il::StringType::Byte, t, n};
  MapA m{};
  m.Set(key, il::Dynamic{0.5});
  vp_assert(saved(m), "a map is not saved");
  if (vp_flag("ordered")) checkKey<MapA>(key, t, n); else checkKey<MapH>(key, t, n);
  vp_cover("key");
}
// maps in maps in maps, with or without settings before and after them
template <typename M> static void checkNested(const bool* put) {
  const M r = loaded<M>();
  vp_assert(count(r) == 1 + put[0] + put[1], "number of settings");
  if (put[0]) vp_assert(at(r, "a").template to<il::int_t>() == 1, "setting");
  if (put[1]) vp_assert(at(r, "b").template to<il::int_t>() == 2, "setting");
  vp_assert(at(r, "inner").template is<M>(), "map in a map");
  const M& r1 = at(r, "inner").template as<M>();
  vp_assert(count(r1) == put[2] + put[3] + put[4], "number of settings");
  if (put[2]) vp_assert(at(r1, "a").template to<il::int_t>() == 300, "setting");
  if (put[3]) vp_assert(at(r1, "b").template to<double>() == 0.25, "setting");
  if (put[4]) {
    vp_assert(at(r1, "c").template is<M>(), "map in a map");
    const M& r2 = at(r1, "c").template as<M>();
    vp_assert(count(r2) == put[5], "number of settings");
    if (put[5]) vp_assert(!at(r2, "d").template to<bool>(), "setting");
  }
}
VP_ENTRY(F06_nested) {
  {
    bool put[6];
    for (int i = 0; i < 6; ++i) put[i] = vp_flag("put");
    MapA m{}, inner{}, inner2{};
    if (put[5]) inner2.Set("d", il::Dynamic{false});
    if (put[2]) inner.Set("a", il::Dynamic{il::int_t{300}});
    if (put[4]) inner.Set("c", il::Dynamic{inner2});
    if (put[3]) inner.Set("b", il::Dynamic{0.25});
    if (put[0]) m.Set("a", il::Dynamic{il::int_t{1}});
    m.Set("inner", il::Dynamic{inner});
    if (put[1]) m.Set("b", il::Dynamic{il::int_t{2}});
    vp_assert(saved(m), "a map is not saved");
    if (vp_flag("ordered")) checkNested<MapA>(put); else checkNested<MapH>(put);
    vp_cover("nested");
  }
  vp_assert(vp_live() == 0, "memory is not released");
}
// a map of arrays of the same size, saved as an array of structures
template <typename M> static void checkStruct(const bool* put, long n, const double* x, const int* y, bool inside) {
  const M r = loaded<M>();
  vp_assert(count(r) == 2, "number of settings");
  vp_assert(at(r, "last").template to<bool>(), "setting after an array of structures");
  vp_assert(at(r, "data").template is<M>(), "array of structures");
  const M* s = &at(r, "data").template as<M>();
  if (inside) {
    vp_assert(count(*s) == 1 && at(*s, "inside").template is<M>(), "array of structures");
    s = &at(*s, "inside").template as<M>();
  }
  vp_assert(count(*s) == put[0] + put[1], "number of arrays");
  if (put[0]) {
    vp_assert(at(*s, "x").template is<il::Array<double>>(), "array of doubles");
    const il::Array<double>& v = at(*s, "x").template as<il::Array<double>>();
    vp_assert(v.size() == n, "size");
    for (long i = 0; i < n; ++i) vp_assert(same(v[i], x[i]), "element");
  }
  if (put[1]) {
    vp_assert(at(*s, "y").template is<il::Array<int>>(), "array of int");
    const il::Array<int>& v = at(*s, "y").template as<il::Array<int>>();
    vp_assert(v.size() == n, "size");
    for (long i = 0; i < n; ++i) vp_assert(v[i] == y[i], "element");
  }
}
VP_ENTRY(F06_struct) {
  {
    const bool put[2] = {vp_flag("x"), vp_flag("y")}, inside = vp_flag("inside"), unequal = put[0] && put[1] && vp_flag("unequal");
    const long n = vp_pick("size", 0, 2);
    double x[3];
    int y[3];
    il::Array<double> vx{n};
    il::Array<int> vy{n + unequal};
    for (long i = 0; i < n; ++i) vx[i] = x[i] = vp_double("x");
    for (long i = 0; i < n + unequal; ++i) vy[i] = y[i] = vp_i32("y");
    MapA m{}, middle{}, data{};
    if (put[0]) data.Set("x", il::Dynamic{vx});
    if (put[1]) data.Set("y", il::Dynamic{vy});
    if (inside) {
      middle.Set("inside", il::Dynamic{data});
      m.Set("data", il::Dynamic{middle});
    } else {
      m.Set("data", il::Dynamic{data});
    }
    m.Set("last", il::Dynamic{true});
    il::Array<il::String> option{};
    option.Append(il::String{"data"});
    if (inside) option.Append(il::String{"inside"});
    il::Status status{};
    il::save(m, option, file(), il::io, status);
    const bool ok = status.Ok();
    vp_assert(ok == !unequal, "saving an array of structures");
    vp_assert(vp_file_open_handles() == 0, "the file is left open");
    if (ok) {
      if (vp_flag("ordered")) checkStruct<MapA>(put, n, x, y, inside); else checkStruct<MapH>(put, n, x, y, inside);
      vp_cover("array of structures");
    } else {
      vp_cover("arrays of different sizes");
    }
  }
  vp_assert(vp_live() == 0, "memory is not released");
}
// values that can not be saved
VP_ENTRY(F06_unsupported) {
  MapA m{};
  m.Set("first", il::Dynamic{true});
  switch (vp_pick("value", 0, 6)) {
    case 0: m.Set("x", il::Dynamic{}); break;
    case 1: m.Set("x", il::Dynamic{(signed char)3}); break;
    case 2: m.Set("x", il::Dynamic{il::Array<il::Dynamic>{}}); break;
    case 3: m.Set("x", il::Dynamic{il::Array<int>{2, 3}}); break;
    case 4: m.Set("", il::Dynamic{true}); break;
    case 5: m.Set("x", il::Dynamic{MapH{}}); break;
    default: {
      MapA inner{};
      inner.Set("", il::Dynamic{true});
      m.Set("x", il::Dynamic{inner});
    }
  }
  vp_assert(!saved(m), "a value that can not be saved is not reported");
  vp_cover("reported");
}
VP_ENTRY(F06_full) {
  MapA m{}, inner{};
  inner.Set("c", il::Dynamic{il::int_t{12345}});
  m.Set("a", il::Dynamic{1.5});
  m.Set("s", il::Dynamic{il::String{"text"}});
  m.Set("m", il::Dynamic{inner});
  m.Set("v", il::Dynamic{il::Array<double>{2, 1.0}});
  vp_assert(saved(m), "a map is not saved");
  char raw[256];
  const long n = vp_file_get("f.data", raw, 256);
  const long room = vp_pick("room", 0, n + 1);
  vp_file_full(room, vp_flag("late"));
  const bool ok = saved(m);
  vp_assert(ok == (room >= n), "an incomplete file is reported");
  vp_file_full(-1, 0);
  if (ok) vp_cover("saved"); else vp_cover("full");
}
