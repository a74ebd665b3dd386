// Dynamic values: type tag, content, value semantics.
// vp: variants debug ndebug
// bound: E01_kinds: every kind of value, all scalar contents, arrays of 0 or 2 elements, matrices of 2x2, nested arrays and maps of one element; E01_history: every sequence of 2 operations (3 with VP_DEEP) on two values, each a scalar, a short or long string, a nested array or a nested map
#include "vp.h"
#include <il/Dynamic.h>
#include <cstring>
#include <utility>

typedef il::Array<il::Dynamic> ArrD;
typedef il::Map<il::String, il::Dynamic> MapD;
typedef il::MapArray<il::String, il::Dynamic> MapA;

enum Kind { kVoid, kBool, kUChar, kSChar, kUShort, kShort, kInt, kInteger, kFloat, kDouble, kString, kArrD, kMap, kMapA,
            kAU8, kAI8, kAU16, kAI16, kAU32, kAI32, kAU64, kAI64, kADouble, kM, kMU8, kNb };
struct V {
  int k;
  uint64_t x[4];
  long n;  // number of elements, or length of the string
  int c;   // child in the pool
};
static V g_pool[8];
static int g_np;
static uint64_t bits(double d) { uint64_t b; std::memcpy(&b, &d, 8); return b; }
static uint64_t bitsf(float d) { uint32_t b; std::memcpy(&b, &d, 4); return b; }
static double dbl(uint64_t b) { double d; std::memcpy(&d, &b, 8); return d; }
static float flt(uint64_t b) { uint32_t c = (uint32_t)b; float d; std::memcpy(&d, &c, 4); return d; }
static uint64_t word(const char* nm) { uint64_t b = vp_u64(nm); vp_assume(((b >> 52) & 0x7ff) != 0x7ff && ((b >> 23) & 0xff) != 0xff); return b; }

static V value(int k, long n, const char* nm) {
  V v;
  v.k = k; v.n = n; v.c = -1;
  for (int i = 0; i < 4; ++i) v.x[i] = word(nm);
  if (k == kBool) v.x[0] &= 1;
  return v;
}
static il::String text(const V& v) {
  char t[40];
  for (long i = 0; i < v.n; ++i) t[i] = 'a';
  if (v.n > 0) t[v.n / 2] = (char)(v.x[0] & 127);
  return il::String{il::StringType::Ascii, t, v.n};
}
template <typename T>
static il::Array<T> arr(const V& v) {
  il::Array<T> a{v.n};
  for (long i = 0; i < v.n; ++i) a[i] = (T)v.x[i];
  return a;
}
template <typename T>
static il::Array2D<T> mat(const V& v) {
  il::Array2D<T> a{2, 2};
  for (long i = 0; i < 4; ++i) a(i / 2, i % 2) = (T)v.x[i];
  return a;
}
static il::Array<double> arrd(const V& v) {
  il::Array<double> a{v.n};
  for (long i = 0; i < v.n; ++i) a[i] = dbl(v.x[i]);
  return a;
}
static il::Array2D<double> matd(const V& v) {
  il::Array2D<double> a{2, 2};
  for (long i = 0; i < 4; ++i) a(i / 2, i % 2) = dbl(v.x[i]);
  return a;
}
template <typename T>
static il::Dynamic put(T a, bool move) {
  if (move) return il::Dynamic{std::move(a)};
  il::Dynamic d{a};
  return d;
}
static il::Dynamic make(const V& v, bool move) {
  switch (v.k) {
    case kVoid: return il::Dynamic{};
    case kBool: return il::Dynamic{(bool)(v.x[0] & 1)};
    case kUChar: return il::Dynamic{(unsigned char)v.x[0]};
    case kSChar: return il::Dynamic{(signed char)v.x[0]};
    case kUShort: return il::Dynamic{(unsigned short)v.x[0]};
    case kShort: return il::Dynamic{(short)v.x[0]};
    case kInt: return il::Dynamic{(int)v.x[0]};
    case kInteger: return il::Dynamic{(il::int_t)v.x[0]};
    case kFloat: return il::Dynamic{flt(v.x[0])};
    case kDouble: return il::Dynamic{dbl(v.x[0])};
    case kString: return put(text(v), move);
    case kArrD: { ArrD a; if (v.c >= 0) a.Append(make(g_pool[v.c], move)); return put(a, move); }
    case kMap: { MapD a; if (v.c >= 0) a.Set(il::String{"key"}, make(g_pool[v.c], move)); return put(a, move); }
    case kMapA: { MapA a; if (v.c >= 0) a.Set(il::String{"key"}, make(g_pool[v.c], move)); return put(a, move); }
    case kAU8: return put(arr<unsigned char>(v), move);
    case kAI8: return put(arr<signed char>(v), move);
    case kAU16: return put(arr<unsigned short>(v), move);
    case kAI16: return put(arr<short>(v), move);
    case kAU32: return put(arr<unsigned int>(v), move);
    case kAI32: return put(arr<int>(v), move);
    case kAU64: return put(arr<il::uint_t>(v), move);
    case kAI64: return put(arr<il::int_t>(v), move);
    case kADouble: return put(arrd(v), move);
    case kM: return put(matd(v), move);
    case kMU8: return put(mat<unsigned char>(v), move);
  }
  return il::Dynamic{};
}
template <typename T>
static bool eq(const il::Array<T>& a, const V& v) {
  vp_assert(a.size() == v.n, "size of the array stored");
  bool ok = true;
  for (long i = 0; i < v.n; ++i) ok = ok & (a[i] == (T)v.x[i]);
  return ok;
}
// the kinds the tag may be mistaken for
static int tagged(const il::Dynamic& d) {
  return (d.is<bool>() ? 1 : 0) + (d.is<unsigned char>() ? 2 : 0) + (d.is<signed char>() ? 4 : 0) + (d.is<unsigned short>() ? 8 : 0) + (d.is<short>() ? 16 : 0) +
         (d.is<il::int_t>() ? 32 : 0) + (d.is<float>() ? 64 : 0) + (d.is<double>() ? 128 : 0) + (d.is<il::String>() ? 256 : 0) + (d.is<ArrD>() ? 512 : 0) +
         (d.is<MapD>() ? 1024 : 0) + (d.is<MapA>() ? 2048 : 0) + (d.is<il::Array<unsigned char>>() ? 4096 : 0) + (d.is<il::Array<signed char>>() ? 8192 : 0) +
         (d.is<il::Array<unsigned short>>() ? 1 << 14 : 0) + (d.is<il::Array<short>>() ? 1 << 15 : 0) + (d.is<il::Array<unsigned int>>() ? 1 << 16 : 0) +
         (d.is<il::Array<int>>() ? 1 << 17 : 0) + (d.is<il::Array<il::uint_t>>() ? 1 << 18 : 0) + (d.is<il::Array<il::int_t>>() ? 1 << 19 : 0) +
         (d.is<il::Array<double>>() ? 1 << 20 : 0) + (d.is<il::Array2D<double>>() ? 1 << 21 : 0) + (d.is<il::Array2D<unsigned char>>() ? 1 << 22 : 0);
}
static void same(const il::Dynamic& d, const V& v) {
  const int tag = v.k == kVoid ? 0 : (v.k <= kInt ? 1 << (v.k - 1) : 1 << (v.k - 2));
  vp_assert(tagged(d) == tag, "a value does not have exactly the type stored");
  vp_assert((d.type() == il::Type::Void) == (v.k == kVoid), "type of the value");
  bool ok = true;
  switch (v.k) {
    case kBool: ok = d.to<bool>() == (bool)(v.x[0] & 1); break;
    case kUChar: ok = d.to<unsigned char>() == (unsigned char)v.x[0]; break;
    case kSChar: ok = d.to<signed char>() == (signed char)v.x[0]; break;
    case kUShort: ok = d.to<unsigned short>() == (unsigned short)v.x[0]; break;
    case kShort: ok = d.to<short>() == (short)v.x[0]; break;
    case kInt: ok = d.to<il::int_t>() == (int)v.x[0]; break;
    case kInteger: ok = d.to<il::int_t>() == (il::int_t)v.x[0]; break;
    case kFloat: ok = bitsf(d.to<float>()) == (uint32_t)v.x[0]; break;
    case kDouble: ok = bits(d.to<double>()) == v.x[0]; break;
    case kString: {
      const il::String& s = d.as<il::String>();
      vp_assert(s.size() == v.n, "size of the string stored");
      for (long i = 0; i < v.n; ++i) ok = ok & (s.data()[i] == (i == v.n / 2 ? (char)(v.x[0] & 127) : 'a'));
      break;
    }
    case kArrD: {
      const ArrD& a = d.as<ArrD>();
      vp_assert(a.size() == (v.c >= 0), "size of the array stored");
      if (v.c >= 0) same(a[0], g_pool[v.c]);
      break;
    }
    case kMap: {
      const MapD& a = d.as<MapD>();
      vp_assert(a.nbElements() == (v.c >= 0), "size of the map stored");
      if (v.c >= 0) { const il::spot_t i = a.search("key"); vp_assert(a.found(i), "key of the map stored"); same(a.value(i), g_pool[v.c]); }
      break;
    }
    case kMapA: {
      const MapA& a = d.as<MapA>();
      vp_assert(a.nbElements() == (v.c >= 0), "size of the map stored");
      if (v.c >= 0) { const il::spot_t i = a.search("key"); vp_assert(a.found(i), "key of the map stored"); same(a.value(i), g_pool[v.c]); }
      break;
    }
    case kAU8: ok = eq(d.as<il::Array<unsigned char>>(), v); break;
    case kAI8: ok = eq(d.as<il::Array<signed char>>(), v); break;
    case kAU16: ok = eq(d.as<il::Array<unsigned short>>(), v); break;
    case kAI16: ok = eq(d.as<il::Array<short>>(), v); break;
    case kAU32: ok = eq(d.as<il::Array<unsigned int>>(), v); break;
    case kAI32: ok = eq(d.as<il::Array<int>>(), v); break;
    case kAU64: ok = eq(d.as<il::Array<il::uint_t>>(), v); break;
    case kAI64: ok = eq(d.as<il::Array<il::int_t>>(), v); break;
    case kADouble: {
      const il::Array<double>& a = d.as<il::Array<double>>();
      vp_assert(a.size() == v.n, "size of the array stored");
      for (long i = 0; i < v.n; ++i) ok = ok & (bits(a[i]) == v.x[i]);
      break;
    }
    case kM: {
      const il::Array2D<double>& a = d.as<il::Array2D<double>>();
      vp_assert(a.size(0) == 2 && a.size(1) == 2, "size of the matrix stored");
      for (long i = 0; i < 4; ++i) ok = ok & (bits(a(i / 2, i % 2)) == v.x[i]);
      break;
    }
    case kMU8: {
      const il::Array2D<unsigned char>& a = d.as<il::Array2D<unsigned char>>();
      vp_assert(a.size(0) == 2 && a.size(1) == 2, "size of the matrix stored");
      for (long i = 0; i < 4; ++i) ok = ok & (a(i / 2, i % 2) == (unsigned char)v.x[i]);
      break;
    }
  }
  vp_assert(ok, "the value read is not the value stored");
}
static V nest(int k) {
  V v = value(k, 0, "x");
  g_pool[g_np] = value(vp_flag("leaf") ? kString : kInt, 30, "x");
  v.c = g_np++;
  return v;
}
VP_ENTRY(E01_kinds) {
  g_np = 0;
  {
    const int k = (int)vp_pick("kind", 0, kNb - 1);
    V v = (k == kArrD || k == kMap || k == kMapA) && vp_flag("nested") ? nest(k) : value(k, k == kString ? (vp_flag("long") ? 30 : 3) : (k >= kAU8 && k <= kADouble && vp_flag("empty") ? 0 : 2), "x");
    const V none = value(kVoid, 0, "x");
    il::Dynamic a = make(v, vp_flag("move"));
    same(a, v);
    il::Dynamic b{a};
    same(b, v);
    il::Dynamic c{std::move(a)};
    same(c, v);
    same(a, none);
    a = b;
    same(a, v);
    b = 1;
    same(a, v);
    b = std::move(a);
    same(b, v);
    same(a, none);
    vp_cover("kind");
  }
}
static V pick(int which) {
  switch (which) {
    case 0: return value(kInteger, 0, "x");
    case 1: return value(kString, 5, "x");
    case 2: return value(kString, 30, "x");
    case 3: return nest(kArrD);
    default: return nest(kMapA);
  }
}
static void step(il::Dynamic& a, V& r, il::Dynamic& b, V& rb) {
  V none = value(kVoid, 0, "x");
  V x = value(kVoid, 0, "y");
  switch (vp_pick("op", 0, 16)) {
    case 0: a = b; r = rb; break;
    case 1: a = std::move(b); r = rb; rb = none; break;
    case 2: { il::Dynamic& q = a; a = q; break; }
    case 3: { il::Dynamic& q = a; a = std::move(q); break; }
    case 4: { il::Dynamic c{a}; same(c, r); c = true; same(a, r); b = c; rb = x; rb.k = kBool; rb.x[0] = 1; break; }
    case 5: a = (unsigned char)x.x[0]; r = x; r.k = kUChar; break;
    case 6: a = (signed char)x.x[0]; r = x; r.k = kSChar; break;
    case 7: a = (unsigned short)x.x[0]; r = x; r.k = kUShort; break;
    case 8: a = (short)x.x[0]; r = x; r.k = kShort; break;
    case 9: a = (int)x.x[0]; r = x; r.k = kInt; break;
    case 10: a = (il::int_t)x.x[0]; r = x; r.k = kInteger; break;
    case 11: a = flt(x.x[0]); r = x; r.k = kFloat; break;
    case 12: a = dbl(x.x[0]); r = x; r.k = kDouble; break;
    case 13: {  // a string, possibly its own
      if (r.k == kString) {
        if (vp_flag("move")) a = std::move(a.As<il::String>()); else a = a.as<il::String>();
      } else {
        x.k = kString; x.n = vp_flag("long") ? 30 : 3;
        if (vp_flag("move")) a = text(x); else { const il::String s = text(x); a = s; }
        r = x;
      }
      break;
    }
    case 14:  // its own content
      if (r.k == kArrD) { if (vp_flag("move")) a = std::move(a.As<ArrD>()[0]); else a = a.as<ArrD>()[0]; V t = g_pool[r.c]; r = t; }
      if (r.k == kMapA) { const il::spot_t i = a.as<MapA>().search("key"); if (vp_flag("move")) a = std::move(a.As<MapA>().Value(i)); else a = a.as<MapA>().value(i); V t = g_pool[r.c]; r = t; }
      break;
    case 15:  // a change of its content does not change its copies
      b = a; rb = r;
      if (r.k == kArrD) { a.As<ArrD>()[0] = (il::int_t)x.x[0]; x.k = kInteger; g_pool[g_np] = x; r.c = g_np++; }
      else if (r.k == kInteger) { a.As<il::int_t>() = (il::int_t)x.x[0]; r.x[0] = x.x[0]; }
      else if (r.k == kString) { a.As<il::String>().Append("aaaa"); }
      same(b, rb);
      if (r.k == kString) { vp_assert(a.as<il::String>().size() == r.n + 4, "size of the string stored"); a = b; }
      break;
    case 16: a = il::Dynamic{}; r = none; break;
  }
}
VP_ENTRY(E01_history) {
  g_np = 0;
#ifdef VP_DEEP
  const int steps = 3;
#else
  const int steps = 2;
#endif
  {
    V r = pick((int)vp_pick("a", 0, 4)), rb = pick((int)vp_pick("b", 0, 4));
    il::Dynamic a = make(r, true), b = make(rb, true);
    for (int s = 0; s < steps; ++s) step(a, r, b, rb);
    same(a, r);
    same(b, rb);
    vp_cover("history");
  }
}
// A debug build stops when a value is read with a type it does not have.
VP_ENTRY(E01_wrong) {
#ifndef NDEBUG
  g_np = 0;
  vp_allow_leak();
  const int k = (int)vp_pick("kind", 0, kNb - 1);
  V v = value(k, 2, "x");
  il::Dynamic a = make(v, true);
  const int q = (int)vp_pick("read", 0, 7);
  const int kk[8] = {kBool, kInteger, kDouble, kFloat, kString, kArrD, kAI32, kADouble};
  const bool ok = kk[q] == k || (kk[q] == kInteger && k == kInt);
  vp_abort_ok(!ok);
  switch (q) {
    case 0: { if (vp_flag("As")) (void)a.As<bool>(); else (void)a.to<bool>(); break; }
    case 1: { if (vp_flag("As")) (void)a.As<il::int_t>(); else (void)a.to<il::int_t>(); break; }
    case 2: { if (vp_flag("As")) (void)a.As<double>(); else (void)a.to<double>(); break; }
    case 3: { if (vp_flag("As")) (void)a.As<float>(); else (void)a.to<float>(); break; }
    case 4: { if (vp_flag("As")) (void)a.As<il::String>(); else (void)a.as<il::String>(); break; }
    case 5: { if (vp_flag("As")) (void)a.As<ArrD>(); else (void)a.as<ArrD>(); break; }
    case 6: { if (vp_flag("As")) (void)a.As<il::Array<int>>(); else (void)a.as<il::Array<int>>(); break; }
    case 7: { if (vp_flag("As")) (void)a.As<il::Array<double>>(); else (void)a.as<il::Array<double>>(); break; }
  }
  vp_assert(ok, "a value is read with a type it does not have");
#endif
}
