// UTF-16 strings: value semantics, runes, conversion from and to UTF-8.
// vp: variants debug ndebug
// bound: S04_history: every sequence of 3 operations (4 with VP_DEEP) on two strings of 0, 4, 11, 12 or 20 units with or without spare memory, any content; S04_rune: every pair of runes after 0, 1, 9 to 12 units; S04_convert: every text of up to 2 runes (3 with VP_DEEP) after 0, 9 or 20 ASCII characters
#include "vp.h"
#include <il/UTF16String.h>
#include <il/unicode.h>
#include <utility>

struct Ref {
  unsigned short v[400];
  long n;
};
static void add(Ref& r, const unsigned short* p, long n) {
  unsigned short t[200];
  for (long i = 0; i < n; ++i) t[i] = p[i];
  for (long i = 0; i < n; ++i) r.v[r.n + i] = t[i];
  r.n += n;
}
static void same(const il::UTF16String& a, const Ref& r) {
  vp_assert(a.size() == r.n && a.isEmpty() == (r.n == 0), "size of the string");
  vp_assert(a.capacity() >= r.n, "capacity smaller than size");
  const unsigned short* p = a.data();
  vp_assert((const void*)p == (const void*)a.asWString(), "data and asWString differ");
  bool ok = true;
  for (long i = 0; i < r.n; ++i) ok = ok & (p[i] == r.v[i]);
  vp_assert(ok, "content of the string");
  vp_assert(p[r.n] == 0, "the string is not terminated by a null character");
  if (!a.isSmall()) vp_assert(vp_bytes_left(p) > 2 * a.capacity(), "memory smaller than the capacity");
}
static void fill(Ref& r, long n, const char* nm) {
  r.n = n;
  for (long i = 0; i < n; ++i) {
    r.v[i] = (unsigned short)vp_sym(nm, 16, 0, 0, 0);
    vp_assume(r.v[i] != 0);
  }
  r.v[n] = 0;
}
static il::UTF16String make(const Ref& r, long reserve) {
  il::UTF16String s{reinterpret_cast<const char16_t*>(r.v)};
  if (reserve > 0) s.Reserve(reserve);
  return s;
}
static void put(Ref& r, int c) {
  unsigned short u[2];
  if (c < 0x10000) { u[0] = (unsigned short)c; add(r, u, 1); }
  else { u[0] = (unsigned short)(0xD800 + (c - 0x10000) / 1024); u[1] = (unsigned short)(0xDC00 + (c - 0x10000) % 1024); add(r, u, 2); }
}
static int rune(const char* nm) {
  const int r = (int)vp_int(nm, 1, 0x10FFFF);
  vp_assume(r < 0xD800 || r > 0xDFFF);
  return r;
}
static void step(il::UTF16String& a, Ref& r, il::UTF16String& b, Ref& rb) {
  const Ref none = {{0}, 0};
  switch (vp_pick("op", 0, 13)) {
    case 0: a = b; r = rb; break;
    case 1: a = std::move(b); r = rb; if (b.isEmpty()) rb = none; break;  // a moved string is as it was or empty
    case 2: { il::UTF16String& q = a; a = q; break; }
    case 3: { il::UTF16String& q = a; a = std::move(q); break; }
    case 4: { il::UTF16String c{a}; same(c, r); c.Append('x'); same(a, r); b = c; rb = r; const unsigned short x = 'x'; add(rb, &x, 1); break; }
    case 5: { il::UTF16String c{std::move(a)}; same(c, r); same(a, a.isEmpty() ? none : r); a = c; b = std::move(c); rb = r; same(c, c.isEmpty() ? none : r); break; }
    case 6: a.Reserve(30); vp_assert(a.capacity() >= 30, "Reserve does not give the capacity asked"); break;
    case 7: a.Append(b); add(r, rb.v, rb.n); break;
    case 8: a.Append(a); add(r, r.v, r.n); break;
    case 9: { const char c = (char)vp_int("c", 1, 127); a.Append(c); put(r, c); break; }
    case 10: { const long n = vp_flag("n") ? 10 : 0; const char c = (char)vp_int("c", 1, 127); a.Append(n, c); for (long i = 0; i < n; ++i) put(r, c); break; }
    case 11: a.Append(reinterpret_cast<const char16_t*>(rb.v)); add(r, rb.v, rb.n); break;
    case 12: a.Append(0x1F600); put(r, 0x1F600); break;
    case 13: a.Append(il::int_t(3), 0x2603); for (int i = 0; i < 3; ++i) put(r, 0x2603); break;
  }
  r.v[r.n] = 0;
  rb.v[rb.n] = 0;
}
VP_ENTRY(S04_history) {
#ifdef VP_DEEP
  const int steps = 4;
#else
  const int steps = 3;
#endif
  const long kN[5] = {0, 4, 11, 12, 20};
  const int k = (int)vp_pick("na", 0, 4);
  Ref r, rb;
  fill(r, kN[k], "a");
  fill(rb, kN[4 - k], "b");
  const bool spare = vp_flag("spare");
  il::UTF16String a = make(r, spare ? 25 : 0), b = make(rb, spare ? 0 : 25);
  for (int s = 0; s < steps && r.n < 80 && rb.n < 80; ++s) step(a, r, b, rb);
  same(a, r);
  same(b, rb);
  vp_cover("history");
}
VP_ENTRY(S04_rune) {
  const long kN[6] = {0, 1, 9, 10, 11, 12};
  Ref r;
  r.n = 0;
  const long p = kN[vp_pick("prefix", 0, 5)];
  for (long i = 0; i < p; ++i) put(r, 'a' + (int)i);
  r.v[r.n] = 0;
  il::UTF16String s = make(r, 0);
  int c[2];
  long pos[3];
  if (vp_flag("repeat")) {
    c[0] = c[1] = rune("r");
    s.Append(il::int_t(2), c[0]);
  } else {
    c[0] = rune("r"); c[1] = rune("r");
    s.Append(c[0]);
    s.Append(c[1]);
  }
  for (int i = 0; i < 2; ++i) { pos[i] = r.n; put(r, c[i]); }
  pos[2] = r.n;
  same(s, r);
  for (int i = 0; i < 2; ++i) {
    vp_assert(s.rune(pos[i]) == c[i], "the rune read is not the rune appended");
    vp_assert(s.nextRune(pos[i]) == pos[i + 1], "nextRune");
  }
  vp_cover("rune");
}
VP_ENTRY(S04_equal) {
  Ref r, q;
  const bool large = vp_flag("large");
  fill(r, vp_pick("n", 0, 2) + (large ? 10 : 0), "a");
  fill(q, vp_pick("m", 0, 2) + (large ? 10 : 0), "b");
  il::UTF16String a = make(r, 0), b = make(q, vp_flag("spare") ? 20 : 0);
  bool eq = r.n == q.n;
  for (long i = 0; i < r.n && i < q.n; ++i) eq = eq & (r.v[i] == q.v[i]);
  vp_assert((a == b) == eq, "operator==");
  vp_cover("equal");
}
VP_ENTRY(S04_convert) {
#ifdef VP_DEEP
  const int kmax = 3;
#else
  const int kmax = 2;
#endif
  const long kN[3] = {0, 9, 20};
  Ref r;
  r.n = 0;
  il::String s{};
  const long p = kN[vp_pick("prefix", 0, 2)];
  for (long i = 0; i < p; ++i) { put(r, 'a' + (int)i); s.Append((char)('a' + i)); }
  const int k = (int)vp_pick("k", 0, kmax);
  int c[3];
  for (int i = 0; i < k; ++i) { c[i] = rune("r"); put(r, c[i]); s.Append(c[i]); }
  il::UTF16String w = il::toUtf16(s);
  same(w, r);
  il::String t = il::toUtf8(w);
  vp_assert(t.size() == s.size() && t.type() == s.type(), "size or type after a conversion to UTF-16 and back");
  bool ok = true;
  for (long i = 0; i < s.size() && i < t.size(); ++i) ok = ok & (t.data()[i] == s.data()[i]);
  vp_assert(ok, "text after a conversion to UTF-16 and back");
  vp_cover("convert");
}
