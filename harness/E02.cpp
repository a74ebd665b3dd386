// Info: the records attached to errors.
// vp: variants debug ndebug
// bound: E02_long: two keys of 1 to 130 characters that may differ at the beginning, the middle or the end, with a text of up to 520 characters and an integer
// bound: E02_history: every sequence of up to 3 settings with any keys of up to 2 characters, any integers, doubles and booleans, texts of 0, 3 and 20 characters (the third one an integer or a text unless VP_DEEP), then a copy, a move or an assignment to an empty, small or large Info
#include "vp.h"
#include <il/Info.h>
#include <cstring>
#include <utility>

static uint64_t bits(double d) { uint64_t b; std::memcpy(&b, &d, 8); return b; }
static double dbl(uint64_t b) { double d; std::memcpy(&d, &b, 8); return d; }
struct Rec {
  char key[3];
  int k;  // 0: integer, 1: double, 2: text, 3: bool
  uint64_t x;
  char s[24];
};
struct Ref {
  Rec r[6];
  int n;
};
static bool eq(const char* a, const char* b) {
  // both of at most 2 characters: no branch on their content
  bool z = a[0] == 0;
  return (a[0] == b[0]) & (z | ((a[1] == b[1])));
}
static void key(char* k, const char* nm) {
  k[0] = (char)vp_u8(nm); k[1] = (char)vp_u8(nm); k[2] = 0;
}
static void same(const il::Info& a, const Ref& m) {
  vp_assert(a.isEmpty() == (m.n == 0), "isEmpty");
  for (int i = 0; i < m.n; ++i) {
    bool later = false;
    for (int j = i + 1; j < m.n; ++j) later = later | eq(m.r[i].key, m.r[j].key);
    if (later) continue;  // the last value set for a key counts
    const Rec& r = m.r[i];
    const il::int_t p = a.search(r.key);
    vp_assert(a.found(p), "a key that was set is not found");
    vp_assert(a.isInteger(p) == (r.k == 0) && a.isDouble(p) == (r.k == 1) && a.isString(p) == (r.k == 2) && a.isBool(p) == (r.k == 3), "type of the value");
    if (r.k == 0) { vp_assert(a.toInteger(p) == (il::int_t)r.x && a.toInteger(r.key) == (il::int_t)r.x, "the integer read is not the last one set"); }
    if (r.k == 1) { vp_assert(bits(a.toDouble(p)) == r.x && bits(a.toDouble(r.key)) == r.x, "the double read is not the last one set"); }
    if (r.k == 2) { vp_assert(std::strcmp(a.asCString(p), r.s) == 0 && a.asCString(r.key) == a.asCString(p), "the text read is not the last one set"); }
    if (r.k == 3) { vp_assert(a.toBool(p) == (r.x != 0) && a.toBool(r.key) == (r.x != 0), "the boolean read is not the last one set"); }
  }
}
static void set(il::Info& a, Ref& m, const char* nm) {
  Rec& r = m.r[m.n];
  key(r.key, nm);
  int k = (int)vp_pick("kind", 0, 6);
#ifndef VP_DEEP
  if (m.n == 2) vp_assume(k == 1 || k == 5 || k == 6);
#endif
  if (k == 0) { r.k = 0; const int x = vp_i32("i"); r.x = (uint64_t)(int64_t)x; a.Set(r.key, x); }
  if (k == 1) { r.k = 0; r.x = vp_u64("i"); a.Set(r.key, (il::int_t)r.x); }
  if (k == 2) { r.k = 1; r.x = vp_u64("d"); vp_assume(((r.x >> 52) & 0x7ff) != 0x7ff); a.Set(r.key, dbl(r.x)); }
  if (k == 3) { r.k = 3; r.x = vp_bool("b"); a.Set(r.key, r.x != 0); }
  if (k >= 4) {
    r.k = 2;
    const int n = k == 4 ? 0 : k == 5 ? 3 : 20;
    for (int i = 0; i < n; ++i) r.s[i] = 'a';
    if (n > 0) { r.s[0] = (char)vp_int("c", 1, 255); r.s[n - 1] = 'z'; }
    r.s[n] = 0;
    a.Set(r.key, (const char*)r.s);
  }
  ++m.n;
}
VP_ENTRY(E02_history) {
  const int steps = 3;
  {
    il::Info a;
    Ref m;
    m.n = 0;
    same(a, m);
    const int n = (int)vp_pick("n", 0, steps);
    for (int i = 0; i < n; ++i) set(a, m, "k");
    same(a, m);
    // a key that was never set
    char q[3];
    key(q, "q");
    bool in = false;
    for (int i = 0; i < m.n; ++i) in = in | eq(m.r[i].key, q);
    vp_assert(a.found(a.search(q)) == in, "a key is found that was not set");
    vp_cover("history");
  }
}
VP_ENTRY(E02_copy) {
  {
    il::Info a, b;
    Ref m, mb;
    m.n = 0;
    mb.n = 0;
    const int n = (int)vp_pick("n", 0, 2), nb = (int)vp_pick("nb", 0, 2);
    for (int i = 0; i < n; ++i) { Rec& r = m.r[m.n++]; r.key[0] = (char)('a' + i); r.key[1] = 0; r.k = i == 1 ? 2 : 0; r.x = vp_u64("i"); std::strcpy(r.s, "twenty characters..."); if (i == 1) a.Set(r.key, (const char*)r.s); else a.Set(r.key, (il::int_t)r.x); }
    for (int i = 0; i < nb; ++i) { Rec& r = mb.r[mb.n++]; r.key[0] = (char)('a' + i); r.key[1] = 0; r.k = i == 0 ? 2 : 1; r.x = vp_u64("d"); vp_assume(((r.x >> 52) & 0x7ff) != 0x7ff); std::strcpy(r.s, "some other text"); if (i == 0) b.Set(r.key, (const char*)r.s); else b.Set(r.key, dbl(r.x)); }
    for (int s = 0; s < 2; ++s) switch (vp_pick("op", 0, 7)) {
      case 0: a = b; m = mb; break;
      case 1: a = std::move(b); m = mb; mb.n = 0; b.clear(); break;
      case 2: { il::Info& q = a; a = q; break; }
      case 3: { il::Info& q = a; a = std::move(q); break; }
      case 4: { il::Info c{a}; same(c, m); c.Set("zz", 1.0); same(a, m); break; }
      case 5: { il::Info c{std::move(a)}; same(c, m); a = c; break; }
      case 6: a.clear(); m.n = 0; break;
      case 7:  // a key set to a text that is part of the Info
        if (m.n > 1 && m.r[1].k == 2) {
          if (vp_flag("other")) { a.Set("a", a.asCString("b")); m.r[0].k = 2; std::strcpy(m.r[0].s, m.r[1].s); } else { a.Set("b", a.asCString("b")); }
        }
        break;
    }
    same(a, m);
    same(b, mb);
    vp_cover("copy");
  }
}
// long keys that only differ at one place, long texts
VP_ENTRY(E02_long) {
  {
    static char k[3][140], t[600];
    const long n = vp_pick("length of the keys", 1, 130), place = vp_pick("place", 0, 2), at = place == 0 ? 0 : place == 1 ? n / 2 : n - 1;
    const long text = vp_pick("length of the text", 0, 3) * 130 + n;
    for (int i = 0; i < 3; ++i) {
      for (long j = 0; j < n; ++j) k[i][j] = (char)('a' + j % 23);
      k[i][n] = 0;
      k[i][at] = (char)vp_int("c", 1, 255);
    }
    for (long j = 0; j < text; ++j) t[j] = 'x';
    t[text] = 0;
    t[text / 2] = (char)vp_int("t", 1, 255);
    il::Info a;
    const il::int_t v = vp_i64("v");
    a.Set(k[0], (const char*)t);
    a.Set(k[1], v);
    const bool one = k[0][at] == k[1][at];
    const il::int_t p = a.search(k[0]), q = a.search(k[1]), r = a.search(k[2]);
    vp_assert(a.found(p) && a.found(q), "a key that was set is not found");
    vp_assert(a.isInteger(q) && a.toInteger(q) == v && a.toInteger(k[1]) == v, "the integer read is not the last one set");
    if (!one) vp_assert(a.isString(p) && std::strcmp(a.asCString(p), t) == 0 && std::strcmp(a.asCString(k[0]), t) == 0, "the text read is not the last one set");
    vp_assert(a.found(r) == ((k[2][at] == k[0][at]) | (k[2][at] == k[1][at])), "a key is found that was not set");
    // a longer and a shorter key
    char more[142];
    std::strcpy(more, k[0]); more[n] = 'z'; more[n + 1] = 0;
    vp_assert(!a.found(a.search(more)), "a key is found by one that it begins");
    more[n] = 0; more[n - 1] = 0;
    vp_assert(!a.found(a.search(more)), "a key is found by its beginning");
    vp_cover("long");
  }
}
