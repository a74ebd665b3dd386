// Unicode runes in String: encoding, decoding and validation of UTF-8.
// vp: variants debug ndebug
// bound: every rune (S03_rune), every pair of runes (every triple with VP_DEEP) after a prefix of 0, 1, 19 to 23 bytes (S03_text), 0, 1, 2, 3, 5 or 9 copies of every rune after 0, 2 or 20 to 23 bytes, with or without spare memory (S03_repeat), every sequence of 4 bytes (5 with VP_DEEP) for the validation (S03_valid)
#include "str.h"

// Table 3-6 of the Unicode standard, written as arithmetic on the code point
static int encode(long r, unsigned char* o) {
  if (r < 0x80) { o[0] = (unsigned char)r; return 1; }
  if (r < 0x800) { o[0] = (unsigned char)(192 + r / 64); o[1] = (unsigned char)(128 + r % 64); return 2; }
  if (r < 0x10000) { o[0] = (unsigned char)(224 + r / 4096); o[1] = (unsigned char)(128 + r / 64 % 64); o[2] = (unsigned char)(128 + r % 64); return 3; }
  o[0] = (unsigned char)(240 + r / 262144); o[1] = (unsigned char)(128 + r / 4096 % 64); o[2] = (unsigned char)(128 + r / 64 % 64); o[3] = (unsigned char)(128 + r % 64);
  return 4;
}
static int rune(const char* nm) {
  const int r = (int)vp_int(nm, 0, 0x10FFFF);
  vp_assume(r < 0xD800 || r > 0xDFFF);
  return r;
}
static void put(Ref& m, int r) {
  unsigned char e[4];
  const int k = encode(r, e);
  ins(m, m.n, (const char*)e, k, k == 1 ? il::StringType::Ascii : il::StringType::Utf8);
}
VP_ENTRY(S03_isrune) {
  const int r = vp_i32("r");
  vp_assert(il::isRune(r) == (r >= 0 && r <= 0x10FFFF && (r < 0xD800 || r > 0xDFFF)), "isRune");
  vp_cover("isrune");
}
VP_ENTRY(S03_rune) {
  const int r = rune("r");
  Ref m;
  m.n = 0;
  m.t = il::StringType::Ascii;
  put(m, r);
  il::String s{};
  s.Append(r);
  same(s, m);
  const il::StringView v = s;
  vp_assert(v.rune(0) == r, "the rune read is not the rune appended");
  vp_assert(v.nextRune(0) == m.n, "nextRune");
  if (r != 0) vp_assert(il::isUtf8(s.asCString()) && il::isAscii(s.asCString()) == (r < 128), "the encoding of a rune is not valid");
  vp_assert(il::isAscii(s.data(), s.size()) == (r < 128), "isAscii");
  vp_cover("rune");
}
VP_ENTRY(S03_text) {
#ifdef VP_DEEP
  const int k = 3;
#else
  const int k = 2;
#endif
  const long kN[7] = {0, 1, 19, 20, 21, 22, 23};
  Ref m;
  m.n = 0;
  m.t = vp_flag("utf8") ? il::StringType::Utf8 : il::StringType::Ascii;
  const long p = kN[vp_pick("prefix", 0, 6)];
  for (long i = 0; i < p; ++i) m.v[m.n++] = (char)('a' + i);
  il::String s = make(m, vp_flag("spare") ? 50 : 0);
  int r[3];
  long pos[4];
  for (int i = 0; i < k; ++i) {
    r[i] = rune("r");
    pos[i] = m.n;
    put(m, r[i]);
    s.Append(r[i]);
  }
  pos[k] = m.n;
  same(s, m);
  const il::StringView v = s;
  il::int_t i = p > 0 ? v.nextRune(p - 1) : 0;
  for (int j = 0; j < k; ++j) {
    vp_assert(i == pos[j], "a rune is at the wrong place");
    vp_assert(v.rune(i) == r[j], "the runes read are not the runes appended");
    i = v.nextRune(i);
  }
  vp_assert(i == m.n, "the runes do not end at the end of the text");
  if (s.isUtf8()) {
    for (long q = p > 0 ? p - 1 : 0; q <= m.n; ++q) {
      bool b = q < p;
      for (int j = 0; j <= k; ++j) b = b || q == pos[j];
      vp_assert(s.isRuneBoundary(q) == b, "isRuneBoundary");
    }
  }
  vp_cover("text");
}
VP_ENTRY(S03_repeat) {
  const long kN[6] = {0, 2, 20, 21, 22, 23}, kTimes[6] = {0, 1, 2, 3, 5, 9};
  Ref m;
  m.n = 0;
  m.t = il::StringType::Ascii;
  const long p = kN[vp_pick("prefix", 0, 5)];
  for (long i = 0; i < p; ++i) m.v[m.n++] = (char)('a' + i);
  il::String s = make(m, vp_flag("spare") ? 47 : 0);
  const int r = rune("r");
  const long n = kTimes[vp_pick("n", 0, 5)];
  for (long i = 0; i < n; ++i) put(m, r);
  if (n == 0 && r >= 128) m.t = il::StringType::Utf8;
  s.Append(il::int_t(n), r);
  same(s, m);
  vp_cover("repeat");
}
// is the sequence of bytes before the null character well formed? (table 3-7)
static bool wellformed(const unsigned char* s) {
  long i = 0;
  while (s[i]) {
    const unsigned c = s[i];
    int k;
    if (c < 0x80) k = 0;
    else if (c >= 0xC0 && c < 0xE0) k = 1;
    else if (c >= 0xE0 && c < 0xF0) k = 2;
    else if (c >= 0xF0 && c < 0xF8) k = 3;
    else return false;
    long r = k == 0 ? c : k == 1 ? c - 0xC0 : k == 2 ? c - 0xE0 : c - 0xF0;
    for (int j = 1; j <= k; ++j) {
      const unsigned d = s[i + j];
      if (d < 0x80 || d > 0xBF) return false;
      r = r * 64 + (d - 0x80);
    }
    if (k == 1 && r < 0x80) return false;
    if (k == 2 && (r < 0x800 || (r >= 0xD800 && r <= 0xDFFF))) return false;
    if (k == 3 && (r < 0x10000 || r > 0x10FFFF)) return false;
    i += k + 1;
  }
  return true;
}
VP_ENTRY(S03_valid) {
#ifdef VP_DEEP
  const int n = 5;
#else
  const int n = 4;
#endif
  unsigned char s[6];
  for (int i = 0; i < n; ++i) s[i] = vp_u8("s");
  s[n] = 0;
  bool asc = true;
  long len = 0;
  while (s[len]) { asc = asc & (s[len] < 128); ++len; }
  vp_assert(il::isUtf8((const char*)s) == wellformed(s), "isUtf8");
  vp_assert(il::isAscii((const char*)s) == asc, "isAscii");
  vp_assert(il::isAscii((const char*)s, len) == asc, "isAscii with a size");
  bool b = !asc;
  vp_assert(il::cstringSizeType((const char*)s, il::io, b) == len && b == asc, "size and type of a C string");
  vp_cover("valid");
}
