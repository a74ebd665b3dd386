// String: searching, comparing and viewing agree with the bytes of the string.
// vp: variants debug ndebug
// bound: strings of up to 4 bytes (5 with VP_DEEP) for searches, 3 bytes for comparisons (4 with VP_DEEP), inline or on the heap (after 21 common bytes), any content; sub-strings of strings of 0 to 3 and 24 bytes; joins of 2 to 6 parts of 0, 1 or 13 bytes; any 64-bit integer
#include "str.h"
#include <il/core/core.h>
#include <il/container/string/algorithmString.h>
#include <il/container/hash/HashFunction.h>

#ifdef VP_DEEP
static const long kS = 5, kC = 4;
#else
static const long kS = 4, kC = 3;
#endif

// is b at position k of a?
static bool at(const Ref& a, long k, const Ref& b) {
  if (k < 0 || k + b.n > a.n) return false;
  bool ok = true;
  for (long i = 0; i < b.n; ++i) ok = ok & (a.v[k + i] == b.v[i]);
  return ok;
}
static void text(Ref& r, long n, bool large, il::StringType t, const char* nm) {
  r.n = 0;
  r.t = t;
  if (large) for (; r.n < 21; ++r.n) r.v[r.n] = (char)('a' + r.n);
  for (long i = 0; i < n; ++i) r.v[r.n++] = any(t, nm);
}
VP_ENTRY(S02_search) {
  Ref r, q;
  const bool large = vp_flag("large");
  text(r, vp_pick("n", 0, kS), large, il::StringType::Byte, "a");
  text(q, vp_pick("m", 0, 3), false, il::StringType::Byte, "s");
  il::String a = make(r, 0), s = make(q, 0);
  const long which = vp_pick("which", 0, 2);
  const il::int_t k = which == 0 ? a.search(s) : which == 1 ? il::search(s.view(), a.view()) : il::search(s, a);
  vp_assert(a.found(k) == (k >= 0), "found");
  vp_assert(k >= -1 && k + q.n <= r.n + (k < 0 ? q.n + 1 : 0), "search gives a position out of the string");
  if (k >= 0) vp_assert(at(r, k, q), "search gives a position where the text is not");
  bool before = false;
  const long end = k >= 0 ? k : r.n - q.n + 1;
  for (long i = 0; i < end; ++i) before = before | at(r, i, q);
  vp_assert(!before, "search misses an occurrence");
  vp_cover("search");
}
VP_ENTRY(S02_count) {
  Ref r;
  const bool large = vp_flag("large");
  text(r, vp_pick("n", 0, kS), large, il::StringType::Byte, "a");
  il::String a = make(r, 0);
  const char c = any(il::StringType::Ascii, "c");
  long n = 0;
  for (long i = 0; i < r.n; ++i) n += r.v[i] == c;
  vp_assert(a.count(c) == n && il::count(c, a.view()) == n, "count");
  const il::StringView v = a.view();
  const long i0 = large ? r.n : vp_pick("i0", 0, r.n);
  long first = -1;
  for (long i = r.n - 1; i >= i0; --i) first = r.v[i] == c ? i : first;
  vp_assert(v.nextChar(i0, c) == first, "nextChar");
  vp_cover("count");
}
VP_ENTRY(S02_literal) {
  Ref r;
  text(r, vp_pick("n", 0, kS), vp_flag("large"), il::StringType::Byte, "a");
  il::String a = make(r, 0);
  Ref l;
  l.n = 2; l.v[0] = 'q'; l.v[1] = 'r';
  long first = -1;
  for (long i = r.n - 2; i >= 0; --i) first = at(r, i, l) ? i : first;
  vp_assert(il::search("qr", a) == first, "search of a literal");
  vp_assert(il::search(static_cast<const char*>("qr"), a.view()) == first, "search of a C string");
  vp_assert(a.search("qr") == first, "search of a literal");
  vp_cover("literal");
}
VP_ENTRY(S02_ends) {
  Ref r, q;
  const bool large = vp_flag("large");
  text(r, vp_pick("n", 0, kS), large, il::StringType::Byte, "a");
  text(q, vp_pick("m", 0, 3), large && vp_flag("largeq"), il::StringType::Byte, "s");
  il::String a = make(r, 0), s = make(q, 0);
  vp_assert(a.startsWith(s) == at(r, 0, q), "startsWith");
  vp_assert(a.endsWith(s) == at(r, r.n - q.n, q), "endsWith");
  const char c = any(il::StringType::Byte, "c");
  const bool e = r.n > 0 && r.v[r.n > 0 ? r.n - 1 : 0] == c;
  vp_assert(a.endsWith(c) == e, "endsWith a character");
  vp_cover("ends");
}
// every range of a string, every range of that range
VP_ENTRY(S02_sub) {
  const bool large = vp_flag("large");
  Ref r, q;
  text(r, vp_pick("n", 0, 3), large, kType[vp_pick("t", 0, 3)], "a");
  const long lo = large ? 18 : 0;
  const long i1 = vp_pick("i1", lo, r.n), i0 = vp_pick("i0", lo, i1);
  il::String a = make(r, vp_flag("spare") ? 50 : 0);
  const long j1 = vp_pick("j1", 0, i1 - i0), j0 = vp_pick("j0", 0, j1);
  q.n = 0; q.t = il::StringType::Ascii;
  ins(q, 0, r.v + i0, i1 - i0, r.t);
  {
    il::String b = a.substring(i0, i1);
    same(b, q);
    b.Append('z');
    same(a, r);
  }
  const il::StringView v = a.subview(i0, i1);
  vp_assert(v.data() == a.data() + i0 && v.size() == i1 - i0 && v.type() == r.t && v.isEmpty() == (i0 == i1), "subview");
  const il::StringView w = v.subview(j0, j1);
  vp_assert(w.data() == a.data() + i0 + j0 && w.size() == j1 - j0 && w.type() == r.t, "subview of a view");
  il::StringView x = v;
  x.removePrefix(j0);
  vp_assert(x.data() == v.data() + j0 && x.size() == v.size() - j0, "removePrefix");
  x = v;
  x.removeSuffix(j1);
  vp_assert(x.data() == v.data() && x.size() == j1, "removeSuffix");
  q.n = 0;
  ins(q, 0, r.v + i0 + j0, j1 - j0, r.t);
  il::String c{w};
  same(c, q);
  if (j1 > j0) {
    vp_assert(&w[j1 - j0 - 1] == a.data() + i0 + j1 - 1 && &w.back(0) == a.data() + i0 + j1 - 1 && &w.back(j1 - j0 - 1) == a.data() + i0 + j0, "element of a view");
  }
  vp_cover("sub");
}
VP_ENTRY(S02_compare) {
  Ref r, q;
  const bool large = vp_flag("large");
  text(r, vp_pick("n", 0, kC), large, il::StringType::Byte, "a");
  text(q, vp_pick("m", 0, kC), large, il::StringType::Byte, "b");
  il::String a = make(r, 0), b = make(q, vp_flag("spare") ? 50 : 0);
  const bool eq = r.n == q.n ? at(r, 0, q) : false;
  vp_assert((a == b) == eq, "operator==");
  // lexicographic order of the bytes
  const long mn = r.n < q.n ? r.n : q.n;
  bool lt = r.n < q.n, gt = q.n < r.n;
  for (long i = mn - 1; i >= 0; --i) {
    const unsigned char x = r.v[i], y = q.v[i];
    lt = (x < y) | ((x == y) & lt);
    gt = (y < x) | ((x == y) & gt);
  }
  const bool l = a < b, g = b < a;
  vp_assert(l == lt && g == gt, "operator< is not the order of the bytes");
  vp_assert(a.isEqual(b.data(), q.n) == eq, "isEqual with a size");
  bool nul = false;
  for (long i = 0; i < q.n; ++i) nul = nul | (q.v[i] == 0);
  vp_assert(il::HashFunction<il::String>::isEqual(a, b) == eq && il::HashFunction<il::String>::isEqual(a, b.data(), q.n) == eq, "equality of the keys of a map");
  if (!nul) {
    const char* s = b.asCString();
    vp_assert(a.isEqual(s) == eq, "isEqual with a C string");
    vp_assert((a == s) == eq && (s == a) == eq && (a != s) == !eq && (s != a) == !eq, "comparison with a C string");
    vp_assert((a.view() == s) == eq, "comparison of a view with a C string");
    vp_assert((s < a) == gt, "order with a C string");
  }
  vp_cover("compare");
}
VP_ENTRY(S02_view) {
  Ref r;
  text(r, vp_pick("n", 0, kC), vp_flag("large"), il::StringType::Byte, "a");
  il::String a = make(r, 0);
  il::StringView v = a;
  vp_assert(v.data() == a.data() && v.size() == r.n && v.type() == r.t, "view of a string");
  const long n = r.n;
  const char* p = r.v;
  auto digit = [](char c) { return c >= '0' && c <= '9'; };
  auto nl = [&](long i) { return p[i] == '\n' || (i + 1 < n && p[i] == '\r' && p[i + 1] == '\n'); };
  long nd = -1, nn = -1;
  const long lo = n > 10 ? n - 3 : 0;
  const long i0 = vp_pick("i0", lo, n);
  for (long i = n - 1; i >= i0; --i) { nd = digit(p[i]) ? i : nd; nn = nl(i) ? i : nn; }
  vp_assert(v.nextDigit(i0) == nd, "nextDigit");
  vp_assert(v.nextNewLine(i0) == nn, "nextNewLine");
  vp_assert(v.startsWithNewLine() == (n > 0 && nl(0)), "startsWithNewLine");
  vp_assert(v.endsWithNewLine() == (n > 0 && p[n > 0 ? n - 1 : 0] == '\n'), "endsWithNewLine");
  if (n > 0) {
    vp_assert(v.startsWithDigit() == digit(p[0]), "startsWithDigit");
    vp_assert(v.endsWithDigit() == digit(p[n - 1]), "endsWithDigit");
  }
  const char c = any(il::StringType::Byte, "c");
  vp_assert(v.startsWith(c) == (n > 0 && p[0] == c), "startsWith a character");
  vp_assert(v.endsWith(c) == (n > 0 && p[n > 0 ? n - 1 : 0] == c), "endsWith a character");
  if (i0 < n) {
    const char x = p[i0];
    vp_assert(v[i0] == x && v.has(i0, c) == (x == c), "character of a view");
    vp_assert(v.hasSpace(i0) == (x == ' ' || (x >= 9 && x <= 13)), "hasSpace");
    vp_assert(v.hasDigit(i0) == digit(x), "hasDigit");
    vp_assert(v.hasHexaDecimal(i0) == (digit(x) || (x >= 'a' && x <= 'f') || (x >= 'A' && x <= 'F')), "hasHexaDecimal");
    vp_assert(v.hasNewLine(i0) == nl(i0), "hasNewLine");
  }
  vp_cover("view");
}
VP_ENTRY(S02_trim) {
  Ref r, s;
  text(r, vp_pick("n", 0, kS), vp_flag("large"), il::StringType::Byte, "a");
  il::String a = make(r, 0);
  auto blank = [](char c) { return c == ' ' || c == '\t'; };
  long f = 0, l = r.n;
  while (f < r.n && blank(r.v[f])) ++f;
  il::StringView v = a;
  v.trimPrefix();
  vp_assert(v.data() == a.data() + f && v.size() == r.n - f, "trimPrefix");
  v = il::removeWhitespaceLeft(a);
  vp_assert(v.data() == a.data() + f && v.size() == r.n - f, "removeWhitespaceLeft");
  while (l > 0 && blank(r.v[l - 1])) --l;
  v = a;
  v.trimSuffix();
  vp_assert(v.data() == a.data() && v.size() == l, "trimSuffix");
  // texts given as C strings
  text(s, vp_pick("m", 0, 2), false, il::StringType::Byte, "s");
  for (long i = 0; i < s.n; ++i) vp_assume(s.v[i] != 0);
  s.v[s.n] = '\0';
  v = a;
  vp_assert(v.startsWith(s.v) == at(r, 0, s), "startsWith a C string");
  vp_assert(v.endsWith(s.v) == at(r, r.n - s.n, s), "endsWith a C string");
  const long i = r.n > 1 ? r.n - 1 : 0;
  vp_assert(v.has(i, s.v) == at(r, i, s), "has a C string");
  const il::StringView w = il::view(s.v);
  vp_assert(w.data() == s.v && w.size() == s.n, "view of a C string");
  il::String t = il::toString(static_cast<const char*>(s.v));
  s.t = il::StringType::Byte;
  same(t, s);
  vp_cover("trim");
}
VP_ENTRY(S02_join) {
  const long kN[3] = {0, 1, 13};
  const int k = (int)vp_pick("parts", 2, 6);
  Ref p[6], r;
  r.n = 0;
  r.t = il::StringType::Ascii;
  for (int i = 0; i < k; ++i) {
    const int tt = i < 2 ? (int)vp_pick("t", 0, 3) : i % 4;
    fill(p[i], i < 4 ? kN[vp_pick("n", 0, 2)] : kN[1], kType[tt], "p");
    ins(r, r.n, p[i].v, p[i].n, p[i].t);
  }
  il::StringView v[6];
  for (int i = 0; i < k; ++i) v[i] = il::StringView{p[i].t, p[i].v, p[i].n};
  switch (k) {
    case 2: same(il::join(v[0], v[1]), r); break;
    case 3: same(il::join(v[0], v[1], v[2]), r); break;
    case 4: same(il::join(v[0], v[1], v[2], v[3]), r); break;
    case 5: same(il::join(v[0], v[1], v[2], v[3], v[4]), r); break;
    case 6: same(il::join(v[0], v[1], v[2], v[3], v[4], v[5]), r); break;
  }
  vp_cover("join");
}
VP_ENTRY(S02_number) {
  // around each power of ten, where the number of digits changes, and at the ends
  long v = 1;
  const long k = vp_pick("k", 0, 18);
  for (long i = 0; i < k; ++i) v *= 10;
  long n;
  if (vp_flag("ends")) n = vp_flag("min") ? (-9223372036854775807l - 1) + vp_int("d", 0, 1) : 9223372036854775807l - vp_int("d", 0, 1);
  else n = (vp_flag("neg") ? -1 : 1) * (v + vp_int("d", -1, 1));
  const il::String s = il::toString((il::int_t)n);
  unsigned long u = n < 0 ? 0ul - (unsigned long)n : (unsigned long)n;
  char d[24];
  long m = 0;
  do { d[m++] = (char)('0' + u % 10); u /= 10; } while (u);
  if (n < 0) d[m++] = '-';
  Ref r;
  r.n = m;
  r.t = il::StringType::Ascii;
  for (long i = 0; i < m; ++i) r.v[i] = d[m - 1 - i];
  same(s, r);
  vp_cover("number");
}
// contract with the hash tables
VP_ENTRY(S02_hash) {
  typedef il::HashFunction<il::String> H;
  Ref r;
  text(r, vp_pick("n", 0, 4), vp_flag("large"), kType[vp_pick("t", 0, 3)], "a");
  il::String a = make(r, 0), b = make(r, 60);
  const int p = (int)vp_pick("p", 1, 8);
  const std::size_t h = H::hash(a, p);
  vp_assert(h < (std::size_t(1) << p), "hash out of the table");
  vp_assert(H::hash(b, p) == h && H::hash(a.data(), r.n, p) == h, "equal keys have different hashes");
  vp_assert(!H::isEmpty(a) && !H::isTombstone(a) && !H::isEmpty(b) && !H::isTombstone(b), "a key is taken for an empty slot");
  alignas(il::String) char m[sizeof(il::String)];
  il::String* s = reinterpret_cast<il::String*>(m);
  H::constructEmpty(il::io, s);
  vp_assert(H::isEmpty(*s) && !H::isTombstone(*s), "empty slot");
  H::constructTombstone(il::io, s);
  vp_assert(!H::isEmpty(*s) && H::isTombstone(*s), "erased slot");
  vp_cover("hash");
}
