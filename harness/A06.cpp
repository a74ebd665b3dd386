// Debug builds: every call that is not allowed stops the program, no allowed one does.
// vp: variants debug
// bound: strings of 0 to 3 runes of 1 to 4 bytes (Ascii and Utf8), with the small buffer or on the heap; maps and sets of 0 to 2 elements; infos of 4 entries; queues of capacity 0 to 3, also after they wrapped; trees of up to 3 nodes; arrays of 0 to 3 elements; every position, size, count (up to 3), character, code point, range and key any value of its type
#include <il/Deque.h>
#include <il/File.h>
#include <il/Info.h>
#include <il/Map.h>
#include <il/MapArray.h>
#include <il/Set.h>
#include <il/String.h>
#include <il/Tree.h>
#include <il/UTF16String.h>
#include <il/algorithmArray.h>
#include <il/algorithm/algorithmArray2D.h>
#include <il/container/string/algorithmString.h>
#include <il/core/math/safe_arithmetic.h>
#include <il/math.h>
#include "vp.h"

// a call that must stop the program exactly when bad holds
#define CALL(bad, what) do { const bool b_ = (bad); vp_abort_ok(b_); what; vp_assert(!b_, "a call that is not allowed is accepted: " #what); vp_cover("allowed"); return; } while (0)
static bool out(long i, long n) { return (i < 0) | (i >= n); }
static bool past(long i, long n) { return (i < 0) | (i > n); }
static volatile int sink;
template <typename T> static void use(const T& x) { sink = (int)x; }
static bool isrune(int r) { return (r >= 0) & (r < 0x110000) & ((r < 0xD800) | (r > 0xDFFF)); }

// A string of some runes, and where its runes begin
struct Text {
  il::String s{};
  long n = 0;
  bool edge[16] = {true};
  Text(bool utf8) {
    if (vp_flag("large")) s.Reserve(40);
    const long runes = vp_pick("runes", 0, 3);
    static const int rune[4] = {'a', 0xE9, 0x20AC, 0x1F600};
    for (long k = 0; k < runes; ++k) {
      const long b = utf8 ? vp_pick("bytes", 0, 3) : 0;
      if (utf8) s.Append(rune[b]); else s.Append('a');
      n += b + 1;
      edge[n] = true;
    }
    vp_assert(s.size() == n, "size");
  }
  // a position that is not the one of a rune (or of the end)
  bool inside(long i) const {
    bool b = false;
    if (s.type() == il::StringType::Utf8) for (long k = 0; k <= n; ++k) b = b | ((i == k) & !edge[k]);
    return b;
  }
  bool bad(long i) const { return past(i, n) | inside(i); }
};
static void edits(bool utf8) {
  Text t{utf8};
  il::String& s = t.s;
  const long i = vp_i64("i");
  const char raw[] = "xyz";
  switch (vp_pick("how", 0, 6)) {
    case 0: { const char c = (char)vp_u8("c"); CALL((unsigned char)c >= 128 || t.bad(i), s.Insert(i, c)); }
    case 1: { const char c = (char)vp_u8("c"); const long k = vp_i64("k"); vp_assume(k <= 3); CALL((unsigned char)c >= 128 || k < 0 || t.bad(i), s.Insert(i, k, c)); }
    case 2: CALL(t.bad(i), s.Insert(i, "ab"));
    case 3: { const long k = vp_i64("k"); vp_assume(k <= 3); CALL(k < 0 || t.bad(i), s.Insert(i, il::StringType::Ascii, raw, k)); }
    case 4: CALL(t.bad(i), s.Insert(i, il::StringView{"ab"}));
    case 5: { const long k = vp_i64("k"); CALL(t.bad(i) || t.bad(k) || k < i, s.substring(i, k)); }
    case 6: { const long k = vp_i64("k"); CALL(t.bad(i) || t.bad(k) || k < i, s.subview(i, k)); }
  }
}
VP_ENTRY(A06_string_ascii) { edits(false); }
VP_ENTRY(A06_string_utf8) { edits(true); }
VP_ENTRY(A06_string_append) {
  Text t{vp_flag("utf8")};
  il::String& s = t.s;
  const char raw[] = "xyz";
  const char c = (char)vp_u8("c");
  const bool badchar = (unsigned char)c >= 128;
  const long k = vp_i64("k");
  vp_assume(k <= 3);
  const int r = vp_i32("r");
  switch (vp_pick("how", 0, 8)) {
    case 0: CALL(badchar, s.Append(c));
    case 1: CALL(badchar || k < 0, s.Append(k, c));
    case 2: CALL(!isrune(r), s.Append(r));
    case 3: CALL(!isrune(r) || k < 0, s.Append(k, r));
    case 4: CALL(k < 0, s.Append(il::StringType::Ascii, raw, k));
    case 5: CALL(k < 0, s.Reserve(k));
    case 6: CALL(badchar, il::String{c});
    case 7: CALL(k < 0, (il::String{il::StringType::Ascii, raw, k}));
    case 8: { const long i = vp_i64("i"); CALL(past(i, t.n), vp_assert(s.isRuneBoundary(i) == t.edge[i], "where runes begin")); }
  }
}
VP_ENTRY(A06_string_binary) {
  const unsigned char raw[3] = {0xFF, 0x80, 0};
  il::String s{il::StringType::Byte, (const char*)raw, vp_pick("n", 0, 3)};
  const long n = s.size(), i = vp_i64("i"), k = vp_i64("k");
  switch (vp_pick("how", 0, 3)) {
    case 0: CALL(true, s.isRuneBoundary(i));  // binary data have no runes
    case 1: CALL(past(i, n) | past(k, n) | (k < i), s.substring(i, k));
    case 2: CALL(past(i, n) | past(k, n) | (k < i), s.subview(i, k));
    case 3: CALL(past(i, n), s.Insert(i, "ab"));
  }
}
VP_ENTRY(A06_view) {
  char raw[4] = {'1', '\r', '\n', 'x'};
  const long n = vp_pick("n", 0, 3);
  il::StringView v{il::StringType::Ascii, raw, n};
  const long i = vp_i64("i"), k = vp_i64("k");
  switch (vp_pick("how", 0, 13)) {
    case 0: CALL(out(i, n), use(v[i]));
    case 1: CALL(out(i, n), use(v.back(i)));
    case 2: CALL(out(i, n), use(v.hasSpace(i)));
    case 3: CALL(out(i, n), use(v.hasDigit(i)));
    case 4: CALL(out(i, n), use(v.hasHexaDecimal(i)));
    case 5: CALL(out(i, n), use(v.hasNewLine(i)));
    case 6: CALL(out(i, n), use(v.has(i, 'a')));
    case 7: CALL(past(i, n), use(v.has(i, "ab")));
    case 8: CALL(past(i, n), v.removePrefix(i));
    case 9: CALL(past(i, n), v.removeSuffix(i));
    case 10: CALL(past(i, n) | past(k, n) | (k < i), v.subview(i, k));
    case 11: CALL(n == 0, use(v.startsWithDigit()));
    case 12: vp_assume(k <= 3); CALL(k < 0, (il::StringView{il::StringType::Ascii, raw, k}));
    case 13: { const char c = (char)vp_u8("c"); CALL((unsigned char)c >= 128, use(il::count(c, v))); }
  }
}
VP_ENTRY(A06_utf16) {
  il::UTF16String s{};
  if (vp_flag("large")) s.Reserve(20);
  if (vp_flag("text")) s.Append('a');
  const char c = (char)vp_u8("c");
  const long k = vp_i64("k");
  vp_assume(k <= 3);
  const int r = vp_i32("r");
  const bool badchar = (unsigned char)c >= 128;
  switch (vp_pick("how", 0, 4)) {
    case 0: CALL(badchar, s.Append(c));
    case 1: CALL(badchar || k < 0, s.Append(k, c));
    case 2: CALL(!isrune(r), s.Append(r));
    case 3: CALL(!isrune(r) || k < 0, s.Append(k, r));
    case 4: CALL(k < 0, s.Reserve(k));
  }
}
typedef il::HashFunction<int> H;
static int key(const char* name) { int x = vp_i32(name); vp_assume(!H::isEmpty(x) && !H::isTombstone(x)); return x; }
VP_ENTRY(A06_map) {
  il::Map<int, int> m{};
  const long how = vp_pick("how", 0, 10);
  const long n = vp_pick("n", 0, 2);
  if (vp_flag("reserved")) m.Reserve(2);
  for (long k = 0; k < n; ++k) m.Set((int)(3 * k + 1), (int)k);
  const int x = (int)vp_pick("x", 0, 4);
  const bool in = (x == 1 && n > 0) || (x == 4 && n > 1);
  if (how < 5) {
    il::spot_t i = m.search(x);
    switch (how) {
      case 0: CALL(!in, use(m.key(i)));
      case 1: CALL(!in, use(m.value(i)));
      case 2: CALL(!in, m.Value(i) = 3);
      case 3: CALL(!in, m.erase(i));
      case 4: CALL(in, m.Set(x, 4, il::io, i));
    }
  }
  const int y = vp_i32("y");
  const bool reserved = H::isEmpty(y) || H::isTombstone(y);  // they mark free slots
  const long k = vp_i64("k");
  vp_assume(k <= 3);
  switch (how) {
    case 5: CALL(reserved, use(m.search(y).index));
    case 6: CALL(reserved, m.Set(y, 1));
    case 7: CALL(k < 0, m.Reserve(k));
    case 8: CALL(k < 0, (il::Map<int, int>{k}));
    case 9: CALL(reserved || y == 1, (il::Map<int, int>{il::value, {{1, 2}, {y, 3}}}));
    case 10: CALL(reserved, use(m.valueForKey(y, 3)));
  }
}
VP_ENTRY(A06_set) {
  il::Set<int> m{};
  const long how = vp_pick("how", 0, 3);
  const long n = vp_pick("n", 0, 2);
  for (long k = 0; k < n; ++k) m.Add((int)(3 * k + 1));
  const int x = (int)vp_pick("x", 0, 4);
  const bool in = (x == 1 && n > 0) || (x == 4 && n > 1);
  const int y = vp_i32("y");
  const bool reserved = H::isEmpty(y) || H::isTombstone(y);
  switch (how) {
    case 0: { il::spot_t i = m.search(x); CALL(in, m.Add(x, il::io, i)); }
    case 1: CALL(reserved, use(m.contains(y)));
    case 2: CALL(reserved, m.Add(y));
    case 3: CALL(reserved, use(m.search(y).index));
  }
}
VP_ENTRY(A06_maparray) {
  il::MapArray<int, int> m{};
  const long how = vp_pick("how", 0, 4);
  const long n = vp_pick("n", 0, 2);
  for (long k = 0; k < n; ++k) m.Set((int)(3 * k + 1), (int)k);
  const int x = (int)vp_pick("x", 0, 4);
  const bool in = (x == 1 && n > 0) || (x == 4 && n > 1);
  il::spot_t i = m.search(x);
  switch (how) {
    case 0: CALL(!in, use(m.key(i)));
    case 1: CALL(!in, use(m.value(i)));
    case 2: CALL(!in, m.Value(i) = 3);
    case 3: CALL(in, m.Set(x, 4, il::io, i));
    case 4: { const il::spot_t e = m.spotEnd(); CALL(true, use(m.key(e))); }
  }
}
VP_ENTRY(A06_info) {
  il::Info m{};
  const char* const name[5] = {"a", "bb", "c", "dd", "e"};
  m.Set("a", true);
  m.Set("bb", (il::int_t)5);
  m.Set("c", 2.5);
  m.Set("dd", "text");
  const long which = vp_pick("which", 0, 4), how = vp_pick("how", 0, 3);
  const bool bad = which != how;  // "e" is not there
  if (vp_flag("by key")) switch (how) {
    case 0: CALL(bad, use(m.toBool(name[which])));
    case 1: CALL(bad, use(m.toInteger(name[which])));
    case 2: CALL(bad, use(m.toDouble(name[which])));
    case 3: CALL(bad, use(*m.asCString(name[which])));
  }
  const il::int_t i = m.search(name[which]);
  vp_assert(m.found(i) == (which < 4), "found");
  if (which == 4) return;
  switch (how) {
    case 0: CALL(bad, use(m.toBool(i)));
    case 1: CALL(bad, use(m.toInteger(i)));
    case 2: CALL(bad, use(m.toDouble(i)));
    case 3: CALL(bad, use(*m.asCString(i)));
  }
}
VP_ENTRY(A06_deque) {
  const long cap = vp_pick("capacity", 0, 3);
  il::Deque<int> q{cap};
  if (cap == 3 && vp_flag("wrapped")) {
    for (int k = 0; k < 3; ++k) q.PushBack(k);
    q.PopFront(); q.PushBack(7); q.PopFront(); q.PushFront(3);
    while (q.size() > 0) { if (vp_flag("front")) q.PopFront(); else q.PopBack(); }
  }
  const long n = vp_pick("n", 0, cap);
  for (long k = 0; k < n; ++k) if (vp_flag("end")) q.PushBack(1); else q.PushFront(2);
  const il::Deque<int>& c = q;
  switch (vp_pick("how", 0, 10)) {
    case 0: CALL(n == 0, use(c.front()));
    case 1: CALL(n == 0, use(c.back()));
    case 2: CALL(n == 0, q.Front() = 1);
    case 3: CALL(n == 0, q.Back() = 1);
    case 4: CALL(n == 0, q.PopFront());
    case 5: CALL(n == 0, q.PopBack());
    case 6: CALL(n == cap, q.PushBack(1));
    case 7: CALL(n == cap, q.PushFront(1));
    case 8: CALL(n == cap, q.PushBack(il::emplace, 1));
    case 9: CALL(n == cap, q.PushFront(il::emplace, 1));
    case 10: CALL(cap > 0, q.Reserve(2));
  }
}
VP_ENTRY(A06_tree) {
  il::Tree<int, 3> t{};
  t.Set(t.root(), 1);
  il::spot_t s = t.root();
  const long depth = vp_pick("depth", 0, 2);
  for (long k = 0; k < depth; ++k) { const long j = vp_pick("child", 0, 2); t.AddChild(s, j); s = t.child(s, j); t.Set(s, 2); }
  const long i = vp_i64("i");
  switch (vp_pick("how", 0, 5)) {
    case 0: CALL(depth == 0, use(t.parent(s).index));
    case 1: CALL(out(i, 3), use(t.hasChild(s, i)));
    case 2: CALL(out(i, 3), t.AddChild(s, i));
    case 3: CALL(true, use(t.child(s, 0).index));
    case 4: CALL(depth == 0, use(t.child(t.root(), 1).index));
    case 5: CALL(true, use(t.value(il::spot_t{30 + s.index})));
  }
}
VP_ENTRY(A06_file) {
  const bool write = vp_flag("write"), closed = vp_flag("closed");
  unsigned char raw[4] = {1, 2, 3, 4};
  vp_file_put("a.bin", raw, 4);
  il::Status status{};
  il::File* file = new il::File{il::String{"a.bin"}, write ? il::FileMode::Write : il::FileMode::Read, vp_pick("buffer", 0, 2), il::io, status};
  vp_assert(status.Ok(), "opening the file");
  if (closed) { file->Close(il::io, status); vp_assert(status.Ok(), "closing the file"); }
  const long k = vp_i64("k");
  vp_assume(k <= 2);
  bool bad = closed;
  const long how = vp_pick("how", 0, 6);
  if (how == 6) {
    vp_abort_ok(!closed);
    delete file;  // it has to be closed before
    vp_assert(closed, "an open file is destroyed");
    return;
  }
  switch (how) {
    case 0: bad = bad || write; vp_abort_ok(bad); file->Read<2>(il::io, raw, status); break;
    case 1: bad = bad || write || k < 0; vp_abort_ok(bad); file->Read(k, 1, il::io, raw, status); break;
    case 2: { const long b = vp_pick("object", 0, 1); bad = bad || write || b == 0; vp_abort_ok(bad); file->Read(2, (std::size_t)b, il::io, raw, status); break; }
    case 3: bad = bad || !write || k < 0; vp_abort_ok(bad); file->Write(raw, k, 1, il::io, status); break;
    case 4: vp_abort_ok(bad); file->Skip(1, il::io, status); break;
    case 5: vp_abort_ok(bad); file->Close(il::io, status); break;
  }
  vp_assert(!bad, "a call that is not allowed is accepted");
  vp_assert(status.Ok(), "an allowed call succeeds");
  vp_cover("allowed");
  if (how != 5) {
    file->Close(il::io, status);
    vp_assert(status.Ok(), "closing the file");
  }
  delete file;
}
VP_ENTRY(A06_algorithm) {
  const long n = vp_pick("n", 0, 3);
  il::Array<double> v{n, 2.0};
  switch (vp_pick("how", 0, 8)) {
    case 0: CALL(n == 0, use(il::min(v)));
    case 1: CALL(n == 0, use(il::max(v)));
    case 2: CALL(n == 0, use(il::maxAbs(v)));
    case 3: CALL(n == 0, use(il::indexMin(v)));
    case 4: CALL(n == 0, use(il::indexMax(v)));
    case 5: CALL(n == 0, use(il::indexMaxAbs(v)));
    case 6: CALL(n == 0, use(il::mean(v)));
    case 7: { const bool sample = vp_flag("sample"); CALL(n < (sample ? 2 : 1), use(il::variance(v, sample ? il::VarianceKind::Sample : il::VarianceKind::Population))); }
    case 8: { const bool sample = vp_flag("sample"); CALL(n < (sample ? 2 : 1), use(il::meanVariance(v, sample ? il::VarianceKind::Sample : il::VarianceKind::Population).mean)); }
  }
}
VP_ENTRY(A06_algorithm_range) {
  const long n = vp_pick("n", 0, 3);
  il::Array<int> v{n, 2};
  const il::Range r{vp_i64("b"), vp_i64("e")};
  const bool bad = (r.begin < 0) | (r.end > n) | (r.begin >= r.end);
  switch (vp_pick("how", 0, 7)) {
    case 6: CALL(bad, use(il::minMax(v, r).max));
    case 7: {
      const il::Array2D<int> A{n, 2, 3};
      const long j = vp_i64("j");
      CALL(bad | out(j, 2), use(il::minMax(A, r, j).min));
    }
    case 0: CALL(bad, use(il::min(v, r)));
    case 1: CALL(bad, use(il::max(v, r)));
    case 2: CALL(bad, use(il::maxAbs(v, r)));
    case 3: CALL(bad, use(il::indexMin(v, r)));
    case 4: CALL(bad, use(il::indexMax(v, r)));
    case 5: CALL(bad, use(il::indexMaxAbs(v, r)));
  }
}
VP_ENTRY(A06_arithmetic) {
  bool error = false;
  switch (vp_pick("how", 0, 3)) {
    case 0: { const long n = vp_i64("n"); vp_assume(n <= 4); CALL(n < 0, use(il::ipow(2, n))); }
    case 1: { const int a = vp_i32("a"), b = vp_i32("b"); CALL(a < 0 || b <= 0, use(il::safeUpperRound(a, b, il::io, error))); }
    case 2: { const long a = vp_i64("a"), b = (long)(int)vp_u32("b"); vp_assume(a <= 1000000); CALL(a < 0 || b <= 0, use(il::safeUpperRound(a, b, il::io, error))); }
    case 3: { const long long a = vp_i64("a"), b = (long)(int)vp_u32("b"); vp_assume(a <= 1000000); CALL(a < 0 || b <= 0, use(il::safeUpperRound(a, b, il::io, error))); }
  }
}
