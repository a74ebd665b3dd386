// Shared by the string harnesses: strings against a reference byte sequence.
#ifndef STR_H
#define STR_H
#include "vp.h"
#include <il/String.h>
#include <utility>

struct Ref {
  char v[320];
  long n;
  il::StringType t;
};
static const il::StringType kType[4] = {il::StringType::Ascii, il::StringType::Utf8, il::StringType::Wtf8, il::StringType::Byte};
static il::StringType join2(il::StringType a, il::StringType b) { return (unsigned char)a < (unsigned char)b ? b : a; }
// any byte, or any ASCII character for the types that need it
static char any(il::StringType t, const char* nm) {
  unsigned char c = vp_u8(nm);
  if (t == il::StringType::Ascii || t == il::StringType::Utf8) vp_assume(c < 128);
  return (char)c;
}
static void fill(Ref& r, long n, il::StringType t, const char* nm) {
  r.n = n;
  r.t = t;
  for (long i = 0; i < n; ++i) r.v[i] = any(t, nm);
}
static void ins(Ref& r, long i, const char* s, long n, il::StringType t) {
  for (long k = r.n; k > i; --k) r.v[k - 1 + n] = r.v[k - 1];
  for (long k = 0; k < n; ++k) r.v[i + k] = s[k];
  r.n += n;
  r.t = join2(r.t, t);
}
static void same(const il::String& a, const Ref& r) {
  vp_assert(a.size() == r.n, "size of the string");
  vp_assert(a.isEmpty() == (r.n == 0), "isEmpty");
  vp_assert(a.capacity() >= a.size(), "capacity smaller than size");
  const char* p = a.data();
  vp_assert(p == a.asCString(), "data and asCString differ");
  bool ok = true;
  for (long i = 0; i < r.n; ++i) ok = ok & (p[i] == r.v[i]);
  vp_assert(ok, "content of the string");
  vp_assert(p[r.n] == '\0', "the string is not terminated by a null character");
  vp_assert(a.type() == r.t, "type of the string");
  vp_assert(a.isAscii() == (r.t == il::StringType::Ascii) && a.isUtf8() == (r.t == il::StringType::Ascii || r.t == il::StringType::Utf8), "isAscii or isUtf8");
  if (p < (const char*)&a || p >= (const char*)(&a + 1)) vp_assert(vp_bytes_left(p) > a.capacity(), "memory smaller than the capacity");
  else vp_assert(p + a.capacity() < (const char*)(&a + 1), "memory smaller than the capacity");
}
static il::String make(const Ref& r, long reserve) {
  il::String s{r.t, r.v, r.n};
  if (reserve > 0) s.Reserve(reserve);
  return s;
}
#endif
