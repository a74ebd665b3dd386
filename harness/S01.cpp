// String: a value with inline or heap storage.
// vp: variants debug ndebug
// bound: S01_one: every operation with every parameter on strings of 0, 1, 21, 22, 23 or 30 bytes, with or without spare memory, of each type, any content; second string of 0, 2 or 25 bytes, with or without spare memory
// bound: S01_history: every sequence of 3 operations (4 with VP_DEEP) on two strings of 0, 5, 22 or 23 bytes with or without spare memory, with lengths chosen around the switch to the heap; any content
#include "str.h"

static const char kLit[] = "lit";
static const char kLong[] = "a literal that is longer than 22";

// inserts or appends; in `f` the complete choice of parameters
static void grow(il::String& a, Ref& r, const il::String& b, const Ref& rb, bool f) {
  const long kN[5] = {0, 1, 2, 21, 30};
  switch (vp_pick("grow", 0, f ? 10 : 9)) {
    case 0: {
      const char c = any(il::StringType::Ascii, "c");
      a.Append(c);
      ins(r, r.n, &c, 1, il::StringType::Ascii);
      break;
    }
    case 1: {
      const long n = f ? kN[vp_pick("n", 0, 4)] : 18;
      const char c = any(il::StringType::Ascii, "c");
      a.Append(n, c);
      for (long k = 0; k < n; ++k) ins(r, r.n, &c, 1, il::StringType::Ascii);
      break;
    }
    case 2: a.Append(b); ins(r, r.n, rb.v, rb.n, rb.t); break;
    case 3: {  // a part of itself
      const long i0 = f ? vp_pick("half", 0, 1) * (r.n / 2) : 0, n = r.n - i0;
      Ref o = r;
      if (vp_flag("raw")) a.Append(r.t, a.data() + i0, n);
      else a.Append(a.subview(i0, r.n));
      ins(r, r.n, o.v + i0, n, o.t);
      break;
    }
    case 4: {
      Ref o = r;
      if (vp_flag("three")) { a.Append(a, b, a); ins(r, r.n, rb.v, rb.n, rb.t); ins(r, r.n, o.v, o.n, o.t); ins(r, o.n, o.v, o.n, o.t); }
      else { a.Append(b, a); ins(r, r.n, rb.v, rb.n, rb.t); ins(r, r.n, o.v, o.n, o.t); }
      break;
    }
    case 5: {
      switch (vp_pick("lit", 0, 2)) {
        case 0: a.Append(kLit); ins(r, r.n, kLit, 3, il::StringType::Utf8); break;
        case 1: a.Append(kLong); ins(r, r.n, kLong, sizeof kLong - 1, il::StringType::Utf8); break;
        case 2: a.Append(il::StringType::Ascii, kLit); ins(r, r.n, kLit, 3, il::StringType::Ascii); break;
      }
      break;
    }
    case 6: {
      const long i = vp_pick("at", 0, f ? 2 : 1) * (f ? r.n / 2 : r.n);
      const char c = any(il::StringType::Ascii, "c");
      if (i > r.n) break;
      a.Insert(i, c);
      ins(r, i, &c, 1, il::StringType::Ascii);
      break;
    }
    case 7: {
      const long i = f ? vp_pick("at", 0, 2) * (r.n / 2) : r.n / 2;
      const long n = f ? kN[vp_pick("n", 0, 4)] : 18;
      const char c = any(il::StringType::Ascii, "c");
      a.Insert(i, n, c);
      char t[32];
      for (long k = 0; k < n; ++k) t[k] = c;
      ins(r, i, t, n, il::StringType::Ascii);
      break;
    }
    case 8: {
      const long i = f ? vp_pick("at", 0, 2) * (r.n / 2) : r.n / 2;
      switch (vp_pick("what", 0, 2)) {
        case 0: a.Insert(i, b); ins(r, i, rb.v, rb.n, rb.t); break;
        case 1: { Ref o = r; a.Insert(i, a); ins(r, i, o.v, o.n, o.t); break; }
        case 2: {  // an interior part of itself
          Ref o = r;
          const long k = r.n / 3, n = r.n - r.n / 2;
          a.Insert(i, r.t, a.data() + k, n - k > 0 ? n - k : 0);
          ins(r, i, o.v + k, n - k > 0 ? n - k : 0, o.t);
          break;
        }
      }
      break;
    }
    case 9: {
      const long i = f ? vp_pick("at", 0, 2) * (r.n / 2) : 0;
      if (vp_flag("long")) { a.Insert(i, kLong); ins(r, i, kLong, sizeof kLong - 1, il::StringType::Utf8); }
      else { a.Insert(i, kLit); ins(r, i, kLit, 3, il::StringType::Utf8); }
      break;
    }
    case 10: {  // copies of a character of several bytes
      static const char* const kRune[3] = {"\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80"};
      static const int kCode[3] = {0xE9, 0x20AC, 0x1F600};
      const long b = vp_pick("bytes", 0, 2), n = kN[vp_pick("n", 1, 3)] / (b + 2) + 1;
      a.Append(il::int_t(n), kCode[b]);
      for (long k = 0; k < n; ++k) ins(r, r.n, kRune[b], b + 2, il::StringType::Utf8);
      break;
    }
  }
}
static void value(il::String& a, Ref& r, il::String& b, Ref& rb, bool f) {
  Ref none;
  none.n = 0;
  none.t = il::StringType::Ascii;
  switch (vp_pick("value", 0, 10)) {
    case 0: a = b; r = rb; break;
    case 1: a = std::move(b); r = rb; rb = none; break;
    case 2: { il::String& q = a; a = q; break; }
    case 3: { il::String& q = a; a = std::move(q); break; }
    case 4: { il::String c{a}; same(c, r); c.Append('x'); same(a, r); b = c; rb = r; ins(rb, rb.n, "x", 1, il::StringType::Ascii); break; }
    case 5: { il::String c{std::move(a)}; same(c, r); same(a, none); a.Append('y'); b = std::move(c); rb = r; r = none; ins(r, 0, "y", 1, il::StringType::Ascii); break; }
    case 6: {
      const long kR[4] = {0, 22, 23, 60};
      const long n = f ? kR[vp_pick("r", 0, 3)] : 40;
      const long c = a.capacity();
      a.Reserve(n);
      vp_assert(a.capacity() >= n && a.capacity() >= c, "Reserve does not give the capacity asked");
      break;
    }
    case 7: a.Clear(); r = none; break;
    case 8: {
      if (vp_flag("long")) { a = kLong; r = none; ins(r, 0, kLong, sizeof kLong - 1, il::StringType::Utf8); }
      else { a = kLit; r = none; ins(r, 0, kLit, 3, il::StringType::Utf8); }
      break;
    }
    case 9: {
      switch (vp_pick("ctor", 0, 5)) {
        case 0: { il::String c{}; same(c, none); break; }
        case 1: { const char x = any(il::StringType::Ascii, "c"); il::String c{x}; Ref rc = none; ins(rc, 0, &x, 1, il::StringType::Ascii); same(c, rc); break; }
        case 2: { il::String c{kLong}; Ref rc = none; ins(rc, 0, kLong, sizeof kLong - 1, il::StringType::Utf8); same(c, rc); a = c; r = rc; break; }
        case 3: { il::String c{il::StringType::Ascii, kLit}; Ref rc = none; ins(rc, 0, kLit, 3, il::StringType::Ascii); same(c, rc); break; }
        case 4: { il::String c{il::StringType::Utf8, kLong}; Ref rc = none; ins(rc, 0, kLong, sizeof kLong - 1, il::StringType::Utf8); same(c, rc); break; }
        case 5: { il::String c{a.view()}; same(c, r); c.Clear(); same(a, r); break; }
      }
      break;
    }
    case 10: {  // memory of the string used by hand
      const long n = f ? (vp_flag("big") ? 30 : 4) : 23;
      il::String c{il::unsafe, n};
      vp_assert(c.size() == n, "size of an uninitialised string");
      char* p = c.Data();
      Ref rc;
      fill(rc, n, il::StringType::Byte, "w");
      for (long k = 0; k < n; ++k) p[k] = rc.v[k];
      p[n] = '\0';
      same(c, rc);
      c.SetInvariant(il::unsafe, il::StringType::Wtf8, n);
      rc.t = il::StringType::Wtf8;
      same(c, rc);
      b = std::move(c);
      rb = rc;
      break;
    }
  }
}

VP_ENTRY(S01_one) {
  const long kN[6] = {0, 1, 21, 22, 23, 30};
  Ref r, rb;
  fill(r, kN[vp_pick("na", 0, 5)], kType[vp_pick("ta", 0, 3)], "a");
  const bool spare = vp_flag("spare");
  il::String a = make(r, spare ? 47 : 0);
  same(a, r);
  if (vp_flag("grow/value")) {
    fill(rb, vp_flag("nb") ? 25 : 2, r.t == il::StringType::Utf8 ? il::StringType::Byte : il::StringType::Utf8, "b");
    il::String b = make(rb, 0);
    grow(a, r, b, rb, true);
    same(a, r);
    same(b, rb);
  } else {
    const long kM[3] = {0, 2, 25};
    fill(rb, kM[vp_pick("nb", 0, 2)], il::StringType::Utf8, "b");
    il::String b = make(rb, vp_flag("spareb") ? 47 : 0);
    value(a, r, b, rb, true);
    same(a, r);
    same(b, rb);
  }
  vp_cover("one operation");
}
VP_ENTRY(S01_history) {
#ifdef VP_DEEP
  const int steps = 4;
#else
  const int steps = 3;
#endif
  const long kN[4] = {0, 5, 22, 23};
  const int k = (int)vp_pick("na", 0, 3);
  Ref r, rb;
  fill(r, kN[k], il::StringType::Byte, "a");
  fill(rb, kN[3 - k], il::StringType::Utf8, "b");
  il::String a = make(r, k % 2 ? 47 : 0);
  il::String b = make(rb, k % 2 ? 0 : 47);
  for (int s = 0; s < steps; ++s) {
    if (vp_flag("grow/value")) {
      if (r.n > 60 || rb.n > 80) break;
      grow(a, r, b, rb, false);
    } else value(a, r, b, rb, false);
  }
  same(a, r);
  same(b, rb);
  vp_cover("history");
}
