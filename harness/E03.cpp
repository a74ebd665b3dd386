// Status: errors can not be ignored by mistake.
// vp: variants debug ndebug
// bound: every sequence of 5 calls (6 with VP_DEEP), legal or not, on a Status, with every error and any integer and double attached
#include "vp.h"
#include <il/Status.h>
#include <cstring>
#include <utility>

#ifdef NDEBUG
static const bool kDebug = false;
#else
static const bool kDebug = true;
#endif
static const il::Error kError[12] = {
    il::Error::FilesystemFileNotFound, il::Error::FilesystemNoWriteAccess, il::Error::BinaryFileWrongFormat, il::Error::BinaryFileWrongEndianness,
    il::Error::ParseBool, il::Error::ParseNumber, il::Error::ParseValue, il::Error::OverflowInt, il::Error::FloatingPointNegative,
    il::Error::MatrixSingular, il::Error::Unimplemented, il::Error::Undefined};
static const il::ErrorDomain kDomain[12] = {
    il::ErrorDomain::Filesystem, il::ErrorDomain::Filesystem, il::ErrorDomain::Binary, il::ErrorDomain::Binary,
    il::ErrorDomain::Parse, il::ErrorDomain::Parse, il::ErrorDomain::Parse, il::ErrorDomain::Overflow, il::ErrorDomain::FloatingPoint,
    il::ErrorDomain::Matrix, il::ErrorDomain::Unimplemented, il::ErrorDomain::Undefined};
// every error, with the domain its name tells
static const struct { il::Error e; il::ErrorDomain d; } kAll[39] = {
    {il::Error::FilesystemFileNotFound, il::ErrorDomain::Filesystem},
    {il::Error::FilesystemDirectoryNotFound, il::ErrorDomain::Filesystem},
    {il::Error::FilesystemNoReadAccess, il::ErrorDomain::Filesystem},
    {il::Error::FilesystemNoWriteAccess, il::ErrorDomain::Filesystem},
    {il::Error::FilesystemCanNotCloseFile, il::ErrorDomain::Filesystem},
    {il::Error::FilesystemCanNotWriteToFile, il::ErrorDomain::Filesystem},
    {il::Error::FilesystemFileNotLongEnough, il::ErrorDomain::Filesystem},
    {il::Error::BinaryFileWrongFormat, il::ErrorDomain::Binary},
    {il::Error::BinaryFileWrongType, il::ErrorDomain::Binary},
    {il::Error::BinaryFileWrongRank, il::ErrorDomain::Binary},
    {il::Error::BinaryFileWrongEndianness, il::ErrorDomain::Binary},
    {il::Error::ParseBool, il::ErrorDomain::Parse},
    {il::Error::ParseNumber, il::ErrorDomain::Parse},
    {il::Error::ParseInt, il::ErrorDomain::Parse},
    {il::Error::ParseIntOverflow, il::ErrorDomain::Parse},
    {il::Error::ParseInteger, il::ErrorDomain::Parse},
    {il::Error::ParseIntegerOverflow, il::ErrorDomain::Parse},
    {il::Error::ParseFloat, il::ErrorDomain::Parse},
    {il::Error::ParseDouble, il::ErrorDomain::Parse},
    {il::Error::ParseString, il::ErrorDomain::Parse},
    {il::Error::ParseUnclosedArray, il::ErrorDomain::Parse},
    {il::Error::ParseUnidentifiedTrailingCharacter, il::ErrorDomain::Parse},
    {il::Error::ParseCanNotDetermineType, il::ErrorDomain::Parse},
    {il::Error::ParseHeterogeneousArray, il::ErrorDomain::Parse},
    {il::Error::ParseArray, il::ErrorDomain::Parse},
    {il::Error::ParseTable, il::ErrorDomain::Parse},
    {il::Error::ParseDuplicateKey, il::ErrorDomain::Parse},
    {il::Error::ParseKey, il::ErrorDomain::Parse},
    {il::Error::ParseValue, il::ErrorDomain::Parse},
    {il::Error::OverflowInt, il::ErrorDomain::Overflow},
    {il::Error::OverflowInteger, il::ErrorDomain::Overflow},
    {il::Error::FloatingPointNonNegative, il::ErrorDomain::FloatingPoint},
    {il::Error::FloatingPointPositive, il::ErrorDomain::FloatingPoint},
    {il::Error::FloatingPointNonPositive, il::ErrorDomain::FloatingPoint},
    {il::Error::FloatingPointNegative, il::ErrorDomain::FloatingPoint},
    {il::Error::MatrixSingular, il::ErrorDomain::Matrix},
    {il::Error::MatrixEigenValueNoConvergence, il::ErrorDomain::Matrix},
    {il::Error::Unimplemented, il::ErrorDomain::Unimplemented},
    {il::Error::Undefined, il::ErrorDomain::Undefined},
};
struct Ref {
  bool ok, check;
  int e;      // -1: none
  bool info;  // "n" is set
  long n;
};
// A call that is not legal must stop a debug build; the path ends there.
#define LEGAL(c) \
  if (!(c)) { \
    if (!kDebug) return false; \
    vp_abort_ok(true); \
  } else { \
    vp_abort_ok(false); \
  }
#define STOPPED(c) \
  if (!(c)) { vp_fail("a call that is not legal does not stop a debug build"); }
static bool step(il::Status& s, Ref& r) {
  switch (vp_pick("op", 0, 10)) {
    case 0: { LEGAL(!r.check); const bool l = !r.check; s.SetOk(); STOPPED(l); r.ok = true; r.check = true; break; }
    case 1: {
      LEGAL(!r.check);
      const bool l = !r.check;
      const int e = (int)vp_pick("error", 0, 11);
      s.SetError(kError[e]);
      STOPPED(l);
      r.ok = false; r.check = true; r.e = e; r.info = false;
      break;
    }
    case 2: { const bool l = r.check && !r.ok; LEGAL(l); const long n = vp_i64("n"); s.SetInfo("n", n); STOPPED(l); r.info = true; r.n = n; break; }
    case 3: { const bool l = r.check && !r.ok; LEGAL(l); s.SetInfo("text", "a long enough text to leave the inline storage"); STOPPED(l); break; }
    case 4: { const bool l = r.check; LEGAL(l); const bool ok = s.Ok(); STOPPED(l); vp_assert(ok == r.ok, "Ok does not tell whether there was an error"); r.check = false; break; }
    case 5: { const bool l = r.check; LEGAL(l); s.IgnoreError(); STOPPED(l); r.check = false; break; }
    case 6: {
      const bool l = r.check && r.ok;
      if (!r.check) { LEGAL(false); } else { vp_abort_ok(!r.ok); }
      s.AbortOnError();
      if (!l) vp_fail("AbortOnError does not stop the program");
      r.check = false;
      break;
    }
    case 7: { const bool l = !r.check; LEGAL(l); s.Rearm(); STOPPED(l); r.check = true; break; }
    case 8: {
      if (r.e < 0) break;
      const bool l = !r.check;
      LEGAL(l);
      const il::Error e = s.error();
      STOPPED(l);
      if (!r.ok) { vp_assert(e == kError[r.e], "the error read is not the last one set"); vp_assert(s.domain() == kDomain[r.e] && il::domain(e) == kDomain[r.e], "domain of the error"); }
      break;
    }
    case 9: {
      if (!r.info) break;
      const bool l = !r.ok;
      LEGAL(l);
      const long n = s.toInteger("n");
      STOPPED(l);
      vp_assert(n == r.n, "the information read is not the last one set");
      break;
    }
    case 10: {  // moved: the new one has to be checked, the old one no more
      il::Status t{std::move(s)};
      const bool ok = t.Ok();
      vp_assert(ok == r.ok, "a moved status loses the error");
      if (vp_flag("back")) { s = std::move(t); r.check = true; } else { s.SetOk(); r.ok = true; r.check = true; r.info = false; r.e = -1; }
      break;
    }
  }
  vp_abort_ok(false);
  return true;
}
VP_ENTRY(E03_history) {
#ifdef VP_DEEP
  const int steps = 6;
#else
  const int steps = 5;
#endif
  vp_allow_leak();
  Ref r = {true, false, -1, false, 0};
  {
    il::Status s;
    bool live = true;
    for (int k = 0; k < steps && live; ++k) live = step(s, r);
    if (!live) r.check = false;
    vp_abort_ok(kDebug && r.check);
    vp_cover("history");
  }
  if (kDebug) vp_assert(!r.check, "a debug build does not stop on an error that nobody looked at");
}
// Nothing leaks when every status is checked.
VP_ENTRY(E03_leak) {
  {
    il::Status s;
    const int n = (int)vp_pick("n", 0, 2);
    for (int k = 0; k < n; ++k) {
      s.SetError(kError[vp_pick("error", 0, 11)]);
      IL_SET_SOURCE(s);
      if (vp_flag("double")) s.SetInfo("x", 1.5);
      il::Status t{std::move(s)};
      if (vp_flag("back")) { t.IgnoreError(); s = std::move(t); }
      else s.SetOk(), vp_assert(!t.Ok(), "a moved status loses the error");
      vp_assert(s.Ok() == true || s.toInteger("source_line") > 0, "source line");
    }
  }
}
VP_ENTRY(E03_domain) {
  const int k = (int)vp_pick("error", 0, 38), q = (int)vp_pick("other", 0, 38);
  vp_assert(il::domain(kAll[k].e) == kAll[k].d, "domain of the error");
  // ParseTable and ParseDuplicateKey have the same value
  if (k != q && !(kAll[k].e == il::Error::ParseDuplicateKey && kAll[q].e == il::Error::ParseDuplicateKey)) vp_assert(kAll[k].e != kAll[q].e, "two errors have the same value");
  il::Status s;
  s.SetError(kAll[k].e);
  vp_assert(!s.Ok() && s.error() == kAll[k].e && s.domain() == kAll[k].d, "error of the status");
  vp_cover("domain");
}
