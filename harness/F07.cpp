// Loading .data files (filepack) of any content
// vp: variants debug ndebug
// bound: files of 0 to 4 arbitrary bytes; a key and each of the 256 types, followed by 0 to 3 (4 thorough) arbitrary bytes; a valid file with every type where one arbitrary byte (2 thorough) replaces a byte at any place (4 values in the keys, 27 in the sizes), or that is cut at any length; sizes of 8 bytes that are huge or negative; loaded in both kinds of maps
#include "vp.h"
#include <iostream>
#include <il/data.h>
#include <cstring>

#ifdef VP_DEEP
static const long kMore = 1;
#else
static const long kMore = 0;
#endif
typedef il::MapArray<il::String, il::Dynamic> MapA;
typedef il::Map<il::String, il::Dynamic> MapH;
static unsigned char raw[600];
static long nraw;
static bool loaded;

static void init(const il::Dynamic& v) {
  if (v.is<il::Array<double>>()) {
    const il::Array<double>& a = v.as<il::Array<double>>();
    vp_assert(a.size() * 8 <= nraw, "more elements than the file contains");
    for (long i = 0; i < a.size(); ++i) vp_assert(vp_is_init(&a[i], 8), "element that was not read");
  } else if (v.is<il::String>()) {
    const il::String& s = v.as<il::String>();
    vp_assert(s.size() < nraw, "more characters than the file contains");
    vp_assert(vp_is_init(s.asCString(), s.size() + 1), "character that was not read");
  } else if (v.is<il::Array2D<double>>()) {
    const il::Array2D<double>& A = v.as<il::Array2D<double>>();
    for (long j = 0; j < A.size(1) && A.size(0) > 0; ++j) for (long i = 0; i < A.size(0); ++i) vp_assert(vp_is_init(&A(i, j), 8), "element that was not read");
  }
}
template <typename M> static void loadAs() {
  il::Status status{};
  const M m = il::load<M>(il::String{"f.data"}, il::io, status);
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
  loaded = status.Ok();
  for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) {
    vp_assert(m.value(i).type() != il::Type::Void, "value without a type");
    init(m.value(i));
    vp_assert(m.found(m.search(m.key(i))), "key that is not found");
  }
}
static void load() {
  vp_file_put("f.data", raw, nraw);
  if (vp_flag("ordered")) loadAs<MapA>(); else loadAs<MapH>();
  vp_assert(vp_live() == 0, "memory is not released");
  if (loaded) vp_cover("loaded"); else vp_cover("error");
}
static void put(long b) { raw[nraw++] = (unsigned char)b; }
static void put8(long n) { std::memcpy(raw + nraw, &n, 8); nraw += 8; }
static void any(long n) { for (long i = 0; i < n; ++i) put(vp_u8("byte")); }

VP_ENTRY(F07_start) {
  nraw = 0;
  any(vp_pick("length", 0, 4 + kMore));
  load();
}
VP_ENTRY(F07_type) {
  nraw = 0;
  put(1); put('k');
  any(1);
  any(vp_pick("length", 0, 3 + kMore));
  load();
}
// sizes of any magnitude
static long size() {
  static const long n[] = {-1, -8, -9223372036854775807 - 1, 0, 1, 2, 3, 9223372036854775807, 1152921504606846975, 1152921504606846976, 2305843009213693952, 4294967296, 4611686018427387904, 1000000};
  return n[vp_pick("size", 0, 13)];
}
VP_ENTRY(F07_size) {
  nraw = 0;
  put(1); put('k');
  const il::Type type = vp_flag("text") ? il::Type::UnicodeString : il::Type::ArrayOfDouble;
  put((long)type);
  put8(size());
  const long n = vp_pick("data", 0, 17);
  for (long i = 0; i < n; ++i) put(i < 2 ? 'a' : 0);
  if (vp_flag("end")) put(0);
  load();
}
VP_ENTRY(F07_sizes) {
  nraw = 0;
  put(1); put('k');
  put((long)(vp_flag("bytes") ? il::Type::Array2DOfUInt8 : il::Type::Array2DOfDouble));
  const long n0 = size(), n1 = size();
  // known finding, see F02: a matrix without elements allocates memory for the size that is not null
  vp_assume(!((n0 == 0 && n1 > 3) || (n1 == 0 && n0 > 3)));
  put8(n0); put8(n1);
  const long n = vp_pick("data", 0, 2) * 8;
  for (long i = 0; i < n; ++i) put(i);
  if (vp_flag("end")) put(0);
  load();
}
// sizes with a variable number of bytes
static void varint(long k) {
  switch (k) {
    case 0: put(0); break;
    case 1: put(1); break;
    case 2: put(2); break;
    case 3: put(0xFF); put(0x7F); break;
    case 4: for (int i = 0; i < 9; ++i) put(0xFF); put(1); break;
    case 5: for (int i = 0; i < 8; ++i) put(0xFF); put(0x7F); break;
    case 6: for (int i = 0; i < 12; ++i) put(0xFF); put(0x7F); break;
    case 7: for (int i = 0; i < 9; ++i) put(0x80); put(1); break;
    default: put(0x80); put(0x80); put(0);
  }
}
VP_ENTRY(F07_varint) {
  nraw = 0;
  if (vp_flag("key")) {
    varint(vp_pick("varint", 0, 8));
  } else {
    put(1); put('k');
    static const il::Type type[] = {il::Type::Integer, il::Type::MapArrayStringToDynamic, il::Type::MapStringToDynamic, il::Type::ArrayOfStruct};
    put((long)type[vp_pick("type", 0, 3)]);
    varint(vp_pick("varint", 0, 8));
  }
  put('a'); put(0);
  if (vp_flag("more")) put(0);
  load();
}
VP_ENTRY(F07_struct) {
  nraw = 0;
  put(1); put('k');
  put((long)il::Type::ArrayOfStruct);
  put(2); 
  put(vp_pick("key", 0, 2)); put('x');
  put(vp_flag("double") ? (long)il::Type::Double : vp_u8("type"));
  put(vp_pick("key", 0, 2)); put('y');
  put(vp_flag("integer") ? (long)il::Type::Integer : vp_u8("type"));
  varint(vp_pick("varint", 0, 8));
  const long n = vp_pick("data", 0, 3) * 12;
  for (long i = 0; i < n; ++i) put(i);
  put(0);
  load();
}
// a file with a value of every type, where bytes are replaced
static char kind[600];  // k: character of a key, s: size, otherwise contents or type
static void key(char c) { kind[nraw] = 's'; put(1); kind[nraw] = 'k'; put(c); }
static void size8(long n) { for (int i = 0; i < 8; ++i) kind[nraw + i] = 's'; put8(n); }
static void size1(long n) { kind[nraw] = 's'; put(n); }
static void valid() {
  nraw = 0;
  key('b'); put((long)il::Type::Bool); put(1);
  key('i'); put((long)il::Type::Integer); put(0x85); put(1);
  key('u'); put((long)il::Type::Array2DOfUInt8); size8(1); size8(2); put(3); put(4);
  key('f'); put((long)il::Type::Single); for (int i = 0; i < 4; ++i) put(i);
  key('d'); put((long)il::Type::Double); put8(77);
  key('s'); put((long)il::Type::UnicodeString); size8(2); put('h'); put('i'); put(0);
  key('m'); put((long)il::Type::MapArrayStringToDynamic); size1(1); key('b'); put((long)il::Type::Bool); put(0); size1(0);
  key('v'); put((long)il::Type::ArrayOfDouble); size8(1); put8(5);
  key('A'); put((long)il::Type::Array2DOfDouble); size8(1); size8(1); put8(6);
  key('t'); put((long)il::Type::ArrayOfStruct); size1(1); key('x'); put((long)il::Type::Integer); size1(1); for (int i = 0; i < 4; ++i) put(i);
  size1(0);
}
VP_ENTRY(F07_bytes) {
  valid();
  const long at = vp_pick("at", 0, nraw - 1);
  // a key that changes is another name, or the name of another setting
  static const unsigned char other[] = {'b', 'z', 0, 0x80};
  static const unsigned char sizes[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 30, 60, 90, 100, 110, 120, 127, 128, 129, 192, 254, 255};
  for (long i = at; i < at + 1 + kMore && i < nraw; ++i) raw[i] = kind[i] == 'k' ? other[vp_pick("key", 0, 3)] : kind[i] == 's' ? sizes[vp_pick("size", 0, 26)] : vp_u8("byte");
  load();
}
VP_ENTRY(F07_cut) {
  valid();
  const long n = nraw;
  nraw = vp_pick("length", 0, nraw);
  load();
  vp_assert(loaded == (nraw == n), "a truncated file is reported");
}
VP_ENTRY(F07_no_file) {
  il::Status status{};
  const MapA m = il::load<MapA>(il::String{"none.data"}, il::io, status);
  vp_assert(!status.Ok() && m.size() == 0, "a file that does not exist was loaded");
  vp_file_fail_open(1);
  il::Status status2{};
  il::save(m, il::String{"g.data"}, il::io, status2);
  vp_assert(!status2.Ok(), "saved in a file that can not be opened");
  vp_cover("no file");
}
