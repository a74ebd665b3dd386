// Saving to TOML files, and the meaning of TOML documents.
// vp: variants debug ndebug
// vp: src il/io/toml/toml.cpp
// vp: flags stdstring
// bound: round trip of one value of each type (integers: every value from -999 to 999 and 7 extreme ones; texts: up to 3, keys: up to 2 arbitrary bytes that are UTF-8 without NUL; doubles: 17 values chosen among the hardest to print), of arrays of up to 3 values, of arrays of arrays and of maps, of 2D arrays up to 2x2, and of maps nested on 3 levels with settings before and after the tables, in both kinds of maps; full disks, files that can not be opened
// bound: documents: integers with up to 4 arbitrary digits, signs and underscores, decimal numbers with up to 2+2+2 digits, texts with every escape code, comments and blanks at every place, line ends \n and \r\n, arrays on several lines, dotted tables, arrays of tables
#include "vp.h"
#include <il/toml.h>
#include <il/Map.h>
#include <cstring>
#include <cstdio>
#include <string>

#ifdef VP_DEEP
static const long kInt = 9999, kMore = 1;
#else
static const long kInt = 999, kMore = 0;
#endif
typedef il::MapArray<il::String, il::Dynamic> MapA;
typedef il::Map<il::String, il::Dynamic> MapH;
typedef il::Array<il::Dynamic> Arr;

static MapA loadFile() {
  il::Status status{};
  MapA m = il::load<MapA>(il::String{"f.toml"}, il::io, status);
  vp_assert(status.Ok(), "a well-formed document is refused");
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
  return m;
}
template <typename M>
static void saveFile(const M& m) {
  il::Status status{};
  il::save(m, il::String{"f.toml"}, il::io, status);
  vp_assert(status.Ok(), "a map is not saved");
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
}
static const il::Dynamic& at(const MapA& m, const char* key) {
  const il::spot_t i = m.search(il::String{il::StringType::Byte, key, (long)std::strlen(key)});
  vp_assert(m.found(i), "missing key");
  return m.value(i);
}
static bool isText(const il::Dynamic& v, const char* s, long n) {
  if (!v.is<il::String>()) return false;
  const il::String& t = v.as<il::String>();
  if (t.size() != n) return false;
  bool ans = true;
  for (long i = 0; i < n; ++i) ans &= t.asCString()[i] == s[i];
  return ans;
}
static bool isText(const il::Dynamic& v, const char* s) { return isText(v, s, (long)std::strlen(s)); }
static bool isInt(const il::Dynamic& v, long n) { return v.is<il::int_t>() && v.to<il::int_t>() == n; }
static bool isDouble(const il::Dynamic& v, double x) { return v.is<double>() && v.to<double>() == x; }
static bool isMap(const il::Dynamic& v, long n) { return v.is<MapA>() && v.as<MapA>().size() == n; }
static bool isArr(const il::Dynamic& v, long n) { return v.is<Arr>() && v.as<Arr>().size() == n; }

// ------------------------------------------------------------------ round trip
static const double kDouble[] = {0.0, -0.0, 1.0, -1.5, 0.1, 1.0 / 3, -2.0 / 3e-5, 3.141592653589793, 1e22, 1e23, 123456789.12345678,
                                 9007199254740993.0, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, -1e-300, 4.9406564584124654e-310};
VP_ENTRY(F04_bool_integer) {
  MapA m{};
  const bool b = vp_flag("bool");
  static const long extreme[] = {-9223372036854775807 - 1, -9223372036854775807, 9223372036854775807, 1234567890123456789, -1000000000000000000, 999999999999999999, 4294967296};
  const long which = vp_pick("which", 0, 7);
  const long n = which == 7 ? vp_int("integer", -kInt, kInt) : extreme[which];
  m.Set("b", il::Dynamic{b});
  m.Set("n", il::Dynamic{n});
  saveFile(m);
  const MapA r = loadFile();
  vp_assert(r.size() == 2 && at(r, "b").is<bool>() && at(r, "b").to<bool>() == b, "boolean");
  vp_assert(isInt(at(r, "n"), n), "integer");
  vp_cover("integer");
}
VP_ENTRY(F04_double) {
  MapA m{};
  const double x = kDouble[vp_pick("double", 0, 16)];
  m.Set("x", il::Dynamic{x});
  saveFile(m);
  const MapA r = loadFile();
  const double y = at(r, "x").is<double>() ? at(r, "x").to<double>() : 0.0;
  vp_assert(at(r, "x").is<double>() && std::memcmp(&x, &y, 8) == 0, "double");
  vp_cover("double");
}
// A text of n bytes that is UTF-8
static long text(char* t, long lo, long hi) {
  const long n = vp_pick("length", lo, hi);
  for (long i = 0; i < n; ++i) {
    t[i] = (char)vp_u8("byte");
    vp_assume(t[i] != 0);
  }
  t[n] = 0;
  vp_assume(il::isUtf8(t));
  return n;
}
VP_ENTRY(F04_text) {
  char t[8];
  const long n = text(t, 0, 3);
  MapA m{};
  m.Set("a", il::Dynamic{il::String{il::StringType::Utf8, t, n}});
  m.Set("b", il::Dynamic{true});
  saveFile(m);
  const MapA r = loadFile();
  vp_assert(r.size() == 2 && isText(at(r, "a"), t, n), "text");
  vp_assert(at(r, "b").is<bool>(), "setting after a text");
  vp_cover("text");
}
VP_ENTRY(F04_key) {
  char t[8];
  const long n = text(t, 0, 2 + kMore);
  const il::String key{il::StringType::Utf8, t, n};
  MapA m{};
  m.Set(key, il::Dynamic{7});
  saveFile(m);
  const MapA r = loadFile();
  const il::spot_t i = r.search(key);
  vp_assert(r.size() == 1 && r.found(i) && isInt(r.value(i), 7), "key");
  vp_cover("key");
}
VP_ENTRY(F04_table_name) {
  char t[8];
  const long n = text(t, 1, 2);
  const il::String key{il::StringType::Utf8, t, n};
  const long depth = vp_pick("depth", 0, 1);
  MapA in{};
  in.Set("x", il::Dynamic{1});
  MapA m{};
  if (depth == 0) {
    m.Set(key, il::Dynamic{in});
  } else {
    MapA mid{};
    mid.Set("sub", il::Dynamic{in});
    m.Set(key, il::Dynamic{mid});
  }
  saveFile(m);
  const MapA r = loadFile();
  const il::spot_t i = r.search(key);
  vp_assert(r.size() == 1 && r.found(i) && isMap(r.value(i), 1), "name of a table");
  const MapA& q = depth == 0 ? r.value(i).as<MapA>() : at(r.value(i).as<MapA>(), "sub").as<MapA>();
  vp_assert(q.size() == 1 && isInt(at(q, "x"), 1), "content of a table");
  vp_cover("table name");
}
static il::Dynamic leaf(long kind, long k) {
  switch (kind) {
    case 0: return il::Dynamic{k == 1};
    case 1: return il::Dynamic{10 + k};
    case 2: return il::Dynamic{0.1 * (k + 1)};
    case 3: return k == 0 ? il::Dynamic{"a,\"]#"} : k == 1 ? il::Dynamic{""} : il::Dynamic{"\\'\xc3\xa9"};
    case 4: { Arr a{}; for (long i = 0; i < k; ++i) a.Append(il::Dynamic{i}); return il::Dynamic{a}; }
    case 5: { MapA a{}; for (long i = 0; i < k; ++i) a.Set(i == 0 ? il::String{"p"} : il::String{"q r"}, il::Dynamic{i}); return il::Dynamic{a}; }
    default: { MapH a{}; for (long i = 0; i < k; ++i) a.Set(i == 0 ? il::String{"p"} : il::String{"q r"}, il::Dynamic{i}); return il::Dynamic{a}; }
  }
}
static bool isLeaf(const il::Dynamic& v, long kind, long k) {
  switch (kind) {
    case 0: return v.is<bool>() && v.to<bool>() == (k == 1);
    case 1: return isInt(v, 10 + k);
    case 2: return isDouble(v, 0.1 * (k + 1));
    case 3: return isText(v, k == 0 ? "a,\"]#" : k == 1 ? "" : "\\'\xc3\xa9");
    case 4:
      if (!isArr(v, k)) return false;
      for (long i = 0; i < k; ++i) if (!isInt(v.as<Arr>()[i], i)) return false;
      return true;
    default:
      if (!isMap(v, k)) return false;
      for (long i = 0; i < k; ++i) if (!isInt(at(v.as<MapA>(), i == 0 ? "p" : "q r"), i)) return false;
      return true;
  }
}
VP_ENTRY(F04_array) {
  const long kind = vp_pick("kind", 0, 6), n = vp_pick("size", 0, 3);
  Arr a{};
  for (long i = 0; i < n; ++i) a.Append(leaf(kind, i));
  const bool nested = vp_flag("nested");
  if (nested) {
    Arr b{};
    b.Append(il::Dynamic{a});
    b.Append(il::Dynamic{Arr{}});
    a = b;
  }
  MapA m{};
  m.Set("a", il::Dynamic{a});
  m.Set("z", il::Dynamic{5});
  saveFile(m);
  const MapA r = loadFile();
  vp_assert(r.size() == 2 && isInt(at(r, "z"), 5), "setting after an array");
  const il::Dynamic& v = at(r, "a");
  if (nested) {
    vp_assert(isArr(v, 2) && isArr(v.as<Arr>()[0], n) && isArr(v.as<Arr>()[1], 0), "array of arrays");
    for (long i = 0; i < n; ++i) vp_assert(isLeaf(v.as<Arr>()[0].as<Arr>()[i], kind, i), "element of an array of arrays");
  } else {
    vp_assert(isArr(v, n), "size of an array");
    for (long i = 0; i < n; ++i) vp_assert(isLeaf(v.as<Arr>()[i], kind, i), "element of an array");
  }
  vp_cover("array");
}
VP_ENTRY(F04_array_of_double) {
  const long n = vp_pick("n", 0, 2), m2 = vp_pick("m", 0, 2);
  il::Array<double> x{n};
  for (long i = 0; i < n; ++i) x[i] = kDouble[5 + i];
  il::Array2D<double> A{};
  if (vp_flag("spare")) A.Reserve(n + 1, m2 + 2);
  A.Resize(n, m2);
  for (long i = 0; i < n; ++i) for (long j = 0; j < m2; ++j) A(i, j) = kDouble[8 + 2 * i + j];
  MapA m{};
  m.Set("x", il::Dynamic{x});
  m.Set("A", il::Dynamic{A});
  saveFile(m);
  const MapA r = loadFile();
  vp_assert(r.size() == 2 && isArr(at(r, "x"), n) && isArr(at(r, "A"), n), "size");
  for (long i = 0; i < n; ++i) {
    vp_assert(isDouble(at(r, "x").as<Arr>()[i], kDouble[5 + i]), "element");
    vp_assert(isArr(at(r, "A").as<Arr>()[i], m2), "row");
    for (long j = 0; j < m2; ++j) vp_assert(isDouble(at(r, "A").as<Arr>()[i].as<Arr>()[j], kDouble[8 + 2 * i + j]), "element of a matrix");
  }
  vp_cover("array of double");
}
// Settings before, between and after tables, on three levels
template <typename M>
static M tree(long bits, long depth) {
  M m{};
  if (bits & 1) m.Set("a", il::Dynamic{depth});
  if ((bits & 2) && depth < 2) m.Set("t 1", il::Dynamic{tree<M>(bits, depth + 1)});
  if (bits & 4) m.Set("b", il::Dynamic{"x"});
  if ((bits & 8) && depth < 2) m.Set("t2", il::Dynamic{tree<M>(bits >> 1, depth + 1)});
  if (bits & 16) m.Set("c", leaf(4, 2));
  return m;
}
static void same(const MapA& m, long bits, long depth) {
  long n = 0;
  if (bits & 1) { ++n; vp_assert(isInt(at(m, "a"), depth), "setting before the tables"); }
  if ((bits & 2) && depth < 2) { ++n; vp_assert(at(m, "t 1").is<MapA>(), "first table"); same(at(m, "t 1").as<MapA>(), bits, depth + 1); }
  if (bits & 4) { ++n; vp_assert(isText(at(m, "b"), "x"), "setting between the tables"); }
  if ((bits & 8) && depth < 2) { ++n; vp_assert(at(m, "t2").is<MapA>(), "second table"); same(at(m, "t2").as<MapA>(), bits >> 1, depth + 1); }
  if (bits & 16) { ++n; vp_assert(isLeaf(at(m, "c"), 4, 2), "array after the tables"); }
  vp_assert(m.size() == n, "number of settings");
}
VP_ENTRY(F04_tables) {
  const long bits = vp_pick("bits", 0, 31);
  saveFile(tree<MapA>(bits, 0));
  same(loadFile(), bits, 0);
  vp_cover("tables");
}
VP_ENTRY(F04_tables_map) {
  const long bits = vp_pick("bits", 0, 31);
  saveFile(tree<MapH>(bits, 0));
  same(loadFile(), bits, 0);
  vp_cover("tables of Map");
}
// Nothing is lost silently
VP_ENTRY(F04_full) {
  MapA m{};
  m.Set("a", leaf(1, 0));
  m.Set("b", leaf(3, 2));
  m.Set("t", leaf(5, 2));
  m.Set("x", leaf(2, 0));
  saveFile(m);
  char t[256];
  const long n = vp_file_get("f.toml", t, 256);
  const long room = vp_pick("room", 0, n);
  vp_file_full(room, vp_flag("at close"));
  il::Status status{};
  il::save(m, il::String{"f.toml"}, il::io, status);
  vp_assert(status.Ok() == (room == n), "a map that could not be saved");
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
  vp_cover("full");
}
VP_ENTRY(F04_open) {
  vp_file_put("f.toml", "a = 1\n", 6);
  vp_file_readonly(1);
  const MapA r = loadFile();
  vp_assert(r.size() == 1 && isInt(at(r, "a"), 1), "file that can only be read");
  il::Status status{};
  il::save(r, il::String{"f.toml"}, il::io, status);
  vp_assert(!status.Ok(), "saved in a file that can not be written");
  // the type of the file comes from its name, whatever the type of the name
  il::Status status2{};
  const MapA r2 = il::load<MapA>(std::string{"f.toml"}, il::io, status2);
  vp_assert(status2.Ok() && r2.size() == 1, "name in a std::string");
  il::Status status3{};
  il::save(r, il::String{"f.txt"}, il::io, status3);
  vp_assert(!status3.Ok(), "unknown type of file");
  il::Status status4{};
  const MapA r4 = il::load<MapA>(il::String{"f.txt"}, il::io, status4);
  vp_assert(!status4.Ok() && r4.size() == 0, "unknown type of file");
  vp_cover("open");
}
// values without a counterpart in TOML
VP_ENTRY(F04_no_type) {
  MapA m{};
  m.Set("a", vp_flag("float") ? il::Dynamic{1.0f} : il::Dynamic{});
  il::Status status{};
  il::save(m, il::String{"f.toml"}, il::io, status);
  vp_assert(!status.Ok(), "a value without type was saved");
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
  vp_cover("no type");
}
// ------------------------------------------------------------------- documents
static char doc[512];
static long ndoc;
static void put(const char* s) { while (*s) doc[ndoc++] = *s++; }
static void put(char c) { doc[ndoc++] = c; }
static MapA read() {
  vp_file_put("f.toml", doc, ndoc);
  return loadFile();
}
static void blank() {
  static const char* const t[] = {"", " \t", " "};
  put(t[vp_pick("blank", 0, 1 + kMore)]);
}
static void eol() {
  static const char* const t[] = {"\n", "\r\n", " # c = [\n", "#\n"};
  put(t[vp_pick("end", 0, 3)]);
}
VP_ENTRY(F04_doc_integer) {
  put("a =");
  blank();
  long sign = 1;
  switch (vp_pick("sign", 0, 2)) { case 1: put('+'); break; case 2: put('-'); sign = -1; }
  const long n = vp_pick("digits", 1, 4);
  long v = 0;
  for (long i = 0; i < n; ++i) {
    const long d = vp_int("digit", i == 0 && n > 1 ? 1 : 0, 9);
    put((char)('0' + d));
    v = 10 * v + d;
    if (i + 1 < n && vp_flag("underscore")) put('_');
  }
  static const char* const t[] = {"\n", "\r\n", " # c\n", "#c\n", "\t\n", ""};
  put(t[vp_pick("end", 0, 5)]);
  const MapA m = read();
  vp_assert(m.size() == 1 && isInt(at(m, "a"), sign * v), "integer");
  vp_cover("integer");
}
VP_ENTRY(F04_doc_double) {
  put("a = ");
  char num[32];
  long k = 0;
  switch (vp_pick("sign", 0, 2)) { case 1: num[k++] = '+'; break; case 2: num[k++] = '-'; }
  static const char* const whole[] = {"0", "7", "12", "1_0"};
  static const char* const part[] = {"", ".0", ".5", ".25"};
  static const char* const power[] = {"", "e3", "E-2", "e+05"};
  const long w = vp_pick("whole", 0, 3), p = vp_pick("part", 0, 3), q = vp_pick("power", 0, 3);
  for (const char* s = whole[w]; *s; ++s) num[k++] = *s;
  for (const char* s = part[p]; *s; ++s) num[k++] = *s;
  for (const char* s = power[q]; *s; ++s) num[k++] = *s;
  num[k] = 0;
  put(num);
  eol();
  const MapA m = read();
  static const double wv[] = {0, 7, 12, 10}, pv[] = {0, 0, 0.5, 0.25}, qv[] = {1, 1e3, 1e-2, 1e5};
  double x = wv[w] + pv[p];
  x = q == 2 ? x / 100 : x * qv[q];
  if (num[0] == '-') x = -x;
  vp_assert(m.size() == 1, "number");
  if (p == 0 && q == 0) vp_assert(isInt(at(m, "a"), (long)x), "integer");
  else vp_assert(isDouble(at(m, "a"), x), "floating point number");
  vp_cover("double");
}
VP_ENTRY(F04_doc_text) {
  put("a = ");
  const bool literal = vp_flag("literal");
  put(literal ? '\'' : '"');
  char want[32];
  long n = 0;
  const long k = vp_pick("pieces", 0, 2);
  for (long i = 0; i < k; ++i) {
    const long c = vp_pick("piece", 0, 9);
    static const char* const in[] = {"\\b", "\\t", "\\n", "\\f", "\\r", "\\\"", "\\\\", "#=[", "\xc3\xa9", " "};
    static const char* const out[] = {"\b", "\t", "\n", "\f", "\r", "\"", "\\", "#=[", "\xc3\xa9", " "};
    const char* s = literal ? in[c] : out[c];
    put(in[c]);
    while (*s) want[n++] = *s++;
  }
  put(literal ? '\'' : '"');
  eol();
  const MapA m = read();
  vp_assert(m.size() == 1 && isText(at(m, "a"), want, n), "text");
  vp_cover("text");
}
VP_ENTRY(F04_doc_array) {
  // 1 or 2 elements with comments and line ends in between
  static const char* const gap[] = {"", " ", " # , ]\n ", "\r\n\n", "\n"};
  static const char* const elt[] = {"0", "-3", "true", "\"a,b\"", "'c]'", "[1, 2]", "[]", "{x = 1, y = [2]}", "{}", "1.5"};
  const long kind = vp_pick("kind", 0, 9), n = vp_pick("size", 0, 2);
  put("a = [");
  for (long i = 0; i < n; ++i) {
    put(gap[vp_pick("gap", 0, 3 + kMore)]);
    put(elt[kind]);
    put(i == 0 ? gap[vp_pick("gap", 0, 3 + kMore)] : "");
    if (i + 1 < n || vp_flag("comma")) put(',');
  }
  put(n == 0 ? gap[vp_pick("gap", 0, 3 + kMore)] : " ");
  put("]");
  eol();
  put("z = 1");
  const MapA m = read();
  vp_assert(m.size() == 2 && isInt(at(m, "z"), 1) && isArr(at(m, "a"), n), "array");
  for (long i = 0; i < n; ++i) {
    const il::Dynamic& v = at(m, "a").as<Arr>()[i];
    bool ok = false;
    switch (kind) {
      case 0: ok = isInt(v, 0); break;
      case 1: ok = isInt(v, -3); break;
      case 2: ok = v.is<bool>() && v.to<bool>(); break;
      case 3: ok = isText(v, "a,b"); break;
      case 4: ok = isText(v, "c]"); break;
      case 5: ok = isArr(v, 2) && isInt(v.as<Arr>()[0], 1) && isInt(v.as<Arr>()[1], 2); break;
      case 6: ok = isArr(v, 0); break;
      case 7: ok = isMap(v, 2) && isInt(at(v.as<MapA>(), "x"), 1) && isArr(at(v.as<MapA>(), "y"), 1); break;
      case 8: ok = isMap(v, 0); break;
      default: ok = isDouble(v, 1.5);
    }
    vp_assert(ok, "element");
  }
  vp_cover("array");
}
// Keys: bare, quoted, with blanks and comments around
VP_ENTRY(F04_doc_lines) {
  static const char* const key[] = {"k", "k-1_A", "\"k\"", "\"a b\"", "'c.d'", "\"\\\"\"", "'\xc3\xa9'", "1"};
  static const char* const name[] = {"k", "k-1_A", "k", "a b", "c.d", "\"", "\xc3\xa9", "1"};
  static const char* const before[] = {"", "\n", "# x = 1\n", " \t\n", "\r\n"};
  put(before[vp_pick("before", 0, 4)]);
  blank();
  const long k = vp_pick("key", 0, 7);
  put(key[k]);
  blank();
  put("=");
  blank();
  put(vp_flag("inline") ? "{ u = 1 , \"v\" = 2 }" : "true");
  blank();
  eol();
  put("last=false");
  const MapA m = read();
  const il::Dynamic& v = at(m, name[k]);
  vp_assert(m.size() == 2 && at(m, "last").is<bool>() && !at(m, "last").to<bool>(), "last line");
  vp_assert((v.is<bool>() && v.to<bool>()) || (isMap(v, 2) && isInt(at(v.as<MapA>(), "u"), 1) && isInt(at(v.as<MapA>(), "v"), 2)), "value");
  vp_cover("lines");
}
// A table holds the settings that follow its header, whatever the order of the headers
VP_ENTRY(F04_doc_tables) {
  static const char* const head[] = {"[a]", "[ a . b ]", "[a.\"b c\"]", "[d] # e", "['a'.b.c]"};
  long used[3], nb = vp_pick("tables", 1, 3);
  put("r = 0\n");
  for (long i = 0; i < nb; ++i) {
    used[i] = vp_pick("header", 0, 4);
    for (long j = 0; j < i; ++j) vp_assume(used[j] != used[i]);
    put(head[used[i]]);
    put(i == 1 ? "\r\n" : "\n");
    put("x = ");
    put((char)('1' + i));
    put("\n");
  }
  const MapA m = read();
  vp_assert(isInt(at(m, "r"), 0), "setting before the tables");
  for (long i = 0; i < nb; ++i) {
    const MapA* q = &m;
    static const char* const path[][3] = {{"a", 0, 0}, {"a", "b", 0}, {"a", "b c", 0}, {"d", 0, 0}, {"a", "b", "c"}};
    for (long k = 0; k < 3 && path[used[i]][k]; ++k) {
      vp_assert(at(*q, path[used[i]][k]).is<MapA>(), "table");
      q = &at(*q, path[used[i]][k]).as<MapA>();
    }
    vp_assert(isInt(at(*q, "x"), 1 + i), "setting of a table");
  }
  vp_cover("tables");
}
VP_ENTRY(F04_doc_table_arrays) {
  // [[a]] twice, with or without sub-tables, then [[b.c]]
  const long n = vp_pick("times", 1, 3);
  const bool sub = vp_flag("sub"), deep = vp_flag("deep");
  for (long i = 0; i < n; ++i) {
    put(i == 1 ? "[[ a ]] # c\n" : "[[a]]\n");
    put("x = ");
    put((char)('0' + i));
    put("\n");
    if (sub) { put("[a.s]\ny = "); put((char)('5' + i)); put("\n"); }
    if (deep) put("[[a.t]]\nz = 8\n[[a.t]]\nz = 9\n");
  }
  put("[[b.c]]\nw = 1\n[[b.c]]\nw = 2\n[b.e]\nw = 3\n");
  const MapA m = read();
  vp_assert(m.size() == 2 && isArr(at(m, "a"), n), "array of tables");
  for (long i = 0; i < n; ++i) {
    const il::Dynamic& v = at(m, "a").as<Arr>()[i];
    vp_assert(isMap(v, 1 + sub + deep) && isInt(at(v.as<MapA>(), "x"), i), "element of an array of tables");
    if (sub) vp_assert(isMap(at(v.as<MapA>(), "s"), 1) && isInt(at(at(v.as<MapA>(), "s").as<MapA>(), "y"), 5 + i), "table of an element");
    if (deep) {
      const il::Dynamic& t = at(v.as<MapA>(), "t");
      vp_assert(isArr(t, 2), "array of an element");
      for (long j = 0; j < 2; ++j) vp_assert(isMap(t.as<Arr>()[j], 1) && isInt(at(t.as<Arr>()[j].as<MapA>(), "z"), 8 + j), "element of an array of an element");
    }
  }
  const il::Dynamic& b = at(m, "b");
  vp_assert(isMap(b, 2) && isArr(at(b.as<MapA>(), "c"), 2) && isMap(at(b.as<MapA>(), "e"), 1), "dotted array of tables");
  for (long j = 0; j < 2; ++j) vp_assert(isInt(at(at(b.as<MapA>(), "c").as<Arr>()[j].as<MapA>(), "w"), 1 + j), "element of a dotted array of tables");
  vp_cover("arrays of tables");
}
// What is not TOML is refused
VP_ENTRY(F04_refused) {
  static const char* const t[] = {"a = 1\na = 2\n", "a = [1 2]\n", "a = [1, true]\n", "a = 01\n", "a = 1__0\n", "a = 1_\n", "a = _1\n", "a = .5\n", "a = 1.\n", "a = 1e\n",
                                  "a = \"x\n", "a = 'x\n", "a = \"\\q\"\n", "a = [1\n", "a = {b = 1\n", "a =\n", "a\n", "= 1\n", "a = tru\n", "a = 1 2\n", "[a\n", "[]\n", "[[a]\n", "[a] x\n",
                                  "a = 1\n[a]\n", "a = 1\n[[a]]\n", "a b = 1\n", "a = \"\xc3\"\n", "[[a]] x\n", "a = {b = 1} x\n", "a = {b = 1, b = 2}\n", "a = [[1], 2]\n", "a = true]\n"};
  const long k = vp_pick("document", 0, sizeof t / sizeof t[0] - 1);
  put(t[k]);
  vp_file_put("f.toml", doc, ndoc);
  il::Status status{};
  const MapA m = il::load<MapA>(il::String{"f.toml"}, il::io, status);
  vp_assert(!status.Ok(), "a malformed document is read");
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
  vp_cover("refused");
}
