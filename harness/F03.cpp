// Reading TOML files of any content.
// vp: variants debug ndebug
// vp: src il/io/toml/toml.cpp
// bound: documents made of one of the beginnings below followed by up to 3 arbitrary bytes (4 for the empty beginning, after a= and in texts), with and without a line feed at the end; files that do not exist; lines of 195 to 205 bytes
#include "vp.h"
#include <il/toml.h>
#include <cstring>

#ifdef VP_DEEP
static const long kMore = 2;
#else
static const long kMore = 1;
#endif
typedef il::MapArray<il::String, il::Dynamic> Map;
static void use(const il::Dynamic& v, long depth);
static void use(const Map& m, long depth) {
  for (il::spot_t i = m.spotBegin(); i != m.spotEnd(); i = m.next(i)) {
    const il::spot_t j = m.search(m.key(i));
    vp_assert(m.found(j) && j.index == i.index, "a key that was read is not found");
    if (depth < 4) use(m.value(i), depth + 1);
  }
}
static void use(const il::Dynamic& v, long depth) {
  if (v.is<il::Array<il::Dynamic>>()) {
    const il::Array<il::Dynamic>& a = v.as<il::Array<il::Dynamic>>();
    for (long i = 0; i < a.size(); ++i) if (depth < 4) use(a[i], depth + 1);
  } else if (v.is<Map>()) {
    use(v.as<Map>(), depth + 1);
  } else {
    vp_assert(v.is<bool>() || v.is<il::int_t>() || v.is<double>() || v.is<il::String>(), "a value without type was read");
  }
}
static void read(long lines) {
  {
    il::Status status{};
    const Map m = il::load<Map>(il::String{"in.toml"}, il::io, status);
    vp_assert(vp_file_open_handles() == 0, "the file is left open");
    if (status.Ok()) {
      use(m, 0);
      vp_cover("read");
    } else {
      const long n = status.toInteger("line");
      vp_assert(n >= 1 && n <= lines, "an error outside of the file");
      vp_cover("error");
    }
  }
  vp_assert(vp_live() == 0, "memory is not released");
}
static void document(const char* begin, long k) {
  char text[64];
  long n = (long)std::strlen(begin);
  std::memcpy(text, begin, n);
  const long more = vp_pick("bytes", 0, k);
  for (long i = 0; i < more; ++i) text[n++] = (char)vp_u8("byte");
  if (vp_pick("line_feed", 0, 1)) text[n++] = '\n';
  vp_file_put("in.toml", text, n);
  read(16);
}
VP_ENTRY(F03_any) { document("", 3 + kMore); }
VP_ENTRY(F03_value) { document("a=", 3 + kMore); }
VP_ENTRY(F03_number) {
  static const char* const t[] = {"a=1", "a=0", "a=-", "a=1_", "a=1.", "a=1e", "a=1.5", "a=1e-"};
  document(t[vp_pick("begin", 0, 7)], 3);
}
VP_ENTRY(F03_text) {
  static const char* const t[] = {"a=\"", "a='", "a=\"\\", "a=\"\xc3", "a=\"\xe2\x82", "a=\"b\""};
  document(t[vp_pick("begin", 0, 5)], 3 + kMore);
}
VP_ENTRY(F03_array) {
  static const char* const t[] = {"a=[", "a=[1", "a=[1,", "a=[[1],", "a=[[", "a=[{", "a=[{b=1}", "a=[\n", "a=[\"b\"", "a=[true,"};
  document(t[vp_pick("begin", 0, 9)], 3);
}
VP_ENTRY(F03_inline_table) {
  static const char* const t[] = {"a={", "a={b", "a={b=", "a={b=1", "a={b=1,", "a={}"};
  document(t[vp_pick("begin", 0, 5)], 3);
}
VP_ENTRY(F03_key) {
  static const char* const t[] = {"a", "a ", "\"", "\"a", "'", "'a", "\"a\"", "a=1\na", "a=1\n"};
  document(t[vp_pick("begin", 0, 8)], 3);
}
VP_ENTRY(F03_table) {
  static const char* const t[] = {"[", "[a", "[a.", "[\"", "a=1\n[a", "[a]\n[a", "[[a]]\n[a.", "a=[1]\n[a", "a=[]\n[a", "[a]"};
  document(t[vp_pick("begin", 0, 9)], 3);
}
VP_ENTRY(F03_table_array) {
  static const char* const t[] = {"[[", "[[a", "[[a.", "[[a]", "a=1\n[[a", "[a]\n[[a", "[[a]]\n[[a", "a=[1]\n[[a", "[[a]]"};
  document(t[vp_pick("begin", 0, 8)], 3);
}
// lines around the length of the buffer
VP_ENTRY(F03_long_lines) {
  char text[512];
  const long n = vp_pick("length", 195, 205);
  long k = 0;
  switch (vp_pick("kind", 0, 2)) {
    case 0:  // a comment that contains a setting
      text[k++] = '#';
      while (k < n) text[k++] = (k % 2) ? '=' : '1';
      break;
    case 1:  // a text
      std::memcpy(text, "a=\"", 3);
      k = 3;
      while (k < n - 1) text[k++] = 'x';
      text[k++] = '"';
      break;
    case 2:  // an array
      std::memcpy(text, "a=[", 3);
      k = 3;
      while (k < n - 2) { text[k++] = '7'; text[k++] = ','; }
      text[k++] = ']';
      break;
  }
  const long length = k;
  text[k++] = '\n';
  std::memcpy(text + k, "b=5\n", 4);
  vp_file_put("in.toml", text, k + 4);
  il::Status status{};
  const Map m = il::load<Map>(il::String{"in.toml"}, il::io, status);
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
  vp_assert(status.Ok(), "long line refused");
  const il::spot_t i = m.search("a"), j = m.search("b");
  vp_assert(m.found(j) && m.value(j).is<il::int_t>() && m.value(j).to<il::int_t>() == 5, "setting after a long line");
  vp_assert(m.size() == (text[0] == '#' ? 1 : 2) && m.found(i) == (text[0] != '#'), "settings of a long line");
  if (text[0] == 'a') {
    if (text[2] == '"') vp_assert(m.value(i).is<il::String>() && m.value(i).as<il::String>().size() == length - 4, "long text");
    else vp_assert(m.value(i).is<il::Array<il::Dynamic>>() && m.value(i).as<il::Array<il::Dynamic>>().size() == (length - 4) / 2, "long array");
  }
  vp_cover("long lines");
}
VP_ENTRY(F03_no_file) {
  il::Status status{};
  const Map m = il::load<Map>(il::String{"none.toml"}, il::io, status);
  vp_assert(!status.Ok() && m.size() == 0, "a file that does not exist was read");
  vp_cover("no file");
}
