// What can not be saved or loaded is reported.
// vp: variants debug ndebug
// vp: flags stdstring
// vp: src il/io/numpy/numpy.cpp il/io/toml/toml.cpp
// bound: names of files of 0 to 5 arbitrary bytes other than null, and 0 to 2 arbitrary bytes followed by an extension of the library, in any letter case or followed by one more byte; loaded as and saved from an integer, an array of integers, an array of double, a matrix of float, an ordered map and a map
#include "vp.h"
#include <il/numpy.h>
#include <il/toml.h>
#include <iostream>
#include <il/data.h>
#include <cstring>

typedef il::MapArray<il::String, il::Dynamic> MapA;
typedef il::Map<il::String, il::Dynamic> MapH;
static char name[16];
static long n;
static bool ends(const char* s) {
  const long k = (long)std::strlen(s);
  if (n < k) return false;
  bool ok = true;
  for (long i = 0; i < k; ++i) ok = ok & (name[n - k + i] == s[i]);
  return ok;
}
static void any(long k) {
  for (long i = 0; i < k; ++i) { name[n] = (char)vp_u8("byte"); vp_assume((name[n] != 0) & (name[n] != '/')); ++n; }
}
static void make() {
  n = 0;
  if (vp_flag("free")) {
    any(vp_pick("length", 0, 5));
  } else {
    static const char* const kExt[] = {".npy", ".toml", ".data", ".png"};
    any(vp_pick("length", 0, 2));
    const char* e = kExt[vp_pick("extension", 0, 3)];
    const long change = vp_pick("change", 0, 5);
    for (long i = 0; e[i]; ++i) { name[n] = e[i]; if (change == i + 1) { name[n] = (char)vp_u8("byte"); vp_assume((name[n] != 0) & (name[n] != '/')); } ++n; }
    if (change == 0) any(vp_pick("more", 0, 1));
  }
  name[n] = 0;
}
static il::String file() { return il::String{il::StringType::Byte, name, n}; }
// A name has the type of the extension it ends with
VP_ENTRY(F08_type) {
  make();
  il::Status status{};
  const il::FileType t = il::fileType(file(), il::io, status);
  if (status.Ok()) {
    const char* const ext = t == il::FileType::Npy ? ".npy" : t == il::FileType::Toml ? ".toml" : t == il::FileType::Data ? ".data" : ".png";
    vp_assert(ends(ext), "type of the file");
    vp_cover("known");
  } else {
    vp_assert(!(ends(".npy") | ends(".toml") | ends(".data") | ends(".png")), "an extension of the library is not known");
    vp_cover("unknown");
  }
}
struct Options { int a; };
template <typename T> static bool loads() {
  il::Status status{};
  if (vp_flag("string")) {
    const T x = il::load<T>(std::string{name, (std::size_t)n}, il::io, status);
    (void)x;
  } else {
    const T x = il::load<T>(file(), il::io, status);
    (void)x;
  }
  return status.Ok();
}
template <typename T> static bool saves(const T& x) {
  il::Status status{};
  il::save(x, file(), il::io, status);
  return status.Ok();
}
template <typename T> static bool savesWith(const T& x) {
  il::Status status{};
  il::save(x, Options{3}, file(), il::io, status);
  return status.Ok();
}
static const char kToml[] = "a = 1\n";
// The types that every kind of file can hold
VP_ENTRY(F08_load) {
  make();
  const int contents = (int)vp_pick("contents", 0, 2);
  bool there = true;
  if (contents == 0) vp_file_put(file().asCString(), kToml, sizeof(kToml) - 1);
  else if (contents == 1) vp_file_put(file().asCString(), "\0", 1);
  else there = false;
  bool ok = false, may = false;
  switch (vp_pick("what", 0, 5)) {
    case 0: ok = loads<int>(); break;
    case 1: ok = loads<il::Array<long>>(); break;
    case 2: ok = loads<il::Array<double>>(); may = ends(".npy"); break;
    case 3: ok = loads<il::Array2D<float>>(); break;
    case 4: ok = loads<MapA>(); may = ends(".toml") | (contents == 1 && ends(".data")); break;
    case 5: ok = loads<MapH>(); may = ends(".toml") | (contents == 1 && ends(".data")); break;
  }
  if (ok) vp_assert(there & may, "something was loaded from a file that can not contain it");
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
  vp_cover("load");
}
VP_ENTRY(F08_save) {
  make();
  bool ok = false, may = false;
  MapA m{};
  m.Set("a", il::Dynamic{1});
  MapH h{};
  h.Set("a", il::Dynamic{1});
  switch (vp_pick("what", 0, 10)) {
    case 0: ok = saves(1); break;
    case 1: ok = saves(il::String{"text"}); break;
    case 2: ok = saves(il::Array<double>{2, 1.0}); may = ends(".npy"); break;
    case 3: ok = saves(il::Array2D<float>{2, 2, 1.0f}); break;  // no name for float in the files of the library
    case 4: ok = saves(m); may = ends(".toml") | ends(".data"); break;
    case 5: ok = saves(h); may = ends(".toml"); break;
    case 6: ok = savesWith(1); break;
    case 7: ok = savesWith(il::String{"text"}); break;
    case 8: ok = savesWith(il::Array<double>{2, 1.0}); break;
    case 9: ok = savesWith(m); break;
    case 10: ok = savesWith(h); break;
  }
  vp_assert(ok == may, "what was saved, or was not");
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
  char t[512];
  const long bytes = vp_file_get(file().asCString(), t, 512);
  if (ok) vp_assert(bytes > 0, "nothing was saved");
  else vp_assert(bytes < 0, "a file was made although nothing could be saved");
  vp_cover("save");
}
// A file of NumPy without a name of type is not loaded as a type without name
VP_ENTRY(F08_no_name) {
  static const char kNpy[] = "\x93NUMPY\x01\x00\x46\x00{'descr': '<', 'fortran_order': False, 'shape': (1,), }              \n\0\0\0\0\0\0\0\0";
  vp_file_put("a.npy", kNpy, sizeof(kNpy) - 1);
  std::memcpy(name, "a.npy", 6);
  n = 5;
  bool ok = false;
  switch (vp_pick("what", 0, 3)) {
    case 0: ok = loads<il::Array<float>>(); break;
    case 1: ok = loads<il::Array<unsigned char>>(); break;
    case 2: ok = saves(il::Array<float>{2, 1.0f}); break;
    case 3: ok = saves(il::Array<il::String>{2, il::String{"text"}}); break;
  }
  vp_assert(!ok, "a type without a name in the files was loaded or saved");
  vp_cover("no name");
}
