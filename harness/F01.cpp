// Arrays in .npy files.
// vp: variants debug ndebug
// vp: src il/io/numpy/numpy.cpp
// bound: arrays of up to 3 (+2 thorough) and matrices of up to 3 x 3 int, int_t and double of arbitrary bits, with spare capacity of 0 to 2 in both directions; files written by numpy with 1 and 2 dimensions; disks that are full after any number of bytes
#include "vp.h"
#include <il/numpy.h>
#include <cstring>

#ifdef VP_DEEP
static const long kMore = 2;
#else
static const long kMore = 0;
#endif
template <typename T> struct Bits;
template <> struct Bits<int> { static int any() { return vp_i32("element"); } static const char* name() { return "<i4"; } };
template <> struct Bits<long> { static long any() { return vp_i64("element"); } static const char* name() { return "<i8"; } };
template <> struct Bits<double> { static double any() { return vp_double("element"); } static const char* name() { return "<f8"; } };
template <typename T> static bool same(const T& a, const T& b) {
  typedef unsigned char B;
  const B* p = (const B*)&a;
  const B* q = (const B*)&b;
  unsigned d = 0;
  for (unsigned i = 0; i < sizeof(T); ++i) d |= (unsigned)(p[i] ^ q[i]);
  return d == 0;
}
static const il::String& file() { static const il::String f{"a.npy"}; return f; }

// The file is what the npy format says: its header, then the elements
static char raw[1024];
static long nraw;
static long header(const char* type, long rank, long n0, long n1) {
  nraw = vp_file_get("a.npy", raw, 1024);
  vp_assert(nraw >= 10 && std::memcmp(raw, "\x93NUMPY\x01\x00", 8) == 0, "magic string");
  const long k = 10 + (unsigned char)raw[8] + 256 * (unsigned char)raw[9];
  vp_assert(k <= nraw && k % 64 == 0 && raw[k - 1] == '\n', "length of the header");
  // the dictionary, without its blanks
  char d[256], want[256];
  long nd = 0, nw = 0;
  for (long i = 10; i < k - 1; ++i) if (raw[i] != ' ') d[nd++] = raw[i];
  auto put = [&](const char* s) { while (*s) want[nw++] = *s++; };
  put("{'descr':'"); put(type); put("','fortran_order':"); 
  long pos = 0;
  while (pos < nd && d[pos] != ')') ++pos;
  if (rank == 2) put("True");
  else put(nw < nd && d[nw] == 'T' ? "True" : "False");
  put(",'shape':(");
  char c[3] = {(char)('0' + n0), ',', 0};
  put(c);
  if (rank == 2) { c[0] = (char)('0' + n1); c[1] = 0; put(c); }
  put("),}");
  vp_assert(nd == nw && std::memcmp(d, want, nw) == 0, "header");
  return k;
}
template <typename T> static void array1(long nmax) {
  const long n = vp_pick("size", 0, nmax), more = vp_pick("spare", 0, 2);
  il::Array<T> v{n};
  for (long i = 0; i < n; ++i) v[i] = Bits<T>::any();
  v.Reserve(n + more);
  il::Status status{};
  il::save(v, file(), il::io, status);
  vp_assert(status.Ok(), "an array is not saved");
  const long k = header(Bits<T>::name(), 1, n, 0);
  vp_assert(nraw - k == n * (long)sizeof(T), "length of the file");
  for (long i = 0; i < n; ++i) { T x; std::memcpy(&x, raw + k + i * sizeof(T), sizeof(T)); vp_assert(same(x, v[i]), "element in the file"); }
  il::Status status2{};
  const il::Array<T> w = il::load<il::Array<T>>(file(), il::io, status2);
  vp_assert(status2.Ok() && w.size() == n, "an array that was saved is not loaded");
  for (long i = 0; i < n; ++i) vp_assert(same(w[i], v[i]), "element that was loaded");
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
  vp_cover("array");
}
template <typename T> static void array2(long nmax) {
  const long n0 = vp_pick("rows", 0, nmax), n1 = vp_pick("columns", 0, nmax);
  il::Array2D<T> v{n0, n1};
  v.Reserve(n0 + vp_pick("spare rows", 0, 1 + kMore), n1 + vp_pick("spare columns", 0, 1));
  for (long j = 0; j < n1; ++j) for (long i = 0; i < n0; ++i) v(i, j) = Bits<T>::any();
  il::Status status{};
  il::save(v, file(), il::io, status);
  vp_assert(status.Ok(), "a matrix is not saved");
  const long k = header(Bits<T>::name(), 2, n0, n1);
  vp_assert(nraw - k == n0 * n1 * (long)sizeof(T), "length of the file");
  for (long j = 0; j < n1; ++j) for (long i = 0; i < n0; ++i) {
    T x;
    std::memcpy(&x, raw + k + (i + j * n0) * sizeof(T), sizeof(T));
    vp_assert(same(x, v(i, j)), "element in the file");
  }
  il::Status status2{};
  const il::Array2D<T> w = il::load<il::Array2D<T>>(file(), il::io, status2);
  vp_assert(status2.Ok() && w.size(0) == n0 && w.size(1) == n1, "a matrix that was saved is not loaded");
  for (long j = 0; j < n1; ++j) for (long i = 0; i < n0; ++i) vp_assert(same(w(i, j), v(i, j)), "element that was loaded");
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
  vp_cover("matrix");
}
VP_ENTRY(F01_array_int) { array1<int>(3 + kMore); }
VP_ENTRY(F01_array_integer) { array1<long>(3 + kMore); }
VP_ENTRY(F01_array_double) { array1<double>(3 + kMore); }
VP_ENTRY(F01_matrix_int) { array2<int>(3); }
VP_ENTRY(F01_matrix_double) { array2<double>(3); }
// Aligned matrices have space in between their columns
VP_ENTRY(F01_matrix_aligned) {
  const long n0 = vp_pick("rows", 1, 5), n1 = vp_pick("columns", 1, 2);
  il::Array2D<double> v{n0, n1, il::align, 32};
  for (long j = 0; j < n1; ++j) for (long i = 0; i < n0; ++i) v(i, j) = Bits<double>::any();
  il::Status status{};
  il::save(v, file(), il::io, status);
  vp_assert(status.Ok(), "a matrix is not saved");
  il::Status status2{};
  const il::Array2D<double> w = il::load<il::Array2D<double>>(file(), il::io, status2);
  vp_assert(status2.Ok() && w.size(0) == n0 && w.size(1) == n1, "a matrix that was saved is not loaded");
  for (long j = 0; j < n1; ++j) for (long i = 0; i < n0; ++i) vp_assert(same(w(i, j), v(i, j)), "element that was loaded");
  vp_cover("aligned");
}
// Files written by numpy
static void numpyFile(const char* dict, const void* data, long n) {
  static char f[512];
  long k = (long)std::strlen(dict);
  std::memcpy(f, "\x93NUMPY\x01\x00", 8);
  std::memcpy(f + 10, dict, k);
  while ((10 + k + 1) % 64 != 0) f[10 + k++] = ' ';
  f[10 + k++] = '\n';
  f[8] = (char)(k & 255);
  f[9] = (char)(k >> 8);
  std::memcpy(f + 10 + k, data, n);
  vp_file_put("a.npy", f, 10 + k + n);
}
VP_ENTRY(F01_numpy) {
  double x[12];
  for (long i = 0; i < 12; ++i) x[i] = Bits<double>::any();
  vp_file_readonly(1);
  il::Status status{};
  switch (vp_pick("file", 0, 4)) {
    case 0: {
      numpyFile(vp_flag("order") ? "{'descr': '<f8', 'fortran_order': False, 'shape': (3,), }" : "{'descr': '<f8', 'fortran_order': True, 'shape': (3,), }", x, 24);
      const il::Array<double> v = il::load<il::Array<double>>(file(), il::io, status);
      vp_assert(status.Ok() && v.size() == 3, "array of numpy");
      for (long i = 0; i < 3; ++i) vp_assert(same(v[i], x[i]), "element of numpy");
    } break;
    case 1: {
      numpyFile("{'descr': '<f8', 'fortran_order': True, 'shape': (3, 4), }", x, 96);
      const il::Array2D<double> A = il::load<il::Array2D<double>>(file(), il::io, status);
      vp_assert(status.Ok() && A.size(0) == 3 && A.size(1) == 4, "matrix of numpy");
      for (long j = 0; j < 4; ++j) for (long i = 0; i < 3; ++i) vp_assert(same(A(i, j), x[i + 3 * j]), "element of numpy");
    } break;
    case 2: {
      numpyFile("{'descr': '<f8', 'fortran_order': False, 'shape': (3, 4), }", x, 96);
      const il::Array2D<double> A = il::load<il::Array2D<double>>(file(), il::io, status);
      if (status.Ok()) {
        vp_assert(A.size(0) == 3 && A.size(1) == 4, "matrix of numpy");
        for (long j = 0; j < 4; ++j) for (long i = 0; i < 3; ++i) vp_assert(same(A(i, j), x[4 * i + j]), "element of numpy, by rows");
      }
    } break;
    case 3: {
      numpyFile("{'descr': '<f8', 'fortran_order': True, 'shape': (3, 4), }", x, 96);
      const il::Array<double> v = il::load<il::Array<double>>(file(), il::io, status);
      vp_assert(!status.Ok(), "a matrix is loaded as an array");
    } break;
    default: {
      numpyFile("{'descr': '<f8', 'fortran_order': False, 'shape': (12,), }", x, 96);
      if (vp_flag("type")) {
        const il::Array<int> v = il::load<il::Array<int>>(file(), il::io, status);
        vp_assert(!status.Ok(), "doubles are loaded as integers");
      } else {
        const il::Array2D<double> v = il::load<il::Array2D<double>>(file(), il::io, status);
        vp_assert(!status.Ok(), "an array is loaded as a matrix");
      }
    }
  }
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
  vp_cover("numpy");
}
VP_ENTRY(F01_full) {
  il::Array2D<double> A{2, 2, 1.0};
  A.Reserve(3, 2);
  const bool matrix = vp_flag("matrix");
  il::Array<double> v{3, 2.0};
  {
    il::Status status{};
    if (matrix) il::save(A, file(), il::io, status);
    else il::save(v, file(), il::io, status);
    vp_assert(status.Ok(), "an array is not saved");
  }
  const long n = vp_file_get("a.npy", raw, 1024);
  const long room = vp_pick("room", 0, n);
  vp_file_full(room, vp_flag("at close"));
  il::Status status{};
  if (matrix) il::save(A, file(), il::io, status);
  else il::save(v, file(), il::io, status);
  vp_assert(status.Ok() == (room == n), "an array that could not be saved");
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
  vp_cover("full");
}
