// Loading .npy files of any content.
// vp: variants debug ndebug
// vp: src il/io/numpy/numpy.cpp
// bound: files of 0 to 9 arbitrary bytes; the magic string followed by 2 arbitrary bytes, 13 lengths of the header and headers of 0 to 4 arbitrary bytes; the headers of numpy with up to 3 (4 thorough) arbitrary bytes at 30 places: in the type, the order, the shape and the quotes, cut at any length, with 0 to 40 bytes of data; shapes made of digits, commas, blanks and signs of any size
#include "vp.h"
#include <il/numpy.h>
#include <cstring>

#ifdef VP_DEEP
static const long kMore = 1;
#else
static const long kMore = 0;
#endif
static const il::String& file() { static const il::String f{"a.npy"}; return f; }
static unsigned char raw[600];
static long nraw;
static bool loaded;

// Every way to load the file
static void load(int how = -1) {
  vp_file_put("a.npy", raw, nraw);
  {
    il::Status status{};
    long n = -1;
    switch (how >= 0 ? how : vp_pick("as", 0, 2)) {
      case 0: {
        const il::Array<double> v = il::load<il::Array<double>>(file(), il::io, status);
        n = 8 * v.size();
        for (long i = 0; i < v.size(); ++i) vp_assert(vp_is_init(v.data() + i, 8), "element that was not read");
      } break;
      case 1: {
        const il::Array<int> v = il::load<il::Array<int>>(file(), il::io, status);
        n = 4 * v.size();
        for (long i = 0; i < v.size(); ++i) vp_assert(vp_is_init(v.data() + i, 4), "element that was not read");
      } break;
      default: {
        const il::Array2D<double> A = il::load<il::Array2D<double>>(file(), il::io, status);
        n = 8 * A.size(0) * A.size(1);
        for (long j = 0; j < A.size(1) && A.size(0) > 0; ++j) for (long i = 0; i < A.size(0); ++i) vp_assert(vp_is_init(&A(i, j), 8), "element that was not read");
      }
    }
    vp_assert(vp_file_open_handles() == 0, "the file is left open");
    if (status.Ok()) {
      vp_assert(n >= 0 && n <= nraw, "more elements than the file contains");
      loaded = true;
    } else {
      loaded = false;
    }
  }
  vp_assert(vp_live() == 0, "memory is not released");
}
static void prefix() { std::memcpy(raw, "\x93NUMPY\x01\x00", 8); nraw = 10; }
static void length(long k) { raw[8] = (unsigned char)(k & 255); raw[9] = (unsigned char)(k >> 8); }
static void append(const char* s) { while (*s) raw[nraw++] = (unsigned char)*s++; }
static void data(long n) { for (long i = 0; i < n; ++i) raw[nraw++] = (unsigned char)(i + 1); }

VP_ENTRY(F02_start) {
  nraw = vp_pick("length", 0, 9);
  for (long i = 0; i < nraw; ++i) raw[i] = vp_u8("byte");
  load();
  vp_assert(!loaded, "a file without a header was loaded");
  vp_cover("error");
}
VP_ENTRY(F02_length) {
  prefix();
  for (long i = 6; i < 8; ++i) raw[i] = vp_u8("byte");
  static const long announced[] = {0, 1, 2, 3, 4, 5, 127, 128, 255, 256, 32767, 32768, 65535};
  length(announced[vp_pick("announced", 0, 12)]);
  const long n = vp_pick("header", 0, 4);
  for (long i = 0; i < n; ++i) raw[nraw++] = vp_u8("byte");
  load();
  vp_assert(!loaded, "a file without a header was loaded");
  vp_cover("error");
}
static void numpy(const char* dict) {
  prefix();
  append(dict);
  raw[nraw++] = '\n';
  length(nraw - 10);
}
// arbitrary bytes inside of a header of numpy
VP_ENTRY(F02_bytes) {
  static const char* const dict[] = {"{'descr': '<f8', 'fortran_order': True, 'shape': (2,), }", "{'descr': '<f8', 'fortran_order': True, 'shape': (2, 1), }", "{'descr': '<i4', 'fortran_order': False, 'shape': (3), }"};
  numpy(dict[vp_pick("dict", 0, 2)]);
  const long hn = nraw;
  const long at = vp_pick("at", 0, (hn - 10 + 1) / 2 - 1) * 2 + 10;
  for (long i = at; i < at + 2 + kMore && i < hn; ++i) raw[i] = vp_u8("byte");
  data(16);
  load();
  if (loaded) vp_cover("loaded"); else vp_cover("error");
}
VP_ENTRY(F02_shape) {
  prefix();
  append("{'descr': '<f8', 'fortran_order': True, 'shape': (");
  const long n = vp_pick("shape", 0, 3 + kMore);
  for (long i = 0; i < n; ++i) raw[nraw++] = vp_u8("byte");
  append("), }\n");
  length(nraw - 10);
  data(vp_pick("data", 0, 2) * 12);
  load();
  if (loaded) vp_cover("loaded"); else vp_cover("error");
}
VP_ENTRY(F02_type) {
  prefix();
  append("{'descr': '");
  const long n = vp_pick("type", 0, 3);
  for (long i = 0; i < n; ++i) raw[nraw++] = vp_u8("byte");
  append("', 'fortran_order': True, 'shape': (1,), }\n");
  length(nraw - 10);
  data(8);
  load();
  if (loaded) vp_cover("loaded"); else vp_cover("error");
}
// large numbers
VP_ENTRY(F02_large) {
  static const char* const shape[] = {"9223372036854775807,", "9223372036854775808,", "99999999999999999999999999,", "-1,", "2305843009213693952,", "4611686018427387904, 4", "4294967296, 4294967296", "3037000500, 3037000500", "-1, -1", "0, 9223372036854775807",
                                      "9223372036854775807, 0", "0, 1152921504606846976", "0, 0", "0, 5", "5, 0", "1, 2305843009213693952", "1, 1, 1", "3,", "1.5,", "0x1,", "1e3,", "2,,", ",", ", 2", "2 2", "+2,"};
  prefix();
  append("{'descr': '<f8', 'fortran_order': True, 'shape': (");
  append(shape[vp_pick("shape", 0, sizeof shape / sizeof shape[0] - 1)]);
  append("), }\n");
  length(nraw - 10);
  data(vp_pick("data", 0, 2) * 12);
  load();
  if (loaded) vp_cover("loaded"); else vp_cover("error");
}
// known finding: a matrix without elements allocates memory for the size that is not null
VP_ENTRY(F02_large_empty) {
  prefix();
  append("{'descr': '<f8', 'fortran_order': True, 'shape': (");
  append(vp_flag("first") ? "1152921504606846975, 0" : "0, 1152921504606846975");
  append("), }\n");
  length(nraw - 10);
  load(2);
}
// files that are cut
VP_ENTRY(F02_cut) {
  numpy(vp_flag("matrix") ? "{'descr': '<f8', 'fortran_order': True, 'shape': (2, 1), }" : "{'descr': '<f8', 'fortran_order': True, 'shape': (2,), }");
  data(16);
  nraw = vp_pick("length", 0, nraw);
  load();
  if (loaded) vp_cover("loaded"); else vp_cover("error");
}
// a header with another length than the one that is announced
VP_ENTRY(F02_announced) {
  numpy("{'descr': '<f8', 'fortran_order': True, 'shape': (2,), }");
  data(16);
  length(vp_pick("announced", 0, 80));
  load();
  if (loaded) vp_cover("loaded"); else vp_cover("error");
}
VP_ENTRY(F02_no_file) {
  il::Status status{};
  const il::Array<double> v = il::load<il::Array<double>>(il::String{"none.npy"}, il::io, status);
  vp_assert(!status.Ok() && v.size() == 0, "a file that does not exist was loaded");
  vp_file_fail_open(1);
  il::Status status2{};
  il::save(v, il::String{"b.npy"}, il::io, status2);
  vp_assert(!status2.Ok(), "saved in a file that can not be opened");
  vp_cover("no file");
}
// a sparse matrix, in three files
typedef il::SparseMatrixCSR<il::int_t, double> Csr;
VP_ENTRY(F02_sparse) {
  const long n = vp_pick("rows", 0, 2), nnz = vp_pick("entries", 0, 2), ne = nnz + vp_pick("elements", 0, 1) * (nnz == 1);
  il::Array<il::int_t> row{n + 1}, column{nnz};
  il::Array<double> element{ne, 0.5};
  for (long i = 0; i <= n; ++i) row[i] = vp_int("row", -1, 3);
  for (long k = 0; k < nnz; ++k) column[k] = vp_int("column", -1, 2);
  const bool missing = vp_flag("missing");
  il::Status status{};
  il::SaveHelper<il::Array<il::int_t>>::save(row, il::String{"m.npy.row"}, il::io, status);
  status.AbortOnError();
  if (!missing) {
    il::SaveHelper<il::Array<il::int_t>>::save(column, il::String{"m.npy.column"}, il::io, status);
    status.AbortOnError();
  }
  il::SaveHelper<il::Array<double>>::save(element, il::String{"m.npy.element"}, il::io, status);
  status.AbortOnError();
  bool valid = !missing && ne == nnz && row[0] == 0 && row[n] == nnz;
  for (long i = 0; i < n; ++i) valid = valid & (row[i] <= row[i + 1]);
  for (long k = 0; k < nnz; ++k) valid = valid & (column[k] >= 0) & (column[k] < n);
  il::Status load_status{};
  const Csr A = il::load<Csr>(il::String{"m.npy"}, il::io, load_status);
  const bool ok = load_status.Ok();
  vp_assert(ok == valid, "sparse matrix");
  if (ok) {
    vp_assert(A.size(0) == n && A.size(1) == n && A.nbNonZeros() == nnz, "size of a sparse matrix");
    vp_cover("sparse");
  } else {
    vp_cover("not a sparse matrix");
  }
}
