// Files read and written by pieces (il::File)
// vp: variants debug ndebug
// bound: files of 0 to 7 (+2 thorough) arbitrary bytes, buffers of 0 to 4 bytes, 3 operations: reads of 0 to 5 (6 thorough) bytes in objects of 1 to 3 (4 thorough) bytes, skips of 0 to 4 bytes; files written by 3 writes of 0 to 4 objects of 1 to 3 bytes, on disks that are full after 0 to 9 bytes
#include "vp.h"
#include <il/File.h>

#ifdef VP_DEEP
static const long kOps = 3, kMore = 2;
#else
static const long kOps = 3, kMore = 0;
#endif
static il::String name() { return il::String{"a.bin"}; }
static void close(il::File& file, bool expected = true) {
  il::Status status{};
  file.Close(il::io, status);
  vp_assert(status.Ok() == expected, "closing the file");
}
// A sequence of operations against the position in the file
static void history(bool templates) {
  unsigned char raw[16];
  const long n = vp_pick("file", 0, 7 + kMore);
  for (long i = 0; i < n; ++i) raw[i] = vp_u8("byte");
  vp_file_put("a.bin", raw, n);
  {
    const bool direct = vp_flag("no buffer");
    il::Status open_status{};
    il::File file = direct ? il::File{name(), il::FileMode::Read, il::io, open_status} : il::File{name(), il::FileMode::Read, vp_pick("buffer", 0, 4), il::io, open_status};
    vp_assert(open_status.Ok(), "opening the file");
    long pos = 0;
    bool fine = true;
    for (long o = 0; o < kOps && fine; ++o) {
      unsigned char got[16];
      std::memset(got, 0xEE, sizeof got);
      il::Status status{};
      long size = 0;
      const int what = vp_pick("what", 0, 2);
      if (what == 0) {
        const long nb = vp_pick("bytes", 0, 4);
        file.Skip((std::size_t)nb, il::io, status);
        // what happens at the end of the file is seen by the next read
        vp_assert(status.Ok() || pos + nb > n, "skip");
        pos += nb;
        continue;
      }
      if (templates) {
        switch (vp_pick("type", 0, 4)) {
          case 0: file.Read<0>(il::io, (int*)got, status); size = 0; break;
          case 1: file.Read<1>(il::io, got, status); size = 1; break;
          case 2: file.Read<1>(il::io, (int*)got, status); size = 4; break;
          case 3: file.Read<3>(il::io, (short*)got, status); size = 6; break;
          default: file.Read<2>(il::io, (char*)got, status); size = 2;
        }
      } else {
        const long nb = vp_pick("object", 1, kMore ? 4 : 3), k = vp_pick("objects", 0, (kMore ? 6 : 5) / nb);
        file.Read(k, (std::size_t)nb, il::io, got, status);
        size = k * nb;
      }
      fine = status.Ok();
      vp_assert(fine == (pos + size <= n || size == 0), "a read succeeds when the file contains its bytes");
      if (fine) {
        unsigned d = 0;
        for (long i = 0; i < size; ++i) d |= (unsigned)(got[i] ^ raw[pos + i]);
        vp_assert(d == 0, "bytes of the file");
        pos += size;
        vp_cover("read");
      } else {
        vp_cover("too short");
      }
      for (long i = size; i < 16; ++i) vp_assert(got[i] == 0xEE, "written past the objects");
    }
    close(file);
  }
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
  vp_assert(vp_live() == 0, "memory is not released");
}
VP_ENTRY(F05_read) { history(false); }
VP_ENTRY(F05_read_objects) { history(true); }

VP_ENTRY(F05_write) {
  unsigned char raw[40], got[64];
  long n = 0;
  const long room = vp_pick("room", -1, 9);
  const bool late = vp_flag("late");
  if (room >= 0) vp_file_full(room, late);
  bool lost = false, reported = false;
  {
    il::Status open_status{};
    il::File file{name(), il::FileMode::Write, il::io, open_status};
    vp_assert(open_status.Ok(), "opening the file");
    for (long o = 0; o < 3 && !reported; ++o) {
      const long nb = vp_pick("object", 1, 3), k = vp_pick("objects", 0, 4);
      for (long i = 0; i < nb * k; ++i) raw[n + i] = vp_u8("byte");
      il::Status status{};
      file.Write(raw + n, k, (std::size_t)nb, il::io, status);
      lost = lost || (room >= 0 && n + nb * k > room);
      n += nb * k;
      const bool ok = status.Ok();
      vp_assert(ok || lost, "write reports an error");
      reported = !ok;
    }
    il::Status status{};
    file.Close(il::io, status);
    const bool ok = status.Ok();
    vp_assert(ok || lost, "close reports an error");
    reported = reported || !ok;
  }
  vp_assert(reported == lost, "an incomplete file is reported");
  vp_assert(vp_file_open_handles() == 0, "the file is left open");
  vp_file_full(-1, 0);
  if (!lost) {
    const long m = vp_file_get("a.bin", got, 64);
    vp_assert(m == n, "size of the file");
    unsigned d = 0;
    for (long i = 0; i < n; ++i) d |= (unsigned)(got[i] ^ raw[i]);
    vp_assert(d == 0, "bytes of the file");
    vp_cover("written");
  } else {
    vp_cover("full");
  }
}
// A file that can not be opened is reported, and the object can be destroyed
VP_ENTRY(F05_no_file) {
  if (vp_flag("exists")) vp_file_put("a.bin", "x", 1);
  const bool write = vp_flag("write");
  vp_file_fail_open(1);
  {
    il::Status status{};
    il::File file{name(), write ? il::FileMode::Write : il::FileMode::Read, vp_pick("buffer", 0, 2), il::io, status};
    vp_assert(!status.Ok(), "a file that can not be opened");
  }
  vp_assert(vp_live() == 0, "memory is not released");
  vp_cover("reported");
}
