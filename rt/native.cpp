// Native replay runtime: runs one harness entry on the values of a
// counterexample, compiled with the real toolchain and sanitizers.
//   prog ENTRY VALUES-FILE
// Files are created in the current directory (a scratch directory of the driver).
// exit 0: nothing wrong; 42 assertion; 43 unexpected abort; 44 leak;
// sanitizer errors exit with 45 (ASAN_OPTIONS/UBSAN_OPTIONS exitcode).
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/resource.h>
#if defined(__has_include)
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#define HAVE_VG 1
#endif
#endif

int VpObj::alive_ = 0;

static uint64_t vals[100000];
static size_t nvals = 0, ival = 0;
static volatile int abort_ok = 0;
static int allow_leak = 0, dump = 0;
static int64_t skew = 0, cap = (int64_t)64 << 20;
static int fail_open = 0;
static int64_t live_objs = 0;
static int counting = 0;

static void say(const char* a, const char* b) {
  (void)!write(1, a, strlen(a));
  (void)!write(1, b, strlen(b));
  (void)!write(1, "\n", 1);
}
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
static struct { void* p; void* base; size_t n; } tab[65536];
static int ntab = 0;
static void* reg(void* q, void* base, size_t n) {
  ++live_objs;
  for (int i = 0; i < ntab; ++i) if (!tab[i].p) { tab[i] = {q, base, n}; return q; }
  if (ntab < 65536) tab[ntab++] = {q, base, n};
  return q;
}
void* __wrap_malloc(size_t n) {
  if (!counting) return __real_malloc(n);
  if (n > (size_t)cap) { say("VP-ABORT allocation too large", ""); _exit(abort_ok ? 0 : 43); }
  if (skew) {
    // malloc gives 16-byte aligned blocks; the skew shifts that by a multiple of 16
    char* b = (char*)aligned_alloc(4096, (n + skew + 8191) / 4096 * 4096);
    return reg(b + skew, b, n);
  }
  void* p = __real_malloc(n);
  return reg(p, p, n);
}
void* __wrap_calloc(size_t a, size_t b) {
  if (!counting) return __real_calloc(a, b);
  void* p = __real_calloc(a, b);
  return reg(p, p, a * b);
}
void __wrap_free(void* p) {
  if (p && counting) {
    for (int i = 0; i < ntab; ++i)
      if (tab[i].p == p) { --live_objs; void* b = tab[i].base; tab[i].p = nullptr; __real_free(b); return; }
  }
  __real_free(p);
}
void* __wrap_realloc(void* p, size_t n) {
  if (!counting) return __real_realloc(p, n);
  if (n > (size_t)cap) { say("VP-ABORT allocation too large", ""); _exit(abort_ok ? 0 : 43); }
  void* q = __real_malloc(n);
  size_t old = 0;
  for (int i = 0; i < ntab; ++i) if (p && tab[i].p == p) old = tab[i].n;
  if (p) { memcpy(q, p, old < n ? old : n); __wrap_free(p); }
  return reg(q, q, n);
}

FILE* __real_fopen(const char*, const char*);
int __real_fclose(FILE*);
static int64_t handles = 0;
static int readonly_ = 0, unbuffered = 0;
FILE* __wrap_fopen(const char* n, const char* m) {
  if (fail_open) return nullptr;
  if (readonly_ && (m[0] != 'r' || strchr(m, '+')) && access(n, F_OK) == 0) return nullptr;
  FILE* f = __real_fopen(n, m);
  if (f && unbuffered) setvbuf(f, nullptr, _IONBF, 0);
  if (f && counting) ++handles;
  return f;
}
int __wrap_fclose(FILE* f) {
  if (counting) --handles;
  return __real_fclose(f);
}

uint64_t vp_sym(const char* name, int, int ranged, int64_t lo, int64_t hi) {
  uint64_t v;
  if (ival < nvals) v = vals[ival++];
  else v = ranged ? (uint64_t)lo : 0;
  if (dump) { char b[128]; snprintf(b, sizeof b, "%s=%ld", name, (long)v); say("VP-INPUT ", b); }
  (void)hi;
  return v;
}
void vp_need(const void* p, int64_t n) {
  static volatile int sink;
  for (int64_t i = 0; i < n; ++i) if (((const volatile unsigned char*)p)[i] == 0x5a) sink = 1;
}
void vp_assume_(int c) { if (!c) { say("VP-ASSUME violated", ""); _exit(0); } }
void vp_assert_(int c, const char* m) { if (!c) { say("VP-ASSERT ", m); _exit(42); } }
void vp_fail(const char* m) { say("VP-ASSERT ", m); _exit(42); }
void vp_cover_(const char*) {}
int64_t vp_concretize(int64_t v) { return v; }
void vp_abort_ok_(int c) { abort_ok = c; }
int64_t vp_live() { return live_objs; }
void vp_allow_leak() { allow_leak = 1; }
void vp_malloc_skew(int64_t n) { skew = n; }
int64_t vp_heap_size(const void* p) {
  for (int i = 0; i < ntab; ++i) if (tab[i].p == p) return (int64_t)tab[i].n;
  return -1;
}
int64_t vp_bytes_left(const void* p) {
  for (int i = 0; i < ntab; ++i)
    if (tab[i].p && (char*)tab[i].p <= (const char*)p && (const char*)p <= (char*)tab[i].p + tab[i].n)
      return (char*)tab[i].p + tab[i].n - (const char*)p;
  return 0;
}
void vp_note(const char* n, uint64_t v) { char b[128]; snprintf(b, sizeof b, "%s=%ld", n, (long)v); say("VP-NOTE ", b); }
void vp_sym_malloc(int) {}
int64_t vp_last_malloc() { return -1; }
int vp_is_init(const void* p, int64_t n) {
#ifdef HAVE_VG
  if (RUNNING_ON_VALGRIND) return VALGRIND_CHECK_MEM_IS_DEFINED(p, n) == 0;
#endif
  (void)p; (void)n;
  return 1;
}
void vp_make_uninit(void* p, int64_t n) {
#ifdef HAVE_VG
  VALGRIND_MAKE_MEM_UNDEFINED(p, n);
#endif
  memset(p, 0xCB, (size_t)n);
}
int vp_native() { return 1; }
int vp_valid(int) { return (int)vp_sym("valid", 64, 0, 0, 0); }
void vp_malloc_cap(int64_t n) { cap = n; }
void vp_file_put(const char* name, const void* data, int64_t n) {
  int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  const char* p = (const char*)data;
  while (n > 0) { ssize_t k = write(fd, p, (size_t)n); if (k <= 0) break; p += k; n -= k; }
  close(fd);
}
int64_t vp_file_get(const char* name, void* data, int64_t cp) {
  int fd = open(name, O_RDONLY);
  if (fd < 0) return -1;
  int64_t n = read(fd, data, (size_t)cp);
  close(fd);
  return n;
}
void vp_file_fail_open(int f) { fail_open = f; }
void vp_file_readonly(int f) { readonly_ = f; }
void vp_file_full(int64_t room, int at_close) {
  rlimit r{};
  r.rlim_cur = room < 0 ? RLIM_INFINITY : (rlim_t)room;
  r.rlim_max = RLIM_INFINITY;
  signal(SIGXFSZ, SIG_IGN);
  setrlimit(RLIMIT_FSIZE, &r);
  unbuffered = room >= 0 && !at_close;
}
int64_t vp_file_open_handles() { return handles; }
}

static void onabrt(int) {
  if (abort_ok) _exit(0);
  say("VP-ABORT unexpected abort", "");
  _exit(43);
}

int main(int argc, char** argv) {
  if (argc < 3) return 99;
  FILE* f = __real_fopen(argv[2], "r");
  if (f) {
    unsigned long long v;
    while (nvals < 100000 && fscanf(f, "%llu", &v) == 1) vals[nvals++] = v;
    __real_fclose(f);
  }
  dump = getenv("VP_DUMP") != nullptr;
  void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!e) { say("no entry ", argv[1]); return 97; }
  signal(SIGABRT, onabrt);
  signal(SIGALRM, [](int) { say("VP-HANG", ""); _exit(46); });
  alarm(20);
  counting = 1;
  e();
  counting = 0;
  if (handles != 0) { say("VP-LEAK file left open", ""); _exit(44); }
  if (!allow_leak && (live_objs != 0 || VpObj::alive_ != 0)) { say("VP-LEAK memory or elements left", ""); _exit(44); }
  say("VP-OK", "");
  _exit(0);
}
