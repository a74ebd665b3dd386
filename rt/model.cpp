// Bitcode models of the environment: C library, files, LAPACK/BLAS kernels and
// complex helpers.  They are linked under every harness and executed
// symbolically.  Each is a stub of a documented contract and is part of the
// claim (DESIGN.md, "Environment").
#include "vp.h"
#include <cstdio>

int VpObj::alive_ = 0;

extern "C" {

// ------------------------------------------------------------------ strings
size_t strlen(const char* s) {
  size_t n = 0;
  while (s[n]) ++n;
  return n;
}
int strcmp(const char* a, const char* b) {
  size_t i = 0;
  while (a[i] && a[i] == b[i]) ++i;
  return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
int strncmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    if (a[i] != b[i] || !a[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
  }
  return 0;
}
// branch-free over the contents: one term, no fork per byte
int memcmp(const void* a_, const void* b_, size_t n) {
  const unsigned char* a = (const unsigned char*)a_;
  const unsigned char* b = (const unsigned char*)b_;
  int r = 0;
  for (size_t k = n; k > 0; --k) {
    int d = (int)a[k - 1] - (int)b[k - 1];
    r = d != 0 ? d : r;
  }
  return r;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* memchr(const void* s, int c, size_t n) {
  const unsigned char* p = (const unsigned char*)s;
  for (size_t i = 0; i < n; ++i)
    if (p[i] == (unsigned char)c) return (void*)(p + i);
  return nullptr;
}
char* strchr(const char* s, int c) {
  for (;; ++s) {
    if (*s == (char)c) return (char*)s;
    if (!*s) return nullptr;
  }
}
char* strcpy(char* d, const char* s) {
  size_t i = 0;
  while ((d[i] = s[i])) ++i;
  return d;
}
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
// Functions the library does not call today, for changes that would.
size_t strnlen(const char* s, size_t m) {
  size_t n = 0;
  while (n < m && s[n]) ++n;
  return n;
}
char* strncpy(char* d, const char* s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; ++i) d[i] = s[i];
  for (; i < n; ++i) d[i] = 0;
  return d;
}
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) {
  char* e = d + strlen(d);
  size_t i = 0;
  for (; i < n && s[i]; ++i) e[i] = s[i];
  e[i] = 0;
  return d;
}
char* strrchr(const char* s, int c) {
  const char* r = nullptr;
  for (;; ++s) {
    if (*s == (char)c) r = s;
    if (!*s) return (char*)r;
  }
}
char* strstr(const char* a, const char* b) {
  for (;; ++a) {
    size_t i = 0;
    while (b[i] && a[i] == b[i]) ++i;
    if (!b[i]) return (char*)a;
    if (!*a) return nullptr;
  }
}
size_t strspn(const char* s, const char* set) {
  size_t n = 0;
  while (s[n] && strchr(set, s[n])) ++n;
  return n;
}
size_t strcspn(const char* s, const char* set) {
  size_t n = 0;
  while (s[n] && !strchr(set, s[n])) ++n;
  return n;
}
char* strpbrk(const char* s, const char* set) {
  s += strcspn(s, set);
  return *s ? (char*)s : nullptr;
}
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int isblank(int c) { return c == ' ' || c == '\t'; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static int v_errno;
int* __errno_location() { return &v_errno; }
// Integers in any base, with saturation
static unsigned long long vp_strtoint(const char* s, char** end, int base, bool isSigned) {
  const char* p = s;
  while (isspace((unsigned char)*p)) ++p;
  bool neg = false;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  const char* begin = p;
  unsigned long long v = 0;
  bool over = false;
  for (;; ++p) {
    const int c = (unsigned char)*p;
    const int d = isdigit(c) ? c - '0' : isalpha(c) ? tolower(c) - 'a' + 10 : 99;
    if (d >= base) break;
    unsigned long long w;
    over = __builtin_mul_overflow(v, (unsigned long long)base, &w) | over;
    over = __builtin_add_overflow(w, (unsigned long long)d, &v) | over;
  }
  if (end) *end = (char*)(p == begin ? s : p);
  if (isSigned) {
    const unsigned long long most = 0x7fffffffffffffffull + (neg ? 1 : 0);
    if (over || v > most) { v = most; v_errno = 34; }
  } else if (over) {
    v_errno = 34;
    return ~0ull;
  }
  return neg ? 0 - v : v;
}
long strtol(const char* s, char** e, int b) { return (long)vp_strtoint(s, e, b, true); }
long long strtoll(const char* s, char** e, int b) { return (long long)vp_strtoint(s, e, b, true); }
unsigned long strtoul(const char* s, char** e, int b) { return (unsigned long)vp_strtoint(s, e, b, false); }
unsigned long long strtoull(const char* s, char** e, int b) { return vp_strtoint(s, e, b, false); }
long __isoc23_strtol(const char* s, char** e, int b) { return (long)vp_strtoint(s, e, b, true); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return (long long)vp_strtoint(s, e, b, true); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return (unsigned long)vp_strtoint(s, e, b, false); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return vp_strtoint(s, e, b, false); }

long long atoll(const char* s) {
  while (isspace((unsigned char)*s)) ++s;
  bool neg = false;
  if (*s == '+' || *s == '-') { neg = *s == '-'; ++s; }
  unsigned long long v = 0;
  // the behaviour for values out of range is undefined in C; glibc saturates
  bool big = false;
  while (*s >= '0' && *s <= '9') {
    unsigned d = (unsigned)(*s - '0');
    if (v > (9223372036854775807ull - d) / 10) big = true;
    v = v * 10 + d;
    ++s;
  }
  if (big) return neg ? (-9223372036854775807ll - 1) : 9223372036854775807ll;
  return neg ? -(long long)v : (long long)v;
}
long atol(const char* s) { return atoll(s); }
int atoi(const char* s) { return (int)atoll(s); }

// Exact for at most 15 significant digits and |exponent| <= 22, which is what the
// harness bounds allow; anything else is outside the model and fails loudly.
int vp_all_concrete(const char* s);
double vp_host_atof(const char* s);
int64_t vp_host_atof_length(const char* s);
static double vp_parse_double(const char* s, const char** end) {
  if (vp_all_concrete(s)) {
    if (end) *end = s + vp_host_atof_length(s);
    return vp_host_atof(s);
  }
  const char* s0 = s;
  while (isspace((unsigned char)*s)) ++s;
  bool neg = false;
  if (*s == '+' || *s == '-') { neg = *s == '-'; ++s; }
  if ((s[0] | 32) == 'i' || (s[0] | 32) == 'n') {
    // inf / nan
    if ((s[0] | 32) == 'i' && (s[1] | 32) == 'n' && (s[2] | 32) == 'f') {
      if (end) *end = s + 3;
      return neg ? -__builtin_inf() : __builtin_inf();
    }
    if ((s[0] | 32) == 'n' && (s[1] | 32) == 'a' && (s[2] | 32) == 'n') {
      if (end) *end = s + 3;
      return __builtin_nan("");
    }
    if (end) *end = s0;
    return 0.0;
  }
  long m = 0;
  int digits = 0, frac = 0;
  while (*s >= '0' && *s <= '9') { m = m * 10 + (*s - '0'); ++digits; ++s; }
  if (*s == '.') {
    ++s;
    while (*s >= '0' && *s <= '9') { m = m * 10 + (*s - '0'); ++digits; ++frac; ++s; }
  }
  if (digits == 0) { if (end) *end = s0; return 0.0; }
  if (digits > 15) vp_fail("model: decimal number with more than 15 digits");
  int e = 0;
  if (*s == 'e' || *s == 'E') {
    const char* t = s + 1;
    bool en = false;
    if (*t == '+' || *t == '-') { en = *t == '-'; ++t; }
    if (*t >= '0' && *t <= '9') {
      while (*t >= '0' && *t <= '9') { e = e * 10 + (*t - '0'); ++t; if (e > 400) e = 400; }
      if (en) e = -e;
      s = t;
    }
  }
  if (end) *end = s;
  e -= frac;
  double x = (double)m;
  if (e != 0) {
    double p = 1.0;
    int k = e < 0 ? -e : e;
    if (k > 22) {
      // out of the exact range: only the class of the result is modelled
      if (e > 0 && m != 0 && k > 308) x = __builtin_inf();
      else if (e < 0 && k > 360) x = 0.0;
      else { for (int i = 0; i < k; ++i) p *= 10.0; x = e > 0 ? x * p : x / p; }
    } else {
      for (int i = 0; i < k; ++i) p *= 10.0;
      x = e > 0 ? x * p : x / p;
    }
  }
  return neg ? -x : x;
}
double atof(const char* s) { return vp_parse_double(s, nullptr); }
double strtod(const char* s, char** end) {
  const char* e;
  double r = vp_parse_double(s, &e);
  if (end) *end = (char*)e;
  return r;
}

int vp_model_i64toa(char* out, int64_t v) {
  char tmp[24];
  int n = 0;
  uint64_t u = v < 0 ? (uint64_t)0 - (uint64_t)v : (uint64_t)v;
  do { tmp[n++] = (char)('0' + (int)(u % 10)); u /= 10; } while (u);
  int k = 0;
  if (v < 0) out[k++] = '-';
  while (n > 0) out[k++] = tmp[--n];
  out[k] = 0;
  return k;
}

int vp_model_fput_i64(FILE* p, int64_t v) {
  char tmp[24];
  const int m = vp_model_i64toa(tmp, v);
  return fputs(tmp, p) < 0 ? -1 : m;
}
int vp_model_fput_packed(FILE* p, uint64_t n, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t e, uint64_t f, uint64_t g, uint64_t h) {
  const uint64_t w[8] = {a, b, c, d, e, f, g, h};
  int r = (int)n;
  for (uint64_t i = 0; i < n; ++i)
    if (fputc((int)(w[i / 8] >> (8 * (i % 8)) & 255), p) < 0) r = -1;
  return r;
}
int vp_model_i64toan(char* out, uint64_t n, int64_t v) {
  char tmp[24];
  const int m = vp_model_i64toa(tmp, v);
  for (uint64_t i = 0; i + 1 < n && (int64_t)i < m; ++i) out[i] = tmp[i];
  if (n > 0) out[n - 1 < (uint64_t)m ? n - 1 : (uint64_t)m] = 0;
  return m;
}

// -------------------------------------------------------------------- files
struct VFile {  // content of a file
  char name[64];
  unsigned char* data;
  int64_t size, cap;
  bool used;
};
struct VHandle {
  VFile* f;
  int64_t pos;
  bool read, write, eof, err;
};
static VFile vfs[4];
static int v_fail_open = 0, v_readonly = 0, v_fail_at_close = 0;
static int64_t v_room = -1;
static int64_t v_handles = 0;
static VFile* vfind(const char* name) {
  for (int i = 0; i < 4; ++i)
    if (vfs[i].used && strcmp(vfs[i].name, name) == 0) return &vfs[i];
  return nullptr;
}
static unsigned char v_store[4][2048];
static VFile* vnew(const char* name) {
  for (int i = 0; i < 4; ++i)
    if (!vfs[i].used) {
      vfs[i].used = true;
      strcpy(vfs[i].name, name);
      vfs[i].data = v_store[i];
      vfs[i].cap = 2048;
      vfs[i].size = 0;
      return &vfs[i];
    }
  vp_fail("model: too many files");
  return nullptr;
}
void vp_file_put(const char* name, const void* data, int64_t n) {
  VFile* f = vfind(name);
  if (!f) f = vnew(name);
  if (n > f->cap) vp_fail("model: file too large");
  __builtin_memcpy(f->data, data, (size_t)n);
  f->size = n;
}
int64_t vp_file_get(const char* name, void* data, int64_t cap) {
  VFile* f = vfind(name);
  if (!f) return -1;
  if (f->size > cap) vp_fail("model: file larger than the buffer");
  __builtin_memcpy(data, f->data, (size_t)f->size);
  return f->size;
}
void vp_file_fail_open(int flag) { v_fail_open = flag; }
void vp_file_readonly(int flag) { v_readonly = flag; }
void vp_file_full(int64_t room, int at_close) { v_room = room; v_fail_at_close = at_close; }
int64_t vp_file_open_handles() { return v_handles; }
void* malloc(size_t);
void free(void*);

FILE* fopen(const char* name, const char* mode) {
  if (v_fail_open) return nullptr;
  VFile* f = vfind(name);
  bool w = mode[0] == 'w', a = mode[0] == 'a', plus = strchr(mode, '+') != nullptr;
  if (f && v_readonly && (w || a || plus)) return nullptr;
  if (!w && !a && mode[0] != 'r') vp_fail("model: fopen mode");
  if (!f) {
    if (!w && !a) return nullptr;
    f = vnew(name);
  }
  if (w) f->size = 0;
  VHandle* h = (VHandle*)malloc(sizeof(VHandle));
  h->f = f;
  h->pos = a ? f->size : 0;
  h->read = mode[0] == 'r' || plus;
  h->write = w || a || plus;
  h->eof = false;
  h->err = false;
  ++v_handles;
  return (FILE*)h;
}
int fclose(FILE* p) {
  if (!p) vp_fail("fclose of a null file");
  --v_handles;
  const bool lost = ((VHandle*)p)->err && v_fail_at_close;
  free(p);
  return lost ? -1 : 0;
}
// false: the file system is full; the error comes now or when the file is closed
static bool vwrite(VHandle* h, const unsigned char* s, int64_t n) {
  if (!h->write) vp_fail("write to a file opened for reading");
  if (v_room >= 0 && h->pos + n > v_room) {
    h->err = true;
    return v_fail_at_close != 0;
  }
  if (h->pos + n > h->f->cap) vp_fail("model: file too large");
  __builtin_memcpy(h->f->data + h->pos, s, (size_t)n);
  h->pos += n;
  if (h->pos > h->f->size) h->f->size = h->pos;
  return true;
}
size_t fwrite(const void* s, size_t size, size_t n, FILE* p) {
  return vwrite((VHandle*)p, (const unsigned char*)s, (int64_t)(size * n)) ? n : 0;
}
size_t fread(void* s, size_t size, size_t n, FILE* p) {
  VHandle* h = (VHandle*)p;
  if (!h->read) vp_fail("read of a file opened for writing");
  if (size == 0 || n == 0) return 0;
  int64_t left = h->f->size - h->pos;
  int64_t want = (int64_t)(size * n);
  if (left < 0) left = 0;
  int64_t k = want < left ? want : left;
  if (k < want) h->eof = true;
  if (k > 0) __builtin_memcpy(s, h->f->data + h->pos, (size_t)k);
  h->pos += k;
  return (size_t)k / size;
}
char* fgets(char* s, int n, FILE* p) {
  VHandle* h = (VHandle*)p;
  if (!h->read) vp_fail("read of a file opened for writing");
  if (n <= 0) return nullptr;
  int k = 0;
  while (k < n - 1) {
    if (h->pos >= h->f->size) { h->eof = true; break; }
    char c = (char)h->f->data[h->pos++];
    s[k++] = c;
    if (c == '\n') break;
  }
  if (k == 0 && n > 1) return nullptr;
  s[k] = 0;
  return s;
}
int fgetc(FILE* p) {
  VHandle* h = (VHandle*)p;
  if (h->pos >= h->f->size) { h->eof = true; return -1; }
  return h->f->data[h->pos++];
}
int fputs(const char* s, FILE* p) {
  return vwrite((VHandle*)p, (const unsigned char*)s, (int64_t)strlen(s)) ? 1 : -1;
}
int fputc(int c, FILE* p) {
  unsigned char b = (unsigned char)c;
  return vwrite((VHandle*)p, &b, 1) ? (int)b : -1;
}
int getc(FILE* p) { return fgetc(p); }
int putc(int c, FILE* p) { return fputc(c, p); }
int fseek(FILE* p, long off, int whence) {
  VHandle* h = (VHandle*)p;
  int64_t q = whence == SEEK_SET ? off : whence == SEEK_CUR ? h->pos + off : h->f->size + off;
  if (q < 0) return -1;
  h->pos = q;
  h->eof = false;
  return 0;
}
long ftell(FILE* p) { return ((VHandle*)p)->pos; }
int feof(FILE* p) { return ((VHandle*)p)->eof; }
int ferror(FILE* p) { return ((VHandle*)p)->err && !v_fail_at_close; }
void clearerr(FILE* p) { ((VHandle*)p)->err = false; ((VHandle*)p)->eof = false; }
void rewind(FILE* p) { ((VHandle*)p)->pos = 0; ((VHandle*)p)->eof = false; }
int fflush(FILE*) { return 0; }

// ------------------------------------------------------------------ complex
double _Complex __muldc3(double a, double b, double c, double d) {
  double _Complex z;
  __real__ z = a * c - b * d;
  __imag__ z = a * d + b * c;
  return z;
}
float _Complex __mulsc3(float a, float b, float c, float d) {
  float _Complex z;
  __real__ z = a * c - b * d;
  __imag__ z = a * d + b * c;
  return z;
}
}  // extern "C"
