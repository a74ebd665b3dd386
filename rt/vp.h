// Harness API of the symbolic engine (engine/main.cpp) and of the native
// replay runtime (native.cpp).  A harness is an ordinary C++ function that uses
// the real headers of /repo; every vp_* value is a symbolic variable when the
// engine runs it, and a value of the counterexample when it is replayed.
#ifndef VP_H
#define VP_H
#include <cstddef>
#include <cstdint>

extern "C" {
uint64_t vp_sym(const char* name, int bits, int ranged, int64_t lo, int64_t hi);
void vp_assume_(int c);
void vp_assert_(int c, const char* msg);
void vp_cover_(const char* label);
int64_t vp_concretize(int64_t v);
void vp_abort_ok_(int c);
int64_t vp_live();
void vp_allow_leak();
void vp_fail(const char* msg);
void vp_malloc_skew(int64_t n);
int64_t vp_heap_size(const void* p);
int64_t vp_bytes_left(const void* p);
void vp_note(const char* name, uint64_t v);
void vp_sym_malloc(int flag);
int64_t vp_last_malloc();
int vp_is_init(const void* p, int64_t n);
void vp_need(const void* p, int64_t n);  // these bytes have to be initialised
void vp_make_uninit(void* p, int64_t n);
int vp_native();
int vp_valid(int c);
void vp_malloc_cap(int64_t n);
// files: an in-memory model under the engine, scratch files in a replay
void vp_file_put(const char* name, const void* data, int64_t n);
int64_t vp_file_get(const char* name, void* data, int64_t cap);  // -1: absent
void vp_file_fail_open(int flag);   // every following fopen fails
int64_t vp_file_open_handles();
void vp_file_readonly(int flag);    // existing files can not be opened for writing
void vp_file_full(int64_t room, int at_close);  // no byte beyond room can be written (-1: no limit)
}

// The result is used by value, as an int: a condition is never turned into a
// branch of the harness by these macros.
#define vp_assert(c, msg) vp_assert_((int)(bool)(c), msg)
#define vp_assume(c) vp_assume_((int)(bool)(c))
#define vp_cover(label) vp_cover_(label)
#define vp_abort_ok(c) vp_abort_ok_((int)(bool)(c))

// A symbolic integer in [lo, hi]
static inline long vp_int(const char* name, long lo, long hi) {
  return (long)vp_sym(name, 64, 1, lo, hi);
}
// The same, one path per value
static inline long vp_pick(const char* name, long lo, long hi) {
  return (long)vp_concretize((int64_t)vp_sym(name, 64, 1, lo, hi));
}
static inline bool vp_flag(const char* name) { return vp_pick(name, 0, 1) != 0; }
static inline bool vp_bool(const char* name) { return vp_int(name, 0, 1) != 0; }
static inline unsigned char vp_u8(const char* name) {
  return (unsigned char)vp_sym(name, 8, 0, 0, 0);
}
static inline uint32_t vp_u32(const char* name) {
  return (uint32_t)vp_sym(name, 32, 0, 0, 0);
}
static inline uint64_t vp_u64(const char* name) {
  return (uint64_t)vp_sym(name, 64, 0, 0, 0);
}
static inline long vp_i64(const char* name) { return (long)vp_u64(name); }
static inline int vp_i32(const char* name) { return (int)vp_u32(name); }
// Any double (bit pattern)
static inline double vp_double(const char* name) {
  uint64_t b = vp_u64(name);
  double d;
  __builtin_memcpy(&d, &b, 8);
  return d;
}
// A double that holds an integer: decided exactly by integer reasoning
static inline double vp_dint(const char* name, long lo, long hi) {
  return (double)vp_int(name, lo, hi);
}

#define VP_ENTRY(name) extern "C" void name()

// ---------------------------------------------------------------------------
// An element type with an identity: it owns heap memory, knows its own address
// and whether it is alive.  Element copied bit by bit, destroyed twice, assigned
// to before being constructed, or never destroyed are all violations.
struct VpObj {
  int* p_;
  const VpObj* self_;
  static int alive_;

  VpObj() : p_{new int{-7}}, self_{this} { ++alive_; }
  VpObj(int v) : p_{new int{v}}, self_{this} { ++alive_; }
  VpObj(const VpObj& o) : p_{new int{o.value()}}, self_{this} { ++alive_; }
  VpObj(VpObj&& o) : p_{o.p_}, self_{this} {
    o.check();
    o.p_ = nullptr;
    ++alive_;
  }
  VpObj& operator=(const VpObj& o) {
    check();
    o.check();
    if (this != &o) {
      int v = o.value();
      delete p_;
      p_ = new int{v};
    }
    return *this;
  }
  VpObj& operator=(VpObj&& o) {
    check();
    o.check();
    if (this != &o) {
      delete p_;
      p_ = o.p_;
      o.p_ = nullptr;
    }
    return *this;
  }
  ~VpObj() {
    check();
    delete p_;
    self_ = nullptr;
    --alive_;
  }
  void check() const {
    if (self_ != this) vp_fail("element used while not constructed at this address");
  }
  int value() const {
    check();
    if (!p_) vp_fail("value of a moved-from element used");
    return *p_;
  }
};
inline bool operator==(const VpObj& a, const VpObj& b) { return a.value() == b.value(); }

#endif
