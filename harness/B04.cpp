// Array4D<T> (column-major) and Array4C<T> (row-major): value semantics against a reference box.
// vp: variants debug ndebug
// bound: every extent 0..2, then every operation with extents 0..2; with 0 or 1 spare in each direction from extents 0..1 (VP_DEEP: 0..2); any element values
// bound: a trivial element type (int) and one that owns memory and checks its own lifetime
#include <il/Array4D.h>
#include <il/Array4C.h>
#include "nd.h"
#ifdef VP_DEEP
static const long kHi = 2;
#else
static const long kHi = 1;
#endif

template <typename T_>
struct M4D : il::Array4D<T_> {
  using il::Array4D<T_>::Array4D;
  M4D() {}
  void Resize_(const long* n) { this->Resize(n[0], n[1], n[2], n[3]); }
  void Reserve_(const long* n) { this->Reserve(n[0], n[1], n[2], n[3]); }
};
template <typename T_>
struct Tr4D {
  typedef T_ T;
  typedef M4D<T_> A;
  static const int R = 4;
  static const bool column_major = true;
  static const T& at(const A& a, const Idx& k) { return a(k.i[0], k.i[1], k.i[2], k.i[3]); }
  static T& at(A& a, const Idx& k) { return a(k.i[0], k.i[1], k.i[2], k.i[3]); }
  static A make(const long* n) { return A(n[0], n[1], n[2], n[3]); }
  static A make(const long* n, const T& x) { return A(n[0], n[1], n[2], n[3], x); }
  static void extra(A& a, Box<4>& m, long hi) {

  }
};

template <typename T_>
struct M4C : il::Array4C<T_> {
  using il::Array4C<T_>::Array4C;
  M4C() {}
  void Resize_(const long* n) { this->Resize(n[0], n[1], n[2], n[3]); }
  void Reserve_(const long* n) { this->Reserve(n[0], n[1], n[2], n[3]); }
};
template <typename T_>
struct Tr4C {
  typedef T_ T;
  typedef M4C<T_> A;
  static const int R = 4;
  static const bool column_major = false;
  static const T& at(const A& a, const Idx& k) { return a(k.i[0], k.i[1], k.i[2], k.i[3]); }
  static T& at(A& a, const Idx& k) { return a(k.i[0], k.i[1], k.i[2], k.i[3]); }
  static A make(const long* n) { return A(n[0], n[1], n[2], n[3]); }
  static A make(const long* n, const T& x) { return A(n[0], n[1], n[2], n[3], x); }
  static void extra(A& a, Box<4>& m, long hi) {

  }
};

VP_ENTRY(B04_4D_int) { history<Tr4D<int>>(2, 2, 1, false); }
VP_ENTRY(B04_4D_obj) { history<Tr4D<VpObj>>(2, 2, 1, false); }
VP_ENTRY(B04_4C_int) { history<Tr4C<int>>(2, 2, 1, false); }
VP_ENTRY(B04_4C_obj) { history<Tr4C<VpObj>>(2, 2, 1, false); }
VP_ENTRY(B04_4D_spare) { history<Tr4D<VpObj>>(kHi, 2, 1, true); }
VP_ENTRY(B04_4C_spare) { history<Tr4C<VpObj>>(kHi, 2, 1, true); }
VP_ENTRY(B04_4D_spare_int) { history<Tr4D<int>>(kHi, 2, 1, true); }
VP_ENTRY(B04_4C_spare_int) { history<Tr4C<int>>(kHi, 2, 1, true); }
