// Deque: a double-ended queue of fixed capacity.
// vp: variants debug ndebug
// bound: capacities 1..4 (5 with VP_DEEP), every sequence of 8 pushes, pops and changes at either end (9 with VP_DEEP), and one push too many; values any 32-bit integer; a trivial and a resource-owning element type
#include <il/Deque.h>
#include "vp.h"
static int val(const int& x) { return x; }
static int val(const VpObj& x) { return x.value(); }
#ifdef VP_DEEP
static const int kCap = 5, kSteps = 9;
#else
static const int kCap = 4, kSteps = 8;
#endif
template <typename T> static void history() {
  {
    const long c = vp_pick("capacity", 1, kCap);
    il::Deque<T> a{};
    if (vp_flag("reserve")) a.Reserve(c); else a = il::Deque<T>{c};
    vp_assert(a.capacity() == c && a.size() == 0, "a new deque");
    int m[32];
    int lo = 16, hi = 16;  // [lo, hi)
    for (int s = 0; s < kSteps; ++s) {
      const int op = (int)vp_pick("op", 0, 3);
      if (op < 2) {
        const int x = vp_i32("x");
        const T t(x);
        const bool full = hi - lo == c;
        vp_abort_ok(full);
        // the overloads alternate with the step
        if (op == 0) { if (s & 1) a.PushFront(il::emplace, x); else a.PushFront(t); m[--lo] = x; }
        else { if (s & 1) a.PushBack(il::emplace, x); else a.PushBack(t); m[hi++] = x; }
        vp_assert(!full, "a push on a full deque is accepted");
      } else {
        vp_assume(hi > lo);
        if (op == 2) { a.PopFront(); ++lo; } else { a.PopBack(); --hi; }
      }
      vp_assert(a.size() == hi - lo && a.capacity() == c, "size");
      if (hi > lo) {
        const il::Deque<T>& k = a;
        vp_assert(val(k.front()) == m[lo] && val(a.Front()) == m[lo], "front");
        vp_assert(val(k.back()) == m[hi - 1] && val(a.Back()) == m[hi - 1], "back");
        if (s == 2) { const int y = vp_i32("y"); a.Back() = T(y); m[hi - 1] = y; }
        if (s == 3) { const int y = vp_i32("y"); a.Front() = T(y); m[lo] = y; }
      }
    }
    if (vp_flag("copy")) { il::Deque<T> b{a}; if (b.size() > 0) b.PopFront(); vp_assert(a.size() == hi - lo, "a copy is not independent"); }
    while (hi > lo) {
      vp_assert(val(a.front()) == m[lo], "order of the elements");
      a.PopFront();
      ++lo;
    }
    vp_assert(a.size() == 0, "size");
    vp_cover("history");
  }
  vp_assert(VpObj::alive_ == 0, "elements are not destroyed exactly once");
}
VP_ENTRY(D01_int) { history<int>(); }
VP_ENTRY(D01_obj) { history<VpObj>(); }
