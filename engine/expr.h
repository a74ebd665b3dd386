// Hash-consed symbolic expressions (bit-vectors up to 128 bits; IEEE doubles and
// floats are carried as their bit pattern) with constant folding, interval
// analysis and polynomial identity normalisation.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  // floating point, operands and results are bit patterns
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FSQRT, O_FRINT,
  O_FOEQ, O_FOLT, O_FOLE, O_FUNO,
  O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPEXT, O_FPTRUNC,
  O_UF1, O_UF2,  // uninterpreted functions (extra = function id)
};

struct Expr;
typedef const Expr* E;

struct Expr {
  Op op;
  uint8_t w;        // width in bits
  bool undef;       // depends on an uninitialised value
  bool fint;        // bit pattern of a double/float known to hold an integer
  uint32_t id;
  uint32_t extra;   // EXTRACT: low bit; VAR: index; UF: function id
  E a, b, c;
  u128 v;           // CONST
  i128 lo, hi;      // signed interval (w<=64)
  std::vector<uint32_t>* vars;  // sorted var indices (interned, shared)
  mutable uint64_t ep;  // evaluation epoch
  mutable u128 ev;
  bool isC() const { return op == O_CONST; }
};

static inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sgn(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  v &= maskW(w);
  if (v >> (w - 1)) return (i128)v - ((i128)1 << w);
  return (i128)v;
}
static inline double bitsD(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static inline uint64_t dBits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static inline float bitsF(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }
static inline uint32_t fBits(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }
static inline double fpVal(u128 v, unsigned w) { return w == 32 ? (double)bitsF((uint32_t)v) : bitsD((uint64_t)v); }
static inline u128 fpBits(double d, unsigned w) { return w == 32 ? (u128)fBits((float)d) : (u128)dBits(d); }

struct VarInfo {
  std::string name;
  unsigned w;
  bool ranged;
  int64_t lo, hi;  // signed range when ranged
  bool undef;
};
extern std::vector<VarInfo> gVars;

struct KeyHash {
  size_t operator()(const Expr* e) const {
    uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w;
    h = (h ^ e->extra) * 0xBF58476D1CE4E5B9ull;
    h = (h ^ (uint64_t)(uintptr_t)e->a) * 0x94D049BB133111EBull;
    h = (h ^ (h >> 29) ^ (uint64_t)(uintptr_t)e->b) * 0xBF58476D1CE4E5B9ull;
    h = (h ^ (h >> 31) ^ (uint64_t)(uintptr_t)e->c) * 0x94D049BB133111EBull;
    h ^= (uint64_t)e->v * 0x9E3779B97F4A7C15ull;
    h ^= (uint64_t)(e->v >> 64);
    return h ^ (h >> 32);
  }
};
struct KeyEq {
  bool operator()(const Expr* x, const Expr* y) const {
    return x->op == y->op && x->w == y->w && x->extra == y->extra && x->a == y->a &&
           x->b == y->b && x->c == y->c && x->v == y->v;
  }
};

class Ctx {
 public:
  std::deque<Expr> arena;
  std::unordered_set<const Expr*, KeyHash, KeyEq> table;
  std::unordered_map<std::string, E> varByKey;
  std::map<std::vector<uint32_t>, std::vector<uint32_t>*> varSets;
  std::vector<uint32_t>* emptyVars;
  Ctx() { emptyVars = internVars({}); }

  std::vector<uint32_t>* internVars(const std::vector<uint32_t>& v) {
    auto it = varSets.find(v);
    if (it != varSets.end()) return it->second;
    auto* p = new std::vector<uint32_t>(v);
    varSets[v] = p;
    return p;
  }
  std::vector<uint32_t>* unionVars(std::vector<uint32_t>* a, std::vector<uint32_t>* b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    std::vector<uint32_t> r;
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    if (r.size() == a->size()) return a;
    if (r.size() == b->size()) return b;
    return internVars(r);
  }

  E intern(Expr& k) {
    auto it = table.find(&k);
    if (it != table.end()) return *it;
    k.id = (uint32_t)arena.size();
    k.undef = (k.a && k.a->undef) || (k.b && k.b->undef) || (k.c && k.c->undef);
    k.vars = emptyVars;
    if (k.a) k.vars = k.a->vars;
    if (k.b) k.vars = unionVars(k.vars, k.b->vars);
    if (k.c) k.vars = unionVars(k.vars, k.c->vars);
    k.ep = 0;
    if (k.op == O_VAR) {
      k.vars = internVars({k.extra});
      k.undef = gVars[k.extra].undef;
    }
    computeRange(k);
    arena.push_back(k);
    E e = &arena.back();
    table.insert(e);
    return e;
  }
  static void clr(Expr& k, Op op, unsigned w) {
    memset((void*)&k, 0, sizeof(k));
    k.op = op;
    k.w = (uint8_t)w;
  }
  E mk(Op op, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, uint32_t extra = 0) {
    Expr k;
    clr(k, op, w);
    k.a = a; k.b = b; k.c = c; k.extra = extra;
    return intern(k);
  }
  E C(u128 v, unsigned w) {
    Expr k;
    clr(k, O_CONST, w);
    k.v = v & maskW(w);
    return intern(k);
  }
  E T() { return C(1, 1); }
  E F() { return C(0, 1); }
  E var(const std::string& name, unsigned w, bool ranged, int64_t lo, int64_t hi, bool undef = false) {
    char buf[96];
    snprintf(buf, sizeof buf, "|%u|%d|%ld|%ld|%d", w, (int)ranged, (long)lo, (long)hi, (int)undef);
    std::string key = name + buf;
    auto it = varByKey.find(key);
    if (it != varByKey.end()) return it->second;
    gVars.push_back(VarInfo{name, w, ranged, lo, hi, undef});
    E e = mk(O_VAR, w, nullptr, nullptr, nullptr, (uint32_t)gVars.size() - 1);
    varByKey[key] = e;
    return e;
  }

  void fullRange(Expr& k) {
    if (k.w > 64) { k.lo = 1; k.hi = 0; return; }
    if (k.w == 1) { k.lo = -1; k.hi = 0; }  // i1 signed
    k.lo = -((i128)1 << (k.w - 1));
    k.hi = ((i128)1 << (k.w - 1)) - 1;
  }
  void computeRange(Expr& k) {
    fullRange(k);
    k.fint = false;
    if (k.w > 64) return;
    auto set = [&](i128 lo, i128 hi) {
      if (lo >= k.lo && hi <= k.hi) { k.lo = lo; k.hi = hi; }
    };
    switch (k.op) {
      case O_CONST:
        k.lo = k.hi = sgn(k.v, k.w);
        if (k.w == 32 || k.w == 64) {
          double d = fpVal(k.v, k.w);
          k.fint = std::isfinite(d) && std::floor(d) == d && std::fabs(d) <= (k.w == 64 ? 9007199254740992.0 : 16777216.0);
        }
        break;
      case O_VAR:
        if (gVars[k.extra].ranged) set(gVars[k.extra].lo, gVars[k.extra].hi);
        break;
      case O_ADD: set(k.a->lo + k.b->lo, k.a->hi + k.b->hi); break;
      case O_SUB: set(k.a->lo - k.b->hi, k.a->hi - k.b->lo); break;
      case O_MUL: {
        i128 p[4] = {k.a->lo * k.b->lo, k.a->lo * k.b->hi, k.a->hi * k.b->lo, k.a->hi * k.b->hi};
        if (k.w <= 63 || (k.a->hi - k.a->lo < ((i128)1 << 62) && k.b->hi - k.b->lo < ((i128)1 << 62))) {
          i128 lo = p[0], hi = p[0];
          for (auto x : p) { if (x < lo) lo = x; if (x > hi) hi = x; }
          set(lo, hi);
        }
        break;
      }
      case O_ZEXT: if (k.a->w <= 63) {
        if (k.a->lo >= 0) set(k.a->lo, k.a->hi); else set(0, ((i128)1 << k.a->w) - 1);
      } break;
      case O_SEXT: if (k.a->w <= 64) set(k.a->lo, k.a->hi); break;
      case O_EXTRACT:
        if (k.extra == 0 && k.a->w <= 64) set(k.a->lo, k.a->hi);
        break;
      case O_ITE: set(k.b->lo < k.c->lo ? k.b->lo : k.c->lo, k.b->hi > k.c->hi ? k.b->hi : k.c->hi);
        k.fint = k.b->fint && k.c->fint;
        break;
      case O_AND:
        if (k.b->isC() && k.b->lo >= 0) set(0, k.b->hi);
        else if (k.a->lo >= 0 && k.b->lo >= 0) set(0, k.a->hi < k.b->hi ? k.a->hi : k.b->hi);
        break;
      case O_UDIV: case O_SDIV:
        if (k.a->lo >= 0 && k.b->isC() && k.b->lo > 0) set(k.a->lo / k.b->lo, k.a->hi / k.b->lo);
        break;
      case O_UREM: case O_SREM:
        if (k.a->lo >= 0 && k.b->isC() && k.b->lo > 0) set(0, k.a->hi < k.b->lo - 1 ? k.a->hi : k.b->lo - 1);
        break;
      case O_LSHR: case O_ASHR:
        if (k.a->lo >= 0 && k.b->isC() && k.b->v < k.w) set(k.a->lo >> (int)k.b->v, k.a->hi >> (int)k.b->v);
        break;
      case O_SHL:
        if (k.a->lo >= 0 && k.b->isC() && k.b->v < 62 && k.a->hi < ((i128)1 << 62)) set(k.a->lo << (int)k.b->v, k.a->hi << (int)k.b->v);
        break;
      case O_SITOFP: k.fint = true; break;
      default: break;
    }
  }

  // ---- smart constructors -------------------------------------------------
  static u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool& ok) {
    ok = true;
    u128 m = maskW(w);
    switch (op) {
      case O_ADD: return (a + b) & m;
      case O_SUB: return (a - b) & m;
      case O_MUL: return (a * b) & m;
      case O_UDIV: if (!b) return m; return a / b;
      case O_UREM: if (!b) return a; return a % b;
      case O_SDIV: {
        i128 x = sgn(a, w), y = sgn(b, w);
        if (y == 0) return x >= 0 ? m : 1;
        return (u128)(x / y) & m;
      }
      case O_SREM: {
        i128 x = sgn(a, w), y = sgn(b, w);
        if (y == 0) return a;
        return (u128)(x % y) & m;
      }
      case O_AND: return a & b;
      case O_OR: return a | b;
      case O_XOR: return a ^ b;
      case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
      case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
      case O_ASHR: {
        i128 x = sgn(a, w);
        unsigned s = b >= w ? w - 1 : (unsigned)b;
        return (u128)(x >> s) & m;
      }
      case O_EQ: return a == b;
      case O_ULT: return a < b;
      case O_ULE: return a <= b;
      case O_SLT: return sgn(a, w) < sgn(b, w);
      case O_SLE: return sgn(a, w) <= sgn(b, w);
      case O_FADD: return w == 32 ? fpBits(bitsF(a) + bitsF(b), 32) : dBits(bitsD(a) + bitsD(b));
      case O_FSUB: return w == 32 ? fpBits(bitsF(a) - bitsF(b), 32) : dBits(bitsD(a) - bitsD(b));
      case O_FMUL: return w == 32 ? fpBits(bitsF(a) * bitsF(b), 32) : dBits(bitsD(a) * bitsD(b));
      case O_FDIV: return w == 32 ? fpBits(bitsF(a) / bitsF(b), 32) : dBits(bitsD(a) / bitsD(b));
      case O_FREM: return w == 32 ? fpBits(std::fmod(bitsF(a), bitsF(b)), 32) : dBits(std::fmod(bitsD(a), bitsD(b)));
      case O_FOEQ: return fpVal(a, w) == fpVal(b, w);
      case O_FOLT: return fpVal(a, w) < fpVal(b, w);
      case O_FOLE: return fpVal(a, w) <= fpVal(b, w);
      case O_FUNO: { double x = fpVal(a, w), y = fpVal(b, w); return x != x || y != y; }
      default: ok = false; return 0;
    }
  }
  static bool isCmp(Op op) { return op == O_EQ || op == O_ULT || op == O_ULE || op == O_SLT || op == O_SLE || op == O_FOEQ || op == O_FOLT || op == O_FOLE || op == O_FUNO; }
  static bool commut(Op op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ; }

  E Not(E a) { return bin(O_XOR, a, C(maskW(a->w), a->w)); }
  E And(E a, E b) { return bin(O_AND, a, b); }
  E Or(E a, E b) { return bin(O_OR, a, b); }
  E Eq(E a, E b) { return bin(O_EQ, a, b); }

  E bin(Op op, E a, E b) {
    unsigned w = a->w;
    if (a->isC() && b->isC()) {
      bool ok;
      u128 r = foldBin(op, a->v, b->v, w, ok);
      if (ok) return C(r, isCmp(op) ? 1 : w);
    }
    if (op >= O_FADD && op <= O_FUNO) return fbin(op, a, b);
    if (commut(op) && (a->isC() || (!b->isC() && a->id > b->id))) std::swap(a, b);
    u128 m = maskW(w);
    // bit operations on widened booleans
    if ((op == O_AND || op == O_OR || op == O_XOR) && a->op == O_ZEXT && a->a->w == 1) {
      if (b->op == O_ZEXT && b->a->w == 1) return zext(bin(op, a->a, b->a), w);
      if (b->isC() && b->v <= 1) return zext(bin(op, a->a, C(b->v, 1)), w);
    }
    switch (op) {
      case O_ADD:
        if (b->isC()) {
          if (b->v == 0) return a;
          if (a->op == O_ADD && a->b->isC()) return bin(O_ADD, a->a, C(a->b->v + b->v, w));
          if (a->op == O_ITE && a->b->isC() && a->c->isC()) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
        }
        if (a->op == O_ADD && a->b->isC()) return bin(O_ADD, bin(O_ADD, a->a, b), a->b);
        if (b->op == O_ADD && b->b->isC()) return bin(O_ADD, bin(O_ADD, a, b->a), b->b);
        if (b->op == O_SUB && b->b == a) return b->a;
        if (a->op == O_SUB && a->b == b) return a->a;
        break;
      case O_SUB:
        if (a == b) return C(0, w);
        if (b->isC()) return bin(O_ADD, a, C(-b->v, w));
        if (a->op == O_ADD && a->a == b) return a->b;
        if (a->op == O_ADD && a->b == b) return a->a;
        if (a->op == O_ADD && a->b->isC()) return bin(O_ADD, bin(O_SUB, a->a, b), a->b);
        if (b->op == O_ADD && b->b->isC()) return bin(O_ADD, bin(O_SUB, a, b->a), C(-b->b->v, w));
        break;
      case O_MUL:
        if (b->isC()) {
          if (b->v == 0) return b;
          if (b->v == 1) return a;
          if (a->op == O_MUL && a->b->isC()) return bin(O_MUL, a->a, C(a->b->v * b->v, w));
          if (a->op == O_ADD && a->b->isC()) return bin(O_ADD, bin(O_MUL, a->a, b), C(a->b->v * b->v, w));
          if (a->op == O_SHL && a->b->isC() && a->b->v < w) return bin(O_MUL, a->a, C(((u128)1 << (unsigned)a->b->v) * b->v, w));
        }
        break;
      case O_UDIV:
        if (b->isC() && b->v == 1) return a;
        if (b->isC() && b->v && (b->v & (b->v - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != b->v) ++s; return bin(O_LSHR, a, C(s, w)); }
        break;
      case O_SDIV:
        if (b->isC() && b->v == 1) return a;
        // exact division of a multiple (pointer differences)
        if (b->isC() && w == 64 && b->lo > 1) {
          E q = exactDiv(a, (int64_t)b->lo);
          if (q) return q;
          if (a->lo >= 0) return bin(O_UDIV, a, b);
        }
        break;
      case O_UREM:
        if (b->isC() && b->v == 1) return C(0, w);
        if (b->isC() && b->v && (b->v & (b->v - 1)) == 0) return bin(O_AND, a, C(b->v - 1, w));
        break;
      case O_SREM:
        if (b->isC() && b->v == 1) return C(0, w);
        if (b->isC() && b->lo > 0 && a->lo >= 0 && w <= 64) return bin(O_UREM, a, b);
        break;
      case O_AND:
        if (a == b) return a;
        if (b->isC()) {
          if (b->v == 0) return b;
          if (b->v == m) return a;
          if (a->op == O_AND && a->b->isC()) return bin(O_AND, a->a, C(a->b->v & b->v, w));
          unsigned nt = 0;
          u128 t = b->v;
          while (t & 1) { t >>= 1; ++nt; }
          if (t == 0 && nt < w) return zext(extract(a, 0, nt), w);
        }
        if (w == 1) {
          if (a->op == O_XOR && a->b->isC() && a->a == b) return F();
          if (b->op == O_XOR && b->b->isC() && b->a == a) return F();
        }
        break;
      case O_OR:
        if (a == b) return a;
        if (b->isC()) {
          if (b->v == 0) return a;
          if (b->v == m) return b;
        }
        if (w == 1) {
          if (a->op == O_XOR && a->b->isC() && a->a == b) return T();
          if (b->op == O_XOR && b->b->isC() && b->a == a) return T();
        }
        { E r = orConcat(a, b); if (r) return r; }
        break;
      case O_XOR:
        if (a == b) return C(0, w);
        if (b->isC()) {
          if (b->v == 0) return a;
          if (a->op == O_XOR && a->b->isC()) return bin(O_XOR, a->a, C(a->b->v ^ b->v, w));
          if (w == 1) {
            if (a->op == O_SLT) return bin(O_SLE, a->b, a->a);
            if (a->op == O_SLE) return bin(O_SLT, a->b, a->a);
            if (a->op == O_ULT) return bin(O_ULE, a->b, a->a);
            if (a->op == O_ULE) return bin(O_ULT, a->b, a->a);
            if (a->op == O_ITE) return ite(a->a, Not(a->b), Not(a->c));
          }
        }
        break;
      case O_SHL: case O_LSHR: case O_ASHR:
        if (b->isC()) {
          if (b->v == 0) return a;
          if (b->v >= w) { if (op != O_ASHR) return C(0, w); }
          else if (op == O_SHL) {
            if (w <= 64 && a->op != O_ZEXT && a->op != O_CONCAT) return bin(O_MUL, a, C((u128)1 << (unsigned)b->v, w));
            return concat(extract(a, 0, w - (unsigned)b->v), C(0, (unsigned)b->v));
          }
          else if (op == O_LSHR) return zext(extract(a, (unsigned)b->v, w - (unsigned)b->v), w);
          else if (op == O_ASHR && a->lo >= 0 && w <= 64) return bin(O_LSHR, a, b);
        }
        if (a->isC() && a->v == 0) return a;
        break;
      case O_EQ: {
        if (a == b) return T();
        if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return F();
        if (w == 1 && b->isC()) return b->v ? a : Not(a);
        if (b->isC()) {
          if (a->op == O_ADD && a->b->isC()) return bin(O_EQ, a->a, C(b->v - a->b->v, w));
          if (a->op == O_XOR && a->b->isC()) return bin(O_EQ, a->a, C(b->v ^ a->b->v, w));
          if (a->op == O_ZEXT) {
            if (b->v >> a->a->w) return F();
            return bin(O_EQ, a->a, C(b->v, a->a->w));
          }
          if (a->op == O_SEXT) {
            E t = C(b->v, a->a->w);
            if (((u128)sgn(t->v, t->w) & m) != b->v) return F();
            return bin(O_EQ, a->a, t);
          }
          if (a->op == O_ITE && (a->b->isC() || a->c->isC())) return ite(a->a, bin(O_EQ, a->b, b), bin(O_EQ, a->c, b));
          if (a->op == O_CONCAT) return And(bin(O_EQ, a->a, C(b->v >> a->b->w, a->a->w)), bin(O_EQ, a->b, C(b->v, a->b->w)));
          if (a->op == O_SITOFP) {
            double d = fpVal(b->v, w);
            if (std::isfinite(d) && std::floor(d) == d && std::fabs(d) < 9e15) return bin(O_EQ, a->a, C((u128)(i128)(int64_t)d, 64));
            return F();
          }
        }
        if (a->op == O_SITOFP && b->op == O_SITOFP) return bin(O_EQ, a->a, b->a);
        if (a->op == b->op && (a->op == O_ZEXT || a->op == O_SEXT) && a->a->w == b->a->w) return bin(O_EQ, a->a, b->a);
        if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w) return And(bin(O_EQ, a->a, b->a), bin(O_EQ, a->b, b->b));
        if (arith(a) || arith(b)) {
          int r = polyCompare(a, b);
          if (r == 0) return T();
          if (r == 1) return F();
        }
        break;
      }
      case O_ULT: case O_ULE:
        if (a == b) return C(op == O_ULE, 1);
        if (w <= 64) {
          if (a->lo >= 0 && b->lo >= 0) {
            if (op == O_ULT ? a->hi < b->lo : a->hi <= b->lo) return T();
            if (op == O_ULT ? a->lo >= b->hi : a->lo > b->hi) return F();
          } else if (a->lo >= 0 && b->hi < 0) return T();
          else if (a->hi < 0 && b->lo >= 0) return F();
        }
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
        if (a->op == O_ITE && b->isC() && a->b->isC() && a->c->isC()) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
        break;
      case O_SLT: case O_SLE:
        if (a == b) return C(op == O_SLE, 1);
        if (w <= 64) {
          if (op == O_SLT ? a->hi < b->lo : a->hi <= b->lo) return T();
          if (op == O_SLT ? a->lo >= b->hi : a->lo > b->hi) return F();
        }
        if (a->op == O_ITE && b->isC() && a->b->isC() && a->c->isC()) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
        break;
      default: break;
    }
    if (commut(op) && (a->isC() || (!b->isC() && a->id > b->id))) std::swap(a, b);
    return mk(op, isCmp(op) ? 1 : w, a, b);
  }
  // a = base-free multiple of d (no wrap): return a/d or null
  E exactDiv(E a, int64_t d) {
    if (a->isC()) { i128 s = sgn(a->v, 64); return s % d == 0 ? C((u128)(s / d), 64) : nullptr; }
    if (a->op == O_MUL && a->b->isC()) {
      i128 k = sgn(a->b->v, 64);
      if (k % d == 0) {
        // no wrap in the product?
        i128 l = a->a->lo * k, h = a->a->hi * k;
        if (l > h) std::swap(l, h);
        if (l >= INT64_MIN && h <= INT64_MAX) return bin(O_MUL, a->a, C((u128)(k / d), 64));
      }
      return nullptr;
    }
    if (a->op == O_ADD || a->op == O_SUB) {
      i128 l = a->op == O_ADD ? a->a->lo + a->b->lo : a->a->lo - a->b->hi;
      i128 h = a->op == O_ADD ? a->a->hi + a->b->hi : a->a->hi - a->b->lo;
      if (l < INT64_MIN || h > INT64_MAX) return nullptr;
      E x = exactDiv(a->a, d);
      if (!x) return nullptr;
      E y = exactDiv(a->b, d);
      if (!y) return nullptr;
      return bin(a->op, x, y);
    }
    return nullptr;
  }
  // (zext hi << k) | zext lo
  E orConcat(E a, E b) {
    for (int t = 0; t < 2; ++t, std::swap(a, b)) {
      // a's low k bits zero, b < 2^k
      if (b->op == O_ZEXT) {
        unsigned k = b->a->w;
        if (a->op == O_CONCAT && a->b->isC() && a->b->v == 0 && a->b->w >= k) {
          unsigned lw = a->b->w;
          return concat(a->a, zext(b->a, lw));
        }
        if (a->op == O_ZEXT && a->a->op == O_CONCAT && a->a->b->isC() && a->a->b->v == 0 && a->a->b->w >= k) {
          return zext(concat(a->a->a, zext(b->a, a->a->b->w)), a->w);
        }
      }
    }
    return nullptr;
  }

  E zext(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->isC()) return C(a->v, w);
    if (a->op == O_ZEXT) return zext(a->a, w);
    if (a->op == O_ITE && a->b->isC() && a->c->isC()) return ite(a->a, C(a->b->v, w), C(a->c->v, w));
    if (a->w <= 64 && a->lo >= 0 && a->op == O_EXTRACT && a->extra == 0 && a->a->w == w && a->a->lo >= 0 && a->a->hi <= (i128)(maskW(a->w) >> 1)) return a->a;
    return mk(O_ZEXT, w, a);
  }
  E sext(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->isC()) return C((u128)sgn(a->v, a->w), w);
    if (a->op == O_SEXT) return sext(a->a, w);
    if (a->op == O_ZEXT) return zext(a->a, w);
    if (a->op == O_ITE && a->b->isC() && a->c->isC()) return ite(a->a, sext(a->b, w), sext(a->c, w));
    if (a->op == O_EXTRACT && a->extra == 0 && a->a->w == w && w <= 64 && a->a->lo >= -((i128)1 << (a->w - 1)) && a->a->hi < ((i128)1 << (a->w - 1))) return a->a;
    if (a->w <= 64 && a->lo >= 0) return zext(a, w);
    return mk(O_SEXT, w, a);
  }
  E extract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && a->w == w) return a;
    if (a->isC()) return C(a->v >> lo, w);
    if (a->op == O_EXTRACT) return extract(a->a, lo + a->extra, w);
    if (a->op == O_CONCAT) {
      unsigned bw = a->b->w;
      if (lo + w <= bw) return extract(a->b, lo, w);
      if (lo >= bw) return extract(a->a, lo - bw, w);
      return concat(extract(a->a, 0, lo + w - bw), extract(a->b, lo, bw - lo));
    }
    if (a->op == O_ZEXT) {
      if (lo + w <= a->a->w) return extract(a->a, lo, w);
      if (lo >= a->a->w) return C(0, w);
      if (lo == 0) return zext(a->a, w);
      return zext(extract(a->a, lo, a->a->w - lo), w);
    }
    if (a->op == O_SEXT) {
      if (lo + w <= a->a->w) return extract(a->a, lo, w);
      if (lo == 0) return sext(a->a, w);
    }
    if (a->op == O_ITE && (a->b->isC() || a->c->isC())) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
    if (a->op == O_AND || a->op == O_OR || a->op == O_XOR) return bin(a->op, extract(a->a, lo, w), extract(a->b, lo, w));
    if (lo == 0 && w < a->w && (a->op == O_ADD || a->op == O_SUB || a->op == O_MUL) && (a->b->isC() || a->a->op == O_ZEXT || a->a->op == O_SEXT))
      return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w));
    return mk(O_EXTRACT, w, a, nullptr, nullptr, lo);
  }
  E concat(E a, E b) {
    unsigned w = a->w + b->w;
    if (a->isC() && b->isC()) return C((a->v << b->w) | b->v, w);
    if (a->isC() && a->v == 0) return zext(b, w);
    if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->a == b->a && a->extra == b->extra + b->w) return extract(a->a, b->extra, w);
    if (b->op == O_CONCAT && a->op == O_EXTRACT && b->a->op == O_EXTRACT && a->a == b->a->a && a->extra == b->a->extra + b->a->w)
      return concat(extract(a->a, b->a->extra, a->w + b->a->w), b->b);
    if (a->op == O_CONCAT) return concat(a->a, concat(a->b, b));
    // the upper bytes of a zext'ed / sext'ed value reassembled
    if (a->op == O_ITE && b->op == O_ITE && a->a == b->a) return ite(a->a, concat(a->b, b->b), concat(a->c, b->c));
    if (a->op == O_ITE && b->isC() && a->b->isC() && a->c->isC()) return ite(a->a, concat(a->b, b), concat(a->c, b));
    return mk(O_CONCAT, w, a, b);
  }
  E ite(E c, E a, E b) {
    if (c->isC()) return c->v ? a : b;
    if (a == b) return a;
    if (c->op == O_XOR && c->b->isC()) return ite(c->a, b, a);
    if (a->w == 1) {
      if (a->isC()) return a->v ? Or(c, b) : And(Not(c), b);
      if (b->isC()) return b->v ? Or(Not(c), a) : And(c, a);
    }
    if (a->op == O_ITE && a->a == c) a = a->b;
    if (b->op == O_ITE && b->a == c) b = b->c;
    if (a == b) return a;
    if (a->fint && b->fint && (a->op == O_SITOFP || b->op == O_SITOFP)) {
      E x = toInt(a), y = toInt(b);
      if (x && y) return sitofp(ite(c, x, y), a->w);
    }
    return mk(O_ITE, a->w, c, a, b);
  }

  // ---- floating point in the exact-integer domain --------------------------
  E toInt(E f) {  // 64-bit signed integer value of an integer-valued fp bit pattern
    if (f->isC()) { if (!f->fint) return nullptr; return C((u128)(i128)(int64_t)fpVal(f->v, f->w), 64); }
    if (f->op == O_SITOFP) return f->a;
    if (f->op == O_ITE && f->fint) {
      E x = toInt(f->b), y = toInt(f->c);
      if (x && y) return ite(f->a, x, y);
    }
    return nullptr;
  }
  static i128 fpLim(unsigned w) { return w == 32 ? ((i128)1 << 24) : ((i128)1 << 53); }
  E sitofp(E i, unsigned w) {  // i: 64-bit
    if (i->isC()) { int64_t x = (int64_t)sgn(i->v, i->w); return w == 32 ? C(fBits((float)x), 32) : C(dBits((double)x), 64); }
    if (i->w < 64) i = sext(i, 64);
    i128 L = fpLim(w);
    if (i->w == 64 && i->lo >= -L && i->hi <= L) {
      i = canon(i);
      if (i->isC()) return sitofp(i, w);
      return mk(O_SITOFP, w, i);
    }
    Expr k; clr(k, O_UF1, w); k.extra = 1000 + w; k.a = i;  // inexact conversion, uninterpreted (see solver)
    return intern(k);
  }
  E fbin(Op op, E a, E b) {
    unsigned w = a->w;
    i128 L = fpLim(w);
    if (a->fint && b->fint) {
      E x = toInt(a), y = toInt(b);
      if (x && y) {
        switch (op) {
          case O_FADD: case O_FSUB: case O_FMUL: {
            Op io = op == O_FADD ? O_ADD : op == O_FSUB ? O_SUB : O_MUL;
            E r = bin(io, x, y);
            i128 lo, hi;
            if (io == O_ADD) { lo = x->lo + y->lo; hi = x->hi + y->hi; }
            else if (io == O_SUB) { lo = x->lo - y->hi; hi = x->hi - y->lo; }
            else {
              i128 p[4] = {x->lo * y->lo, x->lo * y->hi, x->hi * y->lo, x->hi * y->hi};
              lo = hi = p[0];
              for (auto q : p) { if (q < lo) lo = q; if (q > hi) hi = q; }
              if (x == y && lo < 0) lo = 0;
            }
            if (lo >= -L && hi <= L) {
              if (r->lo < lo || r->hi > hi) {}  // r's own interval may be coarser after rewriting
              return sitofpKnown(r, w, lo, hi);
            }
            break;
          }
          case O_FDIV:
            if (y->isC() && sgn(y->v, 64) == 1) return a;
            if (y->isC() && sgn(y->v, 64) == -1) return sitofp(bin(O_SUB, C(0, 64), x), w);
            if (x->isC() && x->v == 0 && (y->lo > 0 || y->hi < 0)) return C(0, w);
            if ((y->lo > 0 || y->hi < 0) && !arith(y) && x->lo >= -L && x->hi <= L) {  // a multiple of y
              auto p = poly(x);
              if (p) {
                E q = C(0, 64);
                bool ok = true;
                if (y->isC()) {
                  i128 c = sgn(y->v, 64);
                  for (auto& t : *p) {
                    i128 k = sgn(t.second, 64);
                    if (k % c) { ok = false; break; }
                    E mon = C((u128)(k / c), 64);
                    for (E a1 : t.first) mon = bin(O_MUL, mon, a1);
                    q = bin(O_ADD, q, mon);
                  }
                } else for (auto& t : *p) {
                  auto it = std::find(t.first.begin(), t.first.end(), y);
                  if (it == t.first.end()) { ok = false; break; }
                  E mon = C(t.second, 64);
                  for (auto k = t.first.begin(); k != t.first.end(); ++k) if (k != it) mon = bin(O_MUL, mon, *k);
                  q = bin(O_ADD, q, mon);
                }
                if (ok) return sitofpKnown(q, w, x->lo < -x->hi ? x->lo : -x->hi, x->hi > -x->lo ? x->hi : -x->lo);
              }
            }
            break;
          case O_FOEQ: return bin(O_EQ, x, y);
          case O_FOLT: return bin(O_SLT, x, y);
          case O_FOLE: return bin(O_SLE, x, y);
          case O_FUNO: return F();
          default: break;
        }
      }
    }
    if ((op == O_FADD || op == O_FMUL || op == O_FOEQ || op == O_FUNO) && a->id > b->id) std::swap(a, b);
    auto root = [&](E e) { if (e->op != O_FSQRT || !e->a->fint) return false; E x = toInt(e->a); return x && x->lo >= 0; };
    auto quot = [&](E e) { if (e->op != O_FDIV || !e->a->fint || !e->b->fint) return false; E y = toInt(e->b); return y && y->isC() && y->v != 0 && toInt(e->a); };
    if (op == O_FOEQ && a == b && (root(a) || quot(a))) return T();
    if (op == O_FOEQ && quot(a) && quot(b) && a->b == b->b) {  // so do quotients by a small number
      E x = toInt(a->a), y = toInt(b->a), c = toInt(a->b);
      i128 m = sgn(c->v, 64), big = (i128)1 << 40;
      if (m >= -1000 && m <= 1000 && x->hi <= big && y->hi <= big && x->lo >= -big && y->lo >= -big) return bin(O_EQ, x, y);
    }
    if (op == O_FOEQ && root(a) && root(b)) {  // the square root tells integers of this size apart
      E x = toInt(a->a), y = toInt(b->a);
      if (x->hi <= ((i128)1 << 40) && y->hi <= ((i128)1 << 40)) return bin(O_EQ, x, y);
    }
    if (op == O_FUNO && a->fint) a = b;
    if (op == O_FUNO && b->fint) b = a;
    if (op == O_FMUL) {
      for (int t = 0; t < 2; ++t, std::swap(a, b))
        if (b->isC() && fpVal(b->v, w) == 1.0) return a;
    }
    if (op == O_FDIV && b->isC() && fpVal(b->v, w) == 1.0) return a;
    if (op == O_FADD || op == O_FSUB) {
      // x + 0.0 == x up to the sign of a zero result; the numeric domain ignores it
      if (b->isC() && fpVal(b->v, w) == 0.0 && !std::signbit(fpVal(b->v, w)) && op == O_FSUB) return a;
    }
    return mk(op, isCmp(op) ? 1 : w, a, b);
  }
  E sitofpKnown(E r, unsigned w, i128 lo, i128 hi) {
    if (r->isC()) return sitofp(r, w);
    E c = canon(r);
    if (c->isC()) return sitofp(c, w);
    // keep a usable interval: if canonicalisation lost it, keep the tighter node
    if (c->lo < lo || c->hi > hi) {
      if (r->lo >= lo && r->hi <= hi) { c = r; }
    }
    Expr k; clr(k, O_SITOFP, w); k.a = c;
    E e = intern(k);
    // tighten the operand's interval in place (sound: value provably in [lo,hi])
    Expr* m = const_cast<Expr*>(c);
    if (m->lo < lo) m->lo = lo;
    if (m->hi > hi) m->hi = hi;
    return e;
  }
  E fneg(E a) {
    if (a->isC()) return C(a->v ^ ((u128)1 << (a->w - 1)), a->w);
    E x = a->fint ? toInt(a) : nullptr;
    if (x) return sitofp(bin(O_SUB, C(0, 64), x), a->w);
    return bin(O_XOR, a, C((u128)1 << (a->w - 1), a->w));
  }
  E fabs_(E a) {
    if (a->isC()) return C(a->v & ~((u128)1 << (a->w - 1)), a->w);
    E x = a->fint ? toInt(a) : nullptr;
    if (x) return sitofp(ite(bin(O_SLT, x, C(0, 64)), bin(O_SUB, C(0, 64), x), x), a->w);
    return bin(O_AND, a, C(maskW(a->w - 1), a->w));
  }
  E fsqrt(E a) {
    if (a->isC()) return a->w == 32 ? C(fBits(std::sqrt(bitsF(a->v))), 32) : C(dBits(std::sqrt(bitsD(a->v))), 64);
    return mk(O_FSQRT, a->w, a);
  }
  // floor of a double on its bits
  E ffloor(E a) {
    E ex = zext(extract(a, 52, 11), 64), neg = extract(a, 63, 1), mag = bin(O_AND, a, C((1ULL << 63) - 1, 64));
    E j = bin(O_SUB, ex, C(1023, 64));
    E mask = bin(O_LSHR, C((1ULL << 52) - 1, 64), j), one = bin(O_LSHR, C(1ULL << 52, 64), j);
    E down = And(neg, Not(Eq(bin(O_AND, a, mask), C(0, 64))));
    E r = bin(O_AND, ite(down, bin(O_ADD, a, one), a), Not(mask));
    E tiny = ite(Eq(mag, C(0, 64)), a, ite(neg, C(0xbff0000000000000ULL, 64), C(0, 64)));
    return ite(bin(O_ULT, ex, C(1023, 64)), tiny, ite(bin(O_ULE, C(1075, 64), ex), a, r));
  }
  E fptosi(E a, unsigned w, bool sign) {
    if (a->isC()) { double d = fpVal(a->v, a->w); return sign ? C((u128)(i128)(int64_t)d, w) : C((u128)(uint64_t)d, w); }
    E x = a->fint ? toInt(a) : nullptr;
    if (x) return extract(x, 0, w);
    if (sign && a->w == 64 && w <= 64) {  // on the bits: truncation toward zero
      E ex = zext(extract(a, 52, 11), 64), sig = bin(O_OR, bin(O_AND, a, C((1ULL << 52) - 1, 64)), C(1ULL << 52, 64));
      E right = bin(O_LSHR, sig, bin(O_SUB, C(1075, 64), ex)), left = bin(O_SHL, sig, bin(O_SUB, ex, C(1075, 64)));
      E mag = ite(bin(O_ULT, ex, C(1023, 64)), C(0, 64), ite(bin(O_ULE, ex, C(1075, 64)), right, ite(bin(O_ULT, ex, C(1086, 64)), left, C(1ULL << 63, 64))));
      return extract(ite(extract(a, 63, 1), bin(O_SUB, C(0, 64), mag), mag), 0, w);
    }
    return mk(sign ? O_FPTOSI : O_FPTOUI, w, a);
  }
  E fpext(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->isC()) return w == 64 ? C(dBits((double)bitsF(a->v)), 64) : C(fBits((float)bitsD(a->v)), 32);
    E x = a->fint ? toInt(a) : nullptr;
    if (x && x->lo >= -fpLim(w) && x->hi <= fpLim(w)) return mk(O_SITOFP, w, x);
    return mk(w > a->w ? O_FPEXT : O_FPTRUNC, w, a);
  }

  // ---- polynomial normal form (mod 2^w) ------------------------------------
  typedef std::map<std::vector<E>, u128> Poly;
  std::unordered_map<E, std::shared_ptr<Poly>> polyMemo;
  static bool arith(E e) { return e->op == O_ADD || e->op == O_SUB || e->op == O_MUL; }
  std::shared_ptr<Poly> poly(E e) {
    auto it = polyMemo.find(e);
    if (it != polyMemo.end()) return it->second;
    std::shared_ptr<Poly> r = std::make_shared<Poly>();
    u128 m = maskW(e->w);
    const size_t LIM = 400;
    bool bad = false;
    if (e->isC()) { if (e->v) (*r)[{}] = e->v; }
    else if (e->op == O_ADD || e->op == O_SUB) {
      auto p = poly(e->a), q = poly(e->b);
      if (!p || !q) bad = true;
      else {
        *r = *p;
        for (auto& t : *q) {
          u128& c = (*r)[t.first];
          c = (e->op == O_ADD ? c + t.second : c - t.second) & m;
          if (!c) r->erase(t.first);
        }
        if (r->size() > LIM) bad = true;
      }
    } else if (e->op == O_MUL) {
      auto p = poly(e->a), q = poly(e->b);
      if (!p || !q || p->size() * q->size() > LIM) bad = true;
      else
        for (auto& s : *p)
          for (auto& t : *q) {
            std::vector<E> mon = s.first;
            mon.insert(mon.end(), t.first.begin(), t.first.end());
            std::sort(mon.begin(), mon.end(), [](E x, E y) { return x->id < y->id; });
            if (mon.size() > 8) { bad = true; break; }
            u128& c = (*r)[mon];
            c = (c + s.second * t.second) & m;
            if (!c) r->erase(mon);
          }
    } else (*r)[{e}] = 1;
    if (bad) r = nullptr;
    polyMemo[e] = r;
    return r;
  }
  int polyCompare(E a, E b) {  // 0 equal, 1 always different, 2 unknown
    auto p = poly(a), q = poly(b);
    if (!p || !q) return 2;
    Poly d = *p;
    u128 m = maskW(a->w);
    for (auto& t : *q) {
      u128& c = d[t.first];
      c = (c - t.second) & m;
      if (!c) d.erase(t.first);
    }
    if (d.empty()) return 0;
    if (d.size() == 1 && d.begin()->first.empty()) return 1;
    return 2;
  }
  std::unordered_map<E, E> canonMemo;
  E canon(E e) {
    if (!arith(e)) return e;
    auto it = canonMemo.find(e);
    if (it != canonMemo.end()) return it->second;
    auto p = poly(e);
    E r = e;
    if (p) {
      // order monomials by atom ids
      std::vector<std::pair<std::vector<uint32_t>, std::pair<const std::vector<E>*, u128>>> ms;
      for (auto& t : *p) {
        std::vector<uint32_t> ids;
        for (E x : t.first) ids.push_back(x->id);
        ms.push_back({ids, {&t.first, t.second}});
      }
      std::sort(ms.begin(), ms.end(), [](const auto& x, const auto& y) { return x.first < y.first; });
      E sum = nullptr;
      for (auto& t : ms) {
        E mon = nullptr;
        for (E x : *t.second.first) mon = mon ? rawMul(mon, x) : x;
        u128 c = t.second.second;
        E term;
        if (!mon) term = C(c, e->w);
        else if (c == 1) term = mon;
        else term = rawMul(mon, C(c, e->w));
        sum = sum ? rawAdd(sum, term) : term;
      }
      r = sum ? sum : C(0, e->w);
      polyMemo[r] = p;
    }
    canonMemo[e] = r;
    canonMemo[r] = r;
    return r;
  }
  E rawMul(E a, E b) { if (a->isC() && b->isC()) return C(a->v * b->v, a->w); return mk(O_MUL, a->w, a, b); }
  E rawAdd(E a, E b) { if (a->isC() && b->isC()) return C(a->v + b->v, a->w); return mk(O_ADD, a->w, a, b); }

  // ---- evaluation under a model ---------------------------------------------
  uint64_t epoch = 0;
  u128 eval(E e, const std::vector<uint64_t>& model) {
    ++epoch;
    return ev(e, model);
  }
  u128 varVal(uint32_t i, const std::vector<uint64_t>& model) {
    if (i < model.size() ) return model[i] & maskW(gVars[i].w);
    return gVars[i].ranged ? ((u128)(i128)gVars[i].lo & maskW(gVars[i].w)) : 0;
  }
  u128 ev(E e, const std::vector<uint64_t>& M) {
    if (e->isC()) return e->v;
    if (e->ep == epoch) return e->ev;
    u128 r = 0;
    switch (e->op) {
      case O_VAR: r = varVal(e->extra, M); break;
      case O_CONCAT: r = (ev(e->a, M) << e->b->w) | ev(e->b, M); break;
      case O_EXTRACT: r = (ev(e->a, M) >> e->extra) & maskW(e->w); break;
      case O_ZEXT: r = ev(e->a, M); break;
      case O_SEXT: r = (u128)sgn(ev(e->a, M), e->a->w) & maskW(e->w); break;
      case O_ITE: r = ev(e->a, M) ? ev(e->b, M) : ev(e->c, M); break;
      case O_FSQRT: r = e->w == 32 ? (u128)fBits(std::sqrt(bitsF(ev(e->a, M)))) : (u128)dBits(std::sqrt(bitsD(ev(e->a, M)))); break;
      case O_FRINT: r = fpBits(std::floor(fpVal(ev(e->a, M), e->w)), e->w); break;
      case O_FPTOSI: r = (u128)(i128)(int64_t)fpVal(ev(e->a, M), e->a->w) & maskW(e->w); break;
      case O_FPTOUI: r = (u128)(uint64_t)fpVal(ev(e->a, M), e->a->w) & maskW(e->w); break;
      case O_SITOFP: { int64_t x = (int64_t)sgn(ev(e->a, M), e->a->w); r = e->w == 32 ? (u128)fBits((float)x) : (u128)dBits((double)x); break; }
      case O_UITOFP: { uint64_t x = (uint64_t)ev(e->a, M); r = e->w == 32 ? (u128)fBits((float)x) : (u128)dBits((double)x); break; }
      case O_FPEXT: r = dBits((double)bitsF((uint32_t)ev(e->a, M))); break;
      case O_FPTRUNC: r = fBits((float)bitsD((uint64_t)ev(e->a, M))); break;
      case O_UF1:
        if (e->extra >= 1000) { int64_t x = (int64_t)sgn(ev(e->a, M), e->a->w); r = e->w == 32 ? (u128)fBits((float)x) : (u128)dBits((double)x); }
        else r = 0;
        break;
      case O_UF2: r = 0; break;
      default: {
        bool ok;
        r = foldBin(e->op, ev(e->a, M), ev(e->b, M), e->a->w, ok);
        break;
      }
    }
    e->ep = epoch;
    e->ev = r;
    return r;
  }
};
extern Ctx cx;
