// Query layer: independence slicing, counterexample reuse, z3 back end.
#pragma once
#include <chrono>
#include <z3.h>
#include "expr.h"

typedef std::vector<uint64_t> Model;

struct SolverStats {
  uint64_t queries = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0;
  double seconds = 0;
};

class Solver {
 public:
  Z3_context z;
  Z3_solver s;
  SolverStats st;
  unsigned timeoutMs;
  std::unordered_map<E, Z3_ast> trans;
  std::vector<Z3_ast> varAst;
  bool sawUnknown = false;

  explicit Solver(unsigned tmo) : timeoutMs(tmo) {
    Z3_config cfg = Z3_mk_config();
    z = Z3_mk_context(cfg);
    Z3_set_error_handler(z, [](Z3_context c, Z3_error_code e) {
      fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
      exit(3);
    });
    mkSolver();
  }
  void mkSolver() {
    s = Z3_mk_solver(z);
    Z3_solver_inc_ref(z, s);
    Z3_params p = Z3_mk_params(z);
    Z3_params_inc_ref(z, p);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), timeoutMs);
    Z3_solver_set_params(z, s, p);
  }

  Z3_ast bv(u128 v, unsigned w) {
    Z3_sort so = Z3_mk_bv_sort(z, w);
    if (w <= 64) return Z3_mk_unsigned_int64(z, (uint64_t)v, so);
    Z3_ast hi = Z3_mk_unsigned_int64(z, (uint64_t)(v >> 64), Z3_mk_bv_sort(z, w - 64));
    Z3_ast lo = Z3_mk_unsigned_int64(z, (uint64_t)v, Z3_mk_bv_sort(z, 64));
    return Z3_mk_concat(z, hi, lo);
  }
  Z3_ast boolToBv(Z3_ast b) { return Z3_mk_ite(z, b, bv(1, 1), bv(0, 1)); }
  Z3_ast toBool(E e) {
    // comparison nodes translate straight to booleans
    auto it = boolMemo.find(e);
    if (it != boolMemo.end()) return it->second;
    Z3_ast r = nullptr;
    switch (e->op) {
      case O_EQ: r = e->a->w == 1 ? Z3_mk_iff(z, toBool(e->a), toBool(e->b)) : Z3_mk_eq(z, tr(e->a), tr(e->b)); break;
      case O_ULT: r = Z3_mk_bvult(z, tr(e->a), tr(e->b)); break;
      case O_ULE: r = Z3_mk_bvule(z, tr(e->a), tr(e->b)); break;
      case O_SLT: r = Z3_mk_bvslt(z, tr(e->a), tr(e->b)); break;
      case O_SLE: r = Z3_mk_bvsle(z, tr(e->a), tr(e->b)); break;
      case O_FOEQ: r = Z3_mk_fpa_eq(z, fp(e->a), fp(e->b)); break;
      case O_FOLT: r = Z3_mk_fpa_lt(z, fp(e->a), fp(e->b)); break;
      case O_FOLE: r = Z3_mk_fpa_leq(z, fp(e->a), fp(e->b)); break;
      case O_FUNO: { Z3_ast xs[2] = {Z3_mk_fpa_is_nan(z, fp(e->a)), Z3_mk_fpa_is_nan(z, fp(e->b))}; r = Z3_mk_or(z, 2, xs); break; }
      case O_CONST: r = e->v ? Z3_mk_true(z) : Z3_mk_false(z); break;
      case O_AND: { Z3_ast xs[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(z, 2, xs); break; }
      case O_OR: { Z3_ast xs[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(z, 2, xs); break; }
      case O_XOR:
        if (e->b->isC()) r = e->b->v ? Z3_mk_not(z, toBool(e->a)) : toBool(e->a);
        else r = Z3_mk_xor(z, toBool(e->a), toBool(e->b));
        break;
      case O_ITE: r = Z3_mk_ite(z, toBool(e->a), toBool(e->b), toBool(e->c)); break;
      default: r = Z3_mk_eq(z, tr(e), bv(1, 1)); break;
    }
    Z3_inc_ref(z, r);
    boolMemo[e] = r;
    return r;
  }
  std::unordered_map<E, Z3_ast> boolMemo;
  Z3_sort fsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(z) : Z3_mk_fpa_sort_64(z); }
  Z3_ast rne() { return Z3_mk_fpa_rne(z); }
  std::unordered_map<E, Z3_ast> fpMemo;
  // e viewed as an IEEE number
  Z3_ast fp(E e) {
    auto it = fpMemo.find(e);
    if (it != fpMemo.end()) return it->second;
    Z3_ast r;
    switch (e->op) {
      case O_FADD: r = Z3_mk_fpa_add(z, rne(), fp(e->a), fp(e->b)); break;
      case O_FSUB: r = Z3_mk_fpa_sub(z, rne(), fp(e->a), fp(e->b)); break;
      case O_FMUL: r = Z3_mk_fpa_mul(z, rne(), fp(e->a), fp(e->b)); break;
      case O_FDIV: r = Z3_mk_fpa_div(z, rne(), fp(e->a), fp(e->b)); break;
      case O_FSQRT: r = Z3_mk_fpa_sqrt(z, rne(), fp(e->a)); break;
      case O_FRINT: r = Z3_mk_fpa_round_to_integral(z, Z3_mk_fpa_rtn(z), fp(e->a)); break;
      case O_SITOFP: r = Z3_mk_fpa_to_fp_signed(z, rne(), tr(e->a), fsort(e->w)); break;
      case O_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(z, rne(), tr(e->a), fsort(e->w)); break;
      case O_FPEXT: case O_FPTRUNC: r = Z3_mk_fpa_to_fp_float(z, rne(), fp(e->a), fsort(e->w)); break;
      case O_UF1:
        if (e->extra >= 1000) { r = Z3_mk_fpa_to_fp_signed(z, rne(), tr(e->a), fsort(e->w)); break; }
      // fallthrough
      case O_ITE:
        if (e->op == O_ITE) { r = Z3_mk_ite(z, toBool(e->a), fp(e->b), fp(e->c)); break; }
      // fallthrough
      default: r = Z3_mk_fpa_to_fp_bv(z, tr(e), fsort(e->w)); break;
    }
    Z3_inc_ref(z, r);
    fpMemo[e] = r;
    return r;
  }
  Z3_ast tr(E e) {
    auto it = trans.find(e);
    if (it != trans.end()) return it->second;
    Z3_ast r = nullptr;
    switch (e->op) {
      case O_CONST: r = bv(e->v, e->w); break;
      case O_VAR: {
        char nm[32];
        snprintf(nm, sizeof nm, "v%u", e->extra);
        r = Z3_mk_const(z, Z3_mk_string_symbol(z, nm), Z3_mk_bv_sort(z, e->w));
        if (varAst.size() <= e->extra) varAst.resize(e->extra + 1, nullptr);
        varAst[e->extra] = r;
        break;
      }
      case O_ADD: r = Z3_mk_bvadd(z, tr(e->a), tr(e->b)); break;
      case O_SUB: r = Z3_mk_bvsub(z, tr(e->a), tr(e->b)); break;
      case O_MUL: r = mulNarrow(e); break;
      case O_UDIV: r = Z3_mk_bvudiv(z, tr(e->a), tr(e->b)); break;
      case O_SDIV: r = Z3_mk_bvsdiv(z, tr(e->a), tr(e->b)); break;
      case O_UREM: r = Z3_mk_bvurem(z, tr(e->a), tr(e->b)); break;
      case O_SREM: r = Z3_mk_bvsrem(z, tr(e->a), tr(e->b)); break;
      case O_AND: r = e->w == 1 ? boolToBv(toBool(e)) : Z3_mk_bvand(z, tr(e->a), tr(e->b)); break;
      case O_OR: r = e->w == 1 ? boolToBv(toBool(e)) : Z3_mk_bvor(z, tr(e->a), tr(e->b)); break;
      case O_XOR: r = e->w == 1 ? boolToBv(toBool(e)) : Z3_mk_bvxor(z, tr(e->a), tr(e->b)); break;
      case O_SHL: r = Z3_mk_bvshl(z, tr(e->a), tr(e->b)); break;
      case O_LSHR: r = Z3_mk_bvlshr(z, tr(e->a), tr(e->b)); break;
      case O_ASHR: r = Z3_mk_bvashr(z, tr(e->a), tr(e->b)); break;
      case O_CONCAT: r = Z3_mk_concat(z, tr(e->a), tr(e->b)); break;
      case O_EXTRACT: r = Z3_mk_extract(z, e->extra + e->w - 1, e->extra, tr(e->a)); break;
      case O_ZEXT: r = Z3_mk_zero_ext(z, e->w - e->a->w, tr(e->a)); break;
      case O_SEXT: r = Z3_mk_sign_ext(z, e->w - e->a->w, tr(e->a)); break;
      case O_ITE: r = Z3_mk_ite(z, toBool(e->a), tr(e->b), tr(e->c)); break;
      case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE:
      case O_FOEQ: case O_FOLT: case O_FOLE: case O_FUNO: r = boolToBv(toBool(e)); break;
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FSQRT: case O_FRINT:
      case O_SITOFP: case O_UITOFP: case O_FPEXT: case O_FPTRUNC:
        r = Z3_mk_fpa_to_ieee_bv(z, fp(e)); break;
      case O_FPTOSI: r = Z3_mk_fpa_to_sbv(z, Z3_mk_fpa_rtz(z), fp(e->a), e->w); break;
      case O_FPTOUI: r = Z3_mk_fpa_to_ubv(z, Z3_mk_fpa_rtz(z), fp(e->a), e->w); break;
      case O_UF1:
        if (e->extra >= 1000) { r = Z3_mk_fpa_to_ieee_bv(z, fp(e)); break; }
      // fallthrough
      default: {
        char nm[32];
        snprintf(nm, sizeof nm, "uf%u_%u_%u", e->op, e->extra, e->w);
        Z3_sort dom[3];
        Z3_ast args[3];
        unsigned n = 0;
        for (E x : {e->a, e->b, e->c}) if (x) { dom[n] = Z3_mk_bv_sort(z, x->w); args[n] = tr(x); ++n; }
        Z3_func_decl d = Z3_mk_func_decl(z, Z3_mk_string_symbol(z, nm), n, dom, Z3_mk_bv_sort(z, e->w));
        r = Z3_mk_app(z, d, n, args);
      }
    }
    Z3_inc_ref(z, r);
    trans[e] = r;
    return r;
  }
  // multiply in the smallest width the interval analysis justifies
  Z3_ast mulNarrow(E e) {
    if (e->w == 64 && !e->b->isC()) {
      i128 lo = e->lo, hi = e->hi;
      for (E x : {e->a, e->b}) { if (x->lo < lo) lo = x->lo; if (x->hi > hi) hi = x->hi; }
      unsigned k = 1;
      while (k < 64 && !(lo >= -((i128)1 << (k - 1)) && hi < ((i128)1 << (k - 1)))) ++k;
      if (k <= 48) {
        Z3_ast x = Z3_mk_extract(z, k - 1, 0, tr(e->a)), y = Z3_mk_extract(z, k - 1, 0, tr(e->b));
        return Z3_mk_sign_ext(z, 64 - k, Z3_mk_bvmul(z, x, y));
      }
    }
    return Z3_mk_bvmul(z, tr(e->a), tr(e->b));
  }
  void assertRange(uint32_t vi) {
    const VarInfo& in = gVars[vi];
    if (!in.ranged) return;
    if (varAst.size() <= vi || !varAst[vi]) return;
    Z3_ast v = varAst[vi];
    Z3_solver_assert(z, s, Z3_mk_bvsle(z, bv((u128)(i128)in.lo, in.w), v));
    Z3_solver_assert(z, s, Z3_mk_bvsle(z, v, bv((u128)(i128)in.hi, in.w)));
  }

  // ------------------------------------------------ integer translation --
  // Queries with products or divisions of wide unknown numbers are out of reach
  // of bit-blasting.  They are translated to integer arithmetic: each bit-vector
  // becomes the signed integer it represents, wrap-around is explicit.  "unsat" is
  // an answer for the bit-vectors; a model is kept only if it satisfies them.
  struct IntTr {
    Solver& S;
    Z3_context z;
    bool ok = true;
    int fresh = 0;
    std::unordered_map<E, Z3_ast> memo, bmemo;
    std::unordered_map<E, std::pair<i128, i128>> itv;  // absent: the whole type
    std::unordered_map<uint32_t, Z3_ast> vars;
    std::vector<Z3_ast> side, later;  // later: constraints that are rarely needed
    bool unsignedMul = false;
    std::map<std::pair<Z3_ast, Z3_ast>, Z3_ast> prodMemo;
    Z3_ast prod(Z3_ast a, Z3_ast b) {
      // an unknown number, constrained by lemmas
      if (b < a) std::swap(a, b);
      auto it = prodMemo.find({a, b});
      if (it != prodMemo.end()) return it->second;
      Z3_ast p = newInt(), zero = num(0), one = num(1);
      prodMemo[{a, b}] = p;
      side.push_back(eq(eq(p, zero), or2(eq(a, zero), eq(b, zero))));
      side.push_back(imp(eq(a, one), eq(p, b)));
      side.push_back(imp(eq(b, one), eq(p, a)));
      Z3_ast ap = lt(zero, a), an = lt(a, zero), bp = lt(zero, b), bn = lt(b, zero), na = sub(zero, a), nb = sub(zero, b);
      side.push_back(imp(and2(ap, bp), and2(le(a, p), le(b, p))));
      side.push_back(imp(and2(an, bn), and2(le(na, p), le(nb, p))));
      side.push_back(imp(and2(ap, bn), and2(le(p, na), le(p, b))));
      side.push_back(imp(and2(an, bp), and2(le(p, a), le(p, nb))));
      return p;
    }
    struct Prod { Z3_ast a, b, p; };
    struct Quot { Z3_ast n, b, q, p; };
    std::vector<Prod> prods;
    std::vector<Quot> quots;
    std::map<std::pair<E, E>, std::pair<Z3_ast, Z3_ast>> divs;
    explicit IntTr(Solver& s) : S(s), z(s.z) {}
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(z, a); return a; }
    Z3_sort isort() { return Z3_mk_int_sort(z); }
    Z3_ast num(i128 v) {
      bool n = v < 0;
      u128 u = n ? (u128)0 - (u128)v : (u128)v;
      std::string t;
      do { t.insert(t.begin(), char('0' + (int)(u % 10))); u /= 10; } while (u);
      if (n) t.insert(t.begin(), '-');
      return keep(Z3_mk_numeral(z, t.c_str(), isort()));
    }
    Z3_ast pow2(unsigned k) {
      if (k < 126) return num((i128)1 << k);
      Z3_ast a = pow2(k / 2), b = pow2(k - k / 2);
      return mul(a, b);
    }
    Z3_ast newInt() {
      char nm[32];
      snprintf(nm, sizeof nm, "k%d", fresh++);
      return keep(Z3_mk_const(z, Z3_mk_string_symbol(z, nm), isort()));
    }
    Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return keep(Z3_mk_add(z, 2, x)); }
    Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return keep(Z3_mk_sub(z, 2, x)); }
    Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return keep(Z3_mk_mul(z, 2, x)); }
    Z3_ast ite(Z3_ast c, Z3_ast a, Z3_ast b) { return keep(Z3_mk_ite(z, c, a, b)); }
    Z3_ast lt(Z3_ast a, Z3_ast b) { return keep(Z3_mk_lt(z, a, b)); }
    Z3_ast le(Z3_ast a, Z3_ast b) { return keep(Z3_mk_le(z, a, b)); }
    Z3_ast eq(Z3_ast a, Z3_ast b) { return keep(Z3_mk_eq(z, a, b)); }
    Z3_ast and2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return keep(Z3_mk_and(z, 2, x)); }
    Z3_ast or2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return keep(Z3_mk_or(z, 2, x)); }
    Z3_ast imp(Z3_ast a, Z3_ast b) { return keep(Z3_mk_implies(z, a, b)); }
    Z3_ast fail() { ok = false; if (getenv("ILSYM_INT")) fprintf(stderr, "int: operation not translated\n"); return num(0); }
    // the bounds a condition that holds gives to the interval of an expression
    void bound(E c) {
      if (c->op == O_AND && c->w == 1) { bound(c->a); bound(c->b); return; }
      if (c->op != O_SLT && c->op != O_SLE) return;
      int strict = c->op == O_SLT;
      for (int k = 0; k < 2; ++k) {
        E e = k ? c->b : c->a, o = k ? c->a : c->b;
        if (e->w > 64 || !o->isC() || e->isC()) continue;
        i128 lo, hi, v = sgn(o->v, o->w);
        interval(e, lo, hi);
        if (k && v + strict > lo) lo = v + strict;
        if (!k && v - strict < hi) hi = v - strict;
        if (lo <= hi) itv[e] = {lo, hi};
      }
    }
    bool interval(E e, i128& lo, i128& hi) {
      auto it = itv.find(e);
      if (it != itv.end()) { lo = it->second.first; hi = it->second.second; return true; }
      if (e->isC()) { lo = hi = sgn(e->v, e->w); return true; }
      if (e->w <= 64) { lo = e->lo; hi = e->hi; return true; }
      return false;
    }
    Z3_ast uns(E e) {
      i128 lo, hi;
      Z3_ast t = tr(e);
      if (interval(e, lo, hi) && lo >= 0) return t;
      return ite(lt(t, num(0)), add(t, pow2(e->w)), t);
    }
    Z3_ast inRange(Z3_ast t, unsigned w) { return and2(le(sub(num(0), pow2(w - 1)), t), lt(t, pow2(w - 1))); }
    // t modulo 2^w as a signed number; known: its value lies in [lo, hi]
    Z3_ast wrap(E e, Z3_ast t, unsigned w, bool known, i128 lo, i128 hi) {
      if (known && (w > 126 || (lo >= -((i128)1 << (w - 1)) && hi < ((i128)1 << (w - 1))))) {
        auto it = itv.find(e);
        if (it == itv.end()) itv[e] = {lo, hi};
        else { if (lo > it->second.first) it->second.first = lo; if (hi < it->second.second) it->second.second = hi; }
        return t;
      }
      Z3_ast r = newInt();
      side.push_back(inRange(r, w));
      side.push_back(imp(inRange(t, w), eq(r, t)));
      if (e->op == O_ADD || e->op == O_SUB)
        side.push_back(or2(eq(r, t), or2(eq(r, add(t, pow2(w))), eq(r, sub(t, pow2(w))))));
      else {
        Z3_ast k = newInt();
        later.push_back(eq(t, add(r, mul(k, pow2(w)))));
      }
      return r;
    }
    // floor(t / d) and the remainder, for a constant d > 0
    std::pair<Z3_ast, Z3_ast> floorDiv(Z3_ast t, Z3_ast d) {
      Z3_ast q = newInt(), r = newInt();
      side.push_back(eq(t, add(mul(q, d), r)));
      side.push_back(and2(le(num(0), r), lt(r, d)));
      return {q, r};
    }
    Z3_ast tr(E e) {
      auto it = memo.find(e);
      if (it != memo.end()) return it->second;
      Z3_ast r = tr1(e);
      memo[e] = r;
      return r;
    }
    Z3_ast tr1(E e) {
      if (!ok) return num(0);
      if (e->w == 1 && !e->isC()) return ite(tb(e), num(-1), num(0));
      i128 l1 = 0, h1 = 0, l2 = 0, h2 = 0, lo = 0, hi = 0;
      switch (e->op) {
        case O_CONST: return num(sgn(e->v, e->w));
        case O_VAR: {
          char nm[32];
          snprintf(nm, sizeof nm, "i%u", e->extra);
          Z3_ast v = keep(Z3_mk_const(z, Z3_mk_string_symbol(z, nm), isort()));
          vars[e->extra] = v;
          const VarInfo& in = gVars[e->extra];
          if (in.ranged) side.push_back(and2(le(num(in.lo), v), le(v, num(in.hi))));
          else side.push_back(inRange(v, e->w));
          return v;
        }
        case O_ADD: case O_SUB: {
          Z3_ast a = tr(e->a), b = tr(e->b);
          bool k = interval(e->a, l1, h1) && interval(e->b, l2, h2);
          if (k) k = e->op == O_ADD ? !__builtin_add_overflow(l1, l2, &lo) && !__builtin_add_overflow(h1, h2, &hi)
                                    : !__builtin_sub_overflow(l1, h2, &lo) && !__builtin_sub_overflow(h1, l2, &hi);
          return wrap(e, e->op == O_ADD ? add(a, b) : sub(a, b), e->w, k, lo, hi);
        }
        case O_MUL: {
          bool k = interval(e->a, l1, h1) && interval(e->b, l2, h2);
          // the product modulo 2^w of the unsigned numbers is the same
          bool u = unsignedMul && !e->a->isC() && !e->b->isC() && !(k && l1 >= 0 && l2 >= 0);
          Z3_ast a = u ? uns(e->a) : tr(e->a), b = u ? uns(e->b) : tr(e->b);
          if (u) k = false;
          if (k) {
            i128 p[4];
            k = !__builtin_mul_overflow(l1, l2, &p[0]) && !__builtin_mul_overflow(l1, h2, &p[1]) && !__builtin_mul_overflow(h1, l2, &p[2]) && !__builtin_mul_overflow(h1, h2, &p[3]);
            lo = hi = p[0];
            for (auto q : p) { if (q < lo) lo = q; if (q > hi) hi = q; }
          }
          Z3_ast p = e->a->isC() || e->b->isC() ? mul(a, b) : prod(a, b);
          if (!e->a->isC() && !e->b->isC()) prods.push_back({a, b, p});
          return wrap(e, p, e->w, k, lo, hi);
        }
        case O_SDIV: case O_SREM: case O_UDIV: case O_UREM: {
          bool sg = e->op == O_SDIV || e->op == O_SREM;
          // an unsigned division of numbers known to be positive is a signed one
          bool pos = interval(e->a, l1, h1) && l1 >= 0 && interval(e->b, l2, h2) && l2 >= 0;
          Z3_ast a = sg || pos ? tr(e->a) : uns(e->a), b = sg || pos ? tr(e->b) : uns(e->b);
          auto key = std::make_pair(e->a, e->b);
          if (sg || pos) { auto f = divs.find(key); if (f != divs.end()) return e->op == O_SDIV || e->op == O_UDIV ? f->second.first : f->second.second; }
          Z3_ast q = newInt(), r = newInt(), p = e->b->isC() ? mul(q, b) : prod(q, b);
          Z3_ast zero = num(0), nz = keep(Z3_mk_not(z, eq(b, zero)));
          Z3_ast absb = ite(lt(b, zero), sub(zero, b), b);
          side.push_back(imp(nz, eq(a, add(p, r))));
          side.push_back(imp(and2(nz, le(zero, a)), and2(le(zero, r), lt(r, absb))));
          side.push_back(imp(and2(nz, lt(a, zero)), and2(le(r, zero), lt(sub(zero, r), absb))));
          if (!e->b->isC()) { quots.push_back({a, b, q, p}); prods.push_back({q, b, p}); }
          if (sg || pos) divs[key] = {q, r};
          Z3_ast t = e->op == O_SDIV || e->op == O_UDIV ? q : r;
          if (!sg && !pos) return wrap(e, t, e->w, false, 0, 0);
          if (e->op == O_SDIV) return wrap(e, t, e->w, false, 0, 0);
          return t;
        }
        case O_SEXT: { Z3_ast a = tr(e->a); if (interval(e->a, lo, hi)) itv[e] = {lo, hi}; return a; }
        case O_ZEXT: {
          if (e->a->w == 1) { itv[e] = {0, 1}; return ite(tb(e->a), num(1), num(0)); }
          if (interval(e->a, lo, hi) && lo >= 0) itv[e] = {lo, hi};
          else if (e->a->w < 126) itv[e] = {0, ((i128)1 << e->a->w) - 1};
          return uns(e->a);
        }
        case O_EXTRACT: {
          Z3_ast a = tr(e->a);
          bool k = interval(e->a, lo, hi);
          if (e->extra == 0) return wrap(e, a, e->w, k, lo, hi);
          auto d = floorDiv(a, pow2(e->extra));
          return wrap(e, d.first, e->w, k, k ? lo >> e->extra : 0, k ? hi >> e->extra : 0);
        }
        case O_SHL:
          if (!e->b->isC() || e->b->v >= e->w) return fail();
          return wrap(e, mul(tr(e->a), pow2((unsigned)e->b->v)), e->w, false, 0, 0);
        case O_ASHR:
          if (!e->b->isC() || e->b->v >= e->w) return fail();
          return floorDiv(tr(e->a), pow2((unsigned)e->b->v)).first;
        case O_LSHR:
          if (!e->b->isC() || e->b->v >= e->w || e->b->v == 0) return fail();
          return floorDiv(uns(e->a), pow2((unsigned)e->b->v)).first;
        case O_AND: {
          if (!e->b->isC()) return fail();
          u128 m = e->b->v + 1;
          if (e->b->v == 0 || (m & (m - 1)) || e->b->v == maskW(e->w)) return fail();
          return floorDiv(tr(e->a), num((i128)m)).second;
        }
        case O_XOR:
          if (e->b->isC() && e->b->v == maskW(e->w)) return sub(num(-1), tr(e->a));
          return fail();
        case O_ITE: return ite(tb(e->a), tr(e->b), tr(e->c));
        default: return fail();
      }
    }
    Z3_ast tb(E e) {
      auto it = bmemo.find(e);
      if (it != bmemo.end()) return it->second;
      Z3_ast r = tb1(e);
      bmemo[e] = r;
      return r;
    }
    Z3_ast tb1(E e) {
      if (!ok) return keep(Z3_mk_true(z));
      switch (e->op) {
        case O_CONST: return keep(e->v ? Z3_mk_true(z) : Z3_mk_false(z));
        case O_EQ: return e->a->w == 1 ? keep(Z3_mk_iff(z, tb(e->a), tb(e->b))) : eq(tr(e->a), tr(e->b));
        case O_ULT: return lt(uns(e->a), uns(e->b));
        case O_ULE: return le(uns(e->a), uns(e->b));
        case O_SLT: return lt(tr(e->a), tr(e->b));
        case O_SLE: return le(tr(e->a), tr(e->b));
        case O_AND: return and2(tb(e->a), tb(e->b));
        case O_OR: return or2(tb(e->a), tb(e->b));
        case O_XOR: return keep(Z3_mk_xor(z, tb(e->a), tb(e->b)));
        case O_ITE: return ite(tb(e->a), tb(e->b), tb(e->c));
        case O_VAR: { Z3_ast x = nullptr; (void)x; ok = false; return keep(Z3_mk_true(z)); }
        case O_EXTRACT: return lt(tr1(e), num(0));
        default: ok = false; return keep(Z3_mk_true(z));
      }
    }
    // Are numbers that may have their highest bit used as unsigned ones?
    bool isUnsigned(E e, std::unordered_map<E, char>& seen) {
      if (!e || e->isC() || e->op == O_VAR) return false;
      auto it = seen.find(e);
      if (it != seen.end()) return it->second;
      i128 lo, hi;
      auto neg = [&](E x) { return !interval(x, lo, hi) || lo < 0; };
      bool h = (e->op == O_UDIV || e->op == O_UREM) && (neg(e->a) || neg(e->b));
      if (e->op == O_ZEXT && e->a->w >= 32 && !e->a->isC() && neg(e->a)) h = true;
      h = h || isUnsigned(e->a, seen) || isUnsigned(e->b, seen) || isUnsigned(e->c, seen);
      return seen[e] = h;
    }
    // x > q implies (x - q) b >= b for b > 0, and so on
    void lemmas() {
      if (prods.size() * quots.size() > 400) return;
      Z3_ast zero = num(0);
      for (auto& d : quots)
        for (auto& m : prods)
          for (int k = 0; k < 2; ++k) {
            Z3_ast x = k ? m.b : m.a, b = k ? m.a : m.b;
            if (m.p == d.p) continue;
            if (b != d.b && x == d.b) continue;
            Z3_ast diff = sub(m.p, d.p), nb = sub(zero, b), same = eq(b, d.b);
            Z3_ast bp = and2(same, lt(zero, b)), bn = and2(same, lt(b, zero)), gt = lt(d.q, x), ls = lt(x, d.q);
            side.push_back(imp(and2(bp, gt), le(b, diff)));
            side.push_back(imp(and2(bp, ls), le(diff, nb)));
            side.push_back(imp(and2(bn, gt), le(diff, b)));
            side.push_back(imp(and2(bn, ls), le(nb, diff)));
            side.push_back(imp(and2(same, eq(x, d.q)), eq(m.p, d.p)));
            side.push_back(imp(and2(same, eq(sub(x, num(1)), d.q)), eq(diff, b)));
          }
      // the quotient and the remainder are unique
      for (size_t i = 0; i < quots.size(); ++i)
        for (size_t j = 0; j < i; ++j) {
          auto &c = quots[i], &d = quots[j];
          side.push_back(imp(and2(eq(c.n, d.n), eq(c.b, d.b)), and2(eq(c.q, d.q), eq(c.p, d.p))));
        }
    }
  };
  std::unordered_map<E, char> hardMemo;
  bool hard(E e) {
    if (!e || e->isC() || e->op == O_VAR) return false;
    auto it = hardMemo.find(e);
    if (it != hardMemo.end()) return it->second;
    hardMemo[e] = 0;
    bool h = false;
    if (e->w >= 32 && (e->op == O_MUL || e->op == O_SDIV || e->op == O_UDIV || e->op == O_SREM || e->op == O_UREM) && !e->a->isC() && !e->b->isC()) {
      // narrow products are easy for bit-blasting
      auto wide = [](E x) { return x->w > 64 || x->hi - x->lo > ((i128)1 << 24); };
      h = wide(e->a) || wide(e->b);
    }
    if (!h && e->w >= 32 && (e->op == O_SDIV || e->op == O_UDIV || e->op == O_SREM || e->op == O_UREM) && !e->b->isC()) h = true;
    h = h || hard(e->a) || hard(e->b) || hard(e->c);
    hardMemo[e] = h;
    return h;
  }
  uint64_t intQueries = 0;
  // -2: the query can not be translated, or the model is not one of the bit-vectors
  // Products of unknowns are first unknown numbers themselves; each model that is
  // not one of the products adds the lemmas (tangent planes) that exclude it.
  int checkInt(const std::vector<E>& sl, E q, const Model& base, std::vector<std::pair<uint32_t, uint64_t>>& out) {
    IntTr t(*this);
    std::vector<Z3_ast> as;
    for (E e : sl) t.bound(e);
    t.bound(q);
    std::unordered_map<E, char> seen;
    t.unsignedMul = t.isUnsigned(q, seen);
    for (E e : sl) t.unsignedMul = t.unsignedMul || t.isUnsigned(e, seen);
    for (E e : sl) as.push_back(t.tb(e));
    as.push_back(t.tb(q));
    if (!t.ok) { if (getenv("ILSYM_INT")) fprintf(stderr, "int query: no translation\n"); return -2; }
    t.lemmas();
    intQueries++;
    Z3_solver si = Z3_mk_solver(z);
    Z3_solver_inc_ref(z, si);
    Z3_params p = Z3_mk_params(z);
    Z3_params_inc_ref(z, p);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), 10000);
    Z3_solver_set_params(z, si, p);
    for (Z3_ast a : as) Z3_solver_assert(z, si, a);
    for (Z3_ast a : t.side) Z3_solver_assert(z, si, a);
    int res = -2;
    auto t0 = std::chrono::steady_clock::now();
    // the values of the variables in a model of the integers, if they are one of the bit-vectors
    auto accept = [&](Z3_model m) {
      Model mm = base;
      std::vector<std::pair<uint32_t, uint64_t>> vs;
      for (auto& v : t.vars) {
        Z3_ast val;
        int64_t x = 0;
        if (Z3_model_eval(z, m, v.second, true, &val)) {
          Z3_inc_ref(z, val);
          if (!Z3_get_numeral_int64(z, val, &x)) { uint64_t u = 0; Z3_get_numeral_uint64(z, val, &u); x = (int64_t)u; }
          Z3_dec_ref(z, val);
        }
        uint64_t u = (uint64_t)x;
        if (gVars[v.first].w < 64) u &= (1ull << gVars[v.first].w) - 1;
        vs.push_back({v.first, u});
        if (mm.size() <= v.first) mm.resize(v.first + 1, 0);
        mm[v.first] = u;
      }
      bool good = cx.eval(q, mm) != 0;
      for (E e : sl) good = good && cx.eval(e, mm) != 0;
      if (good) out = vs;
      else if (getenv("ILSYM_INT2")) {
        for (auto& v : vs) fprintf(stderr, "  v%u=%ld\n", v.first, (long)v.second);
        for (E e : sl) fprintf(stderr, "  %d %s\n", (int)cx.eval(e, mm), Z3_ast_to_string(z, toBool(e)));
        fprintf(stderr, "  %d %s\n%s\n", (int)cx.eval(q, mm), Z3_ast_to_string(z, toBool(q)), Z3_model_to_string(z, m));
      }
      return good;
    };
    int round = 0;
    for (; round < 40 && res == -2; ++round) {
      Z3_lbool r = Z3_solver_check(z, si);
      if (r == Z3_L_FALSE) { res = 0; break; }
      if (r != Z3_L_TRUE) break;
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 40) break;
      Z3_model m = Z3_solver_get_model(z, si);
      Z3_model_inc_ref(z, m);
      if (accept(m)) res = 1;
      else {
        std::vector<Z3_ast> lem, fixB;
        if (round == 1) lem = t.later;
        for (auto& e : t.prodMemo) {
          Z3_ast a = e.first.first, b = e.first.second, pr = e.second, a0, b0;
          if (!Z3_model_eval(z, m, a, true, &a0)) continue;
          t.keep(a0);
          if (!Z3_model_eval(z, m, b, true, &b0)) continue;
          t.keep(b0);
          Z3_ast ab0 = t.mul(a0, b), ba0 = t.mul(b0, a), tan = t.sub(t.add(ab0, ba0), t.mul(a0, b0));
          lem.push_back(t.imp(t.eq(a, a0), t.eq(pr, ab0)));
          lem.push_back(t.imp(t.eq(b, b0), t.eq(pr, ba0)));
          Z3_ast al = t.lt(a, a0), ag = t.lt(a0, a), bl = t.lt(b, b0), bg = t.lt(b0, b);
          lem.push_back(t.imp(t.or2(t.and2(ag, bl), t.and2(al, bg)), t.lt(pr, tan)));
          lem.push_back(t.imp(t.or2(t.and2(al, bl), t.and2(ag, bg)), t.lt(tan, pr)));
          fixB.push_back(t.eq(round % 2 ? a : b, round % 2 ? a0 : b0));
        }
        for (Z3_ast l : lem) Z3_solver_assert(z, si, l);
        // is there a model with these factors?
        Z3_solver_push(z, si);
        for (Z3_ast f : fixB) Z3_solver_assert(z, si, f);
        if (Z3_solver_check(z, si) == Z3_L_TRUE) {
          Z3_model m2 = Z3_solver_get_model(z, si);
          Z3_model_inc_ref(z, m2);
          if (accept(m2)) res = 1;
          Z3_model_dec_ref(z, m2);
        }
        Z3_solver_pop(z, si, 1);
      }
      Z3_model_dec_ref(z, m);
    }
    if (getenv("ILSYM_INT")) fprintf(stderr, "int query: %d rounds=%d products=%zu %.2fs\n", res, round, t.prodMemo.size(), std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
    Z3_params_dec_ref(z, p);
    Z3_solver_dec_ref(z, si);
    return res;
  }

  struct CacheVal { int res; std::vector<std::pair<uint32_t, uint64_t>> m; };
  std::map<std::vector<uint32_t>, CacheVal> cache;

  // Is pc /\ q satisfiable?  1 sat (model updated), 0 unsat, -1 unknown.
  // base: a model of pc (pc is always satisfiable on a live path).
  int check(const std::vector<E>& pc, E q, const Model& base, Model* out) {
    st.queries++;
    if (q->isC()) {
      if (q->v && out) *out = base;
      return q->v ? 1 : 0;
    }
    if (cx.eval(q, base)) {
      st.modelHits++;
      if (out) *out = base;
      return 1;
    }
    // slice
    std::vector<char> used(pc.size(), 0);
    std::vector<uint32_t> vs = *q->vars;
    std::set<uint32_t> vset(vs.begin(), vs.end());
    std::vector<E> sl;
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.size(); ++i) {
        if (used[i]) continue;
        bool hit = false;
        for (uint32_t v : *pc[i]->vars) if (vset.count(v)) { hit = true; break; }
        if (hit) {
          used[i] = 1;
          ch = true;
          sl.push_back(pc[i]);
          vset.insert(pc[i]->vars->begin(), pc[i]->vars->end());
        }
      }
    }
    std::vector<uint32_t> key;
    for (E e : sl) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(0xffffffffu);
    key.push_back(q->id);
    auto it = cache.find(key);
    if (it == cache.end()) {
      auto t0 = std::chrono::steady_clock::now();
      st.z3calls++;
      CacheVal cv;
      bool isHard = hard(q);
      for (E e : sl) isHard = isHard || hard(e);
      if (isHard) cv.res = checkInt(sl, q, base, cv.m);
      if (!isHard || cv.res == -2) {
      Z3_solver_push(z, s);
      for (E e : sl) Z3_solver_assert(z, s, toBool(e));
      Z3_solver_assert(z, s, toBool(q));
      for (uint32_t v : vset) assertRange(v);
      Z3_lbool r = Z3_solver_check(z, s);
      cv.res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
      if (cv.res == 1) {
        Z3_model m = Z3_solver_get_model(z, s);
        Z3_model_inc_ref(z, m);
        for (uint32_t v : vset) {
          if (v >= varAst.size() || !varAst[v]) continue;
          Z3_ast val;
          uint64_t x = 0;
          if (Z3_model_eval(z, m, varAst[v], true, &val)) {
            Z3_inc_ref(z, val);
            Z3_get_numeral_uint64(z, val, &x);
            Z3_dec_ref(z, val);
          }
          cv.m.push_back({v, x});
        }
        Z3_model_dec_ref(z, m);
      }
      Z3_solver_pop(z, s, 1);
      }
      if (getenv("ILSYM_INT") && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 1) fprintf(stderr, "slow query hard=%d res=%d %.1fs\n%s\n", isHard, cv.res, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(), Z3_ast_to_string(z, toBool(q)));
      st.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (cv.res == 1) st.sat++; else if (cv.res == 0) st.unsat++; else { st.unknown++; sawUnknown = true; }
      it = cache.emplace(std::move(key), std::move(cv)).first;
    } else st.cacheHits++;
    if (it->second.res == 1 && out) {
      *out = base;
      for (auto& p : it->second.m) {
        if (out->size() <= p.first) {
          size_t o = out->size();
          out->resize(p.first + 1, 0);
          for (size_t i = o; i < out->size(); ++i) if (gVars[i].ranged) (*out)[i] = (uint64_t)gVars[i].lo;
        }
        (*out)[p.first] = p.second;
      }
      // floating-point semantics of z3 and of the host agree; double-check the model
    }
    return it->second.res;
  }
};
