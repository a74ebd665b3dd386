// ilsym: a path-forking symbolic executor for LLVM 18 bitcode.
//   ilsym module.bc --entry F --out result.json [--max-time s] [--max-steps n]
// Inputs, sizes and fault choices are symbolic variables; every branch, memory
// access, division, abort and assertion reached on a path is decided by z3 for
// all values of those variables within the ranges stated in the harness.
#include <algorithm>
#include <csignal>
#include <fstream>
#include <iterator>
#include <sstream>
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;

std::vector<VarInfo> gVars;
Ctx cx;

struct Val {
  E e = nullptr;
  uint64_t c = 0;
  std::shared_ptr<std::vector<Val>> agg;
  Val() {}
  explicit Val(uint64_t x) : c(x) {}
  bool conc() const { return !e && !agg; }
};
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : cx.C(v.c, w); }
static inline Val fromE(E e) {
  Val v;
  if (e->isC() && e->w <= 64) v.c = (uint64_t)e->v;
  else v.e = e;
  return v;
}

struct SB { E whole; uint8_t idx; };
struct Obj {
  uint64_t base, size;
  uint8_t kind;  // 0 global 1 stack 2 heap
  uint8_t fam = 0;  // 0 malloc 1 new 2 new[]
  bool ro = false;
  std::vector<uint8_t> data, st;  // st: 0 uninit 1 concrete 2 symbolic
  std::vector<SB> sym;
  std::string name;
};
typedef std::shared_ptr<Obj> ObjP;

struct Opnd { int reg = -1; Val c; };
struct DFunc;
struct DInst {
  Instruction* I;
  unsigned opc;
  int dst = -1;
  unsigned w = 0;         // result scalar width
  unsigned sw = 0;        // source scalar width
  uint64_t size = 0;
  std::vector<Opnd> ops;
  std::vector<std::pair<int, uint64_t>> gep;  // (operand index, stride)
  uint64_t gepConst = 0;
  std::vector<int> succ;
  Function* callee = nullptr;
  int ext = 0;            // external handler id
  Type* ty = nullptr;
  bool vec = false;
};
struct DBlock {
  std::vector<DInst> phis, insts;
  BasicBlock* bb;
};
struct DFunc {
  Function* F;
  std::vector<DBlock> blocks;
  int nregs = 0;
  bool inRepo = false;
  std::string file;
};

struct Frame {
  DFunc* f;
  std::vector<Val> regs;
  int bb = 0, prev = -1, ip = 0;
  std::vector<uint64_t> allocas;
  int retDst = -1;
};
struct Input { std::string name; E e; };

struct State {
  std::vector<Frame> stack;
  std::map<uint64_t, ObjP> mem;
  std::map<uint64_t, uint8_t> freed;
  std::vector<E> pc;
  Model model;
  std::vector<Input> inputs;
  std::map<std::string, int> nameCount;
  uint64_t nextAddr = 0x100000000000ull;
  uint64_t steps = 0;
  E abortOk = nullptr;
  int liveHeap = 0;
  bool allowLeak = false;
  uint64_t skew = 0;
  int undefCount = 0;
  int asserts = 0;
  std::vector<std::string> notes;
  E lastMalloc = nullptr;
  bool symMalloc = false;
  uint64_t mallocCap = (uint64_t)1 << 26;
};

struct PathEnd { std::string why; };
struct Refork {};  // re-execute the current instruction

struct Violation {
  std::string kind, msg, loc, fn;
  std::vector<std::string> stack;
  std::vector<std::pair<std::string, uint64_t>> inputs;
  std::vector<std::string> notes;
};

static std::string gRepo = "/repo";

class Exec {
 public:
  Module* M;
  const DataLayout* DL;
  Solver solver;
  std::map<const Function*, DFunc*> dfs;
  std::map<const GlobalValue*, uint64_t> gaddr;
  std::map<uint64_t, Function*> faddr;
  std::map<uint64_t, ObjP> roMem;
  std::map<uint64_t, ObjP> initMem;
  std::vector<State*> work;
  std::vector<Violation> viols;
  std::set<std::string> violKeys;
  std::set<std::string> covers;
  std::set<DFunc*> execd;
  std::set<std::pair<std::string, unsigned>> lines;
  uint64_t paths = 0, okPaths = 0, abortPaths = 0, assumeCut = 0, steps = 0, forks = 0, asserts = 0, symAsserts = 0;
  uint64_t maxSteps = 3000000;
  double maxTime = 300;
  unsigned maxViol = 6;
  bool incomplete = false;
  std::string incompleteWhy;
  std::chrono::steady_clock::time_point t0;
  std::vector<uint64_t> replayVals;
  bool concrete = false;
  size_t maxStates = 0;

  explicit Exec(unsigned tmo) : solver(tmo) {}

  [[noreturn]] void die(const std::string& s) {
    throw std::string(s);
  }
  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  // ---------------------------------------------------------------- types --
  unsigned widthOf(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    return 0;
  }

  // ------------------------------------------------------------- constants --
  Val constVal(const Constant* c) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue());
      if (ci->getBitWidth() > 128) die("wide constant");
      APInt a = ci->getValue();
      u128 v = a.extractBitsAsZExtValue(64, 0);
      v |= (u128)a.extractBitsAsZExtValue(ci->getBitWidth() - 64, 64) << 64;
      Val r; r.e = cx.C(v, ci->getBitWidth());
      return r;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
      if (!t->isFloatTy() && !t->isDoubleTy()) return Val(0);
      return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue());
    }
    if (isa<ConstantPointerNull>(c)) return Val(0);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
      if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        Val v;
        v.agg = std::make_shared<std::vector<Val>>();
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; ++i) {
          Type* et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
          v.agg->push_back(constVal(isa<UndefValue>(c) ? (Constant*)UndefValue::get(et) : Constant::getNullValue(et)));
        }
        return v;
      }
      unsigned w = widthOf(t);
      if (w > 64) { Val r; r.e = cx.C(0, w); return r; }
      return Val(0);
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
      Val v;
      v.agg = std::make_shared<std::vector<Val>>();
      for (auto& op : ca->operands()) v.agg->push_back(constVal(cast<Constant>(op)));
      return v;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      Val v;
      v.agg = std::make_shared<std::vector<Val>>();
      for (unsigned i = 0; i < cd->getNumElements(); ++i) v.agg->push_back(constVal(cd->getElementAsConstant(i)));
      return v;
    }
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
      if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
      auto it = gaddr.find(gv);
      if (it == gaddr.end()) die("unknown global " + gv->getName().str());
      return Val(it->second);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
          APInt off(64, 0);
          auto* g = cast<GEPOperator>(ce);
          if (!g->accumulateConstantOffset(*DL, off)) die("const gep");
          return Val(constVal(cast<Constant>(g->getPointerOperand())).c + off.getSExtValue());
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
          Val v = constVal(ce->getOperand(0));
          unsigned w = widthOf(t);
          if (w && w < 64) v.c &= (1ull << w) - 1;
          return v;
        }
        case Instruction::Sub: return Val(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
        case Instruction::Add: return Val(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
        case Instruction::ICmp: {
          unsigned w = widthOf(ce->getOperand(0)->getType());
          uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c;
          if (!w || w > 64) w = 64;
          return Val((uint64_t)ICmpInst::compare(APInt(w, a), APInt(w, b), (ICmpInst::Predicate)ce->getPredicate()));
        }
        default: {
          std::string s; raw_string_ostream os(s); c->print(os);
          die("const expr " + os.str());
        }
      }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    die("constant " + os.str());
  }

  // ---------------------------------------------------------------- memory --
  ObjP newObj(uint64_t base, uint64_t size, int kind, const std::string& name) {
    auto o = std::make_shared<Obj>();
    o->base = base; o->size = size; o->kind = kind; o->name = name;
    o->data.resize(size); o->st.resize(size);
    return o;
  }
  void initGlobal(Obj& o, const Constant* c, uint64_t off) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) {
      uint64_t n = DL->getTypeAllocSize(t);
      for (uint64_t i = 0; i < n; ++i) { o.data[off + i] = 0; o.st[off + i] = 1; }
      return;
    }
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
      auto* sl = DL->getStructLayout(cast<StructType>(t));
      for (unsigned i = 0; i < s->getNumOperands(); ++i) initGlobal(o, s->getOperand(i), off + sl->getElementOffset(i));
      return;
    }
    if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
      Type* et = cast<Constant>(c->getOperand(0))->getType();
      uint64_t es = DL->getTypeAllocSize(et);
      for (unsigned i = 0; i < c->getNumOperands(); ++i) initGlobal(o, cast<Constant>(c->getOperand(i)), off + i * es);
      return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      StringRef r = cd->getRawDataValues();
      for (size_t i = 0; i < r.size(); ++i) { o.data[off + i] = (uint8_t)r[i]; o.st[off + i] = 1; }
      return;
    }
    Val v = constVal(c);
    unsigned n = DL->getTypeStoreSize(t);
    E e = toE(v, n * 8 > 64 ? (unsigned)widthOf(t) : n * 8);
    for (unsigned i = 0; i < n; ++i) { o.data[off + i] = (uint8_t)(e->v >> (8 * i)); o.st[off + i] = 1; }
  }
  void setupGlobals() {
    uint64_t fa = 0x10000;
    for (auto& F : *M) { gaddr[&F] = fa; faddr[fa] = &F; fa += 16; }
    uint64_t a = 0x200000000000ull;
    for (auto& G : M->globals()) {
      uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0;
      gaddr[&G] = a;
      a += ((sz + 0x10000) & ~0xffffull) + 0x10000;
    }
    for (auto& G : M->globals()) {
      uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0;
      auto o = newObj(gaddr[&G], sz, 0, G.getName().str());
      if (G.hasInitializer()) {
        try { initGlobal(*o, G.getInitializer(), 0); } catch (std::string& s) {
          if (G.getName() != "llvm.global_ctors") throw;
        }
      } else for (auto& b : o->st) b = 1;
      for (auto& b : o->st) b = 1;
      o->ro = G.isConstant();
      (G.isConstant() ? roMem : initMem)[o->base] = o;
    }
  }
  Obj* findIn(std::map<uint64_t, ObjP>& m, uint64_t a, bool edge = false) {
    auto it = m.upper_bound(a);
    if (it == m.begin()) return nullptr;
    --it;
    Obj* o = it->second.get();
    if (a < o->base + o->size || (edge && a == o->base + o->size)) return o;
    return nullptr;
  }
  Obj* find(State& S, uint64_t a, bool edge = false) {
    Obj* o = findIn(S.mem, a, edge);
    return o ? o : findIn(roMem, a, edge);
  }
  Obj* writable(State& S, Obj* o) {
    auto it = S.mem.find(o->base);
    if (it == S.mem.end()) return nullptr;
    if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
    return it->second.get();
  }
  uint64_t allocAddr(State& S, uint64_t size, uint64_t skew) {
    uint64_t b = S.nextAddr + skew;
    S.nextAddr += ((size + skew + 0x1ffff) & ~0xffffull) + 0x100000;
    return b;
  }
  uint64_t mallocObj(State& S, uint64_t size, const char* nm) {
    uint64_t b = allocAddr(S, size, S.skew);
    S.mem[b] = newObj(b, size, 2, nm);
    S.liveHeap++;
    return b;
  }
  static int family(StringRef n, const char* one, const char* many) { return n.starts_with(one) ? 1 : n.starts_with(many) ? 2 : 0; }
  void freeObj(State& S, uint64_t p, const char* what, int fam = 0) {
    if (!p) return;
    auto it = S.mem.find(p);
    if (it == S.mem.end() || it->second->kind != 2) {
      if (S.freed.count(p)) violate(S, "double-free", std::string(what) + " of a block already released");
      else violate(S, "bad-free", std::string(what) + " of a pointer that is not the start of a live heap block");
    }
    if (it->second->fam != fam) {
      static const char* nm[] = {"malloc", "new", "new[]"};
      violate(S, "bad-free", std::string(what) + " of a block obtained by " + nm[it->second->fam]);
    }
    S.mem.erase(it);
    S.freed[p] = 1;
    S.liveHeap--;
  }

  E undefVar(State& S, unsigned w) {
    char nm[32];
    snprintf(nm, sizeof nm, "undef#%d", S.undefCount++);
    return cx.var(nm, w, false, 0, 0, true);
  }
  // read n bytes (n<=16) at offset off
  Val loadBytes(State& S, Obj* o, uint64_t off, unsigned n, unsigned w) {
    bool allc = true;
    for (unsigned i = 0; i < n; ++i) if (o->st[off + i] != 1) { allc = false; break; }
    if (allc) {
      if (n <= 8) {
        uint64_t v = 0;
        memcpy(&v, &o->data[off], n);
        if (w < 64) v &= ((1ull << w) - 1);
        return Val(v);
      }
      u128 v = 0;
      for (unsigned i = 0; i < n; ++i) v |= (u128)o->data[off + i] << (8 * i);
      return fromE(cx.C(v, w));
    }
    bool whole = o->st[off] == 2 && o->sym[off].idx == 0 && o->sym[off].whole->w == n * 8;
    if (whole)
      for (unsigned i = 1; i < n; ++i)
        if (o->st[off + i] != 2 || o->sym[off + i].whole != o->sym[off].whole || o->sym[off + i].idx != i) { whole = false; break; }
    E r = nullptr;
    if (whole) r = o->sym[off].whole;
    else {
      for (int i = (int)n - 1; i >= 0; --i) {
        E b;
        uint8_t st = o->st[off + i];
        if (st == 1) b = cx.C(o->data[off + i], 8);
        else if (st == 2) b = cx.extract(o->sym[off + i].whole, o->sym[off + i].idx * 8, 8);
        else b = undefVar(S, 8);
        r = r ? cx.concat(r, b) : b;
      }
    }
    if (w < n * 8) r = cx.extract(r, 0, w);
    return fromE(r);
  }
  void storeBytes(Obj* o, uint64_t off, unsigned n, const Val& v, unsigned w) {
    if (v.conc()) {
      memcpy(&o->data[off], &v.c, n < 8 ? n : 8);
      for (unsigned i = 8; i < n; ++i) o->data[off + i] = 0;
      memset(&o->st[off], 1, n);
      return;
    }
    E e = v.e;
    if (e->w < n * 8) e = cx.zext(e, n * 8);
    if (e->isC()) {
      for (unsigned i = 0; i < n; ++i) { o->data[off + i] = (uint8_t)(e->v >> (8 * i)); o->st[off + i] = 1; }
      return;
    }
    if (o->sym.size() != o->size) o->sym.resize(o->size);
    for (unsigned i = 0; i < n; ++i) { o->sym[off + i] = SB{e, (uint8_t)i}; o->st[off + i] = 2; }
  }
  static unsigned tz(E e) {  // trailing zero bits
    switch (e->op) {
      case O_CONST: { if (!e->v) return 64; unsigned k = 0; u128 v = e->v; while (!(v & 1)) { v >>= 1; ++k; } return k; }
      case O_MUL: return tz(e->a) + tz(e->b);
      case O_ADD: case O_SUB: case O_OR: case O_XOR: return std::min(tz(e->a), tz(e->b));
      case O_AND: return std::max(tz(e->a), tz(e->b));
      case O_ITE: return std::min(tz(e->b), tz(e->c));
      case O_ZEXT: case O_SEXT: return tz(e->a) >= e->a->w ? 64 : tz(e->a);
      case O_CONCAT: { unsigned t = tz(e->b); return t >= e->b->w ? e->b->w + tz(e->a) : t; }
      default: return 0;
    }
  }

  // -------------------------------------------------------------- solving --
  bool may(State& S, E q, Model* out = nullptr) {
    int r = solver.check(S.pc, q, S.model, out);
    // No answer: the run is reported as incomplete, which is an error, but no
    // violation is made up and no path is explored without a model.
    if (r < 0) { incomplete = true; incompleteWhy = "solver returned unknown"; return false; }
    return r == 1;
  }
  void addPc(State& S, E c) { if (!c->isC()) S.pc.push_back(c); }
  State* clone(State& S) { forks++; return new State(S); }
  void push(State* n) { work.push_back(n); if (work.size() > maxStates) maxStates = work.size(); }

  // make e concrete on this path, forking the remaining values
  uint64_t concretize(State& S, E e) {
    if (e->isC()) return (uint64_t)e->v;
    uint64_t v = (uint64_t)cx.eval(e, S.model);
    E eq = cx.Eq(e, cx.C(v, e->w));
    if (eq->isC()) return v;
    Model m;
    if (may(S, cx.Not(eq), &m)) {
      if (e->undef) violate(S, "uninitialised", "a size or address depends on an uninitialised value");
      State* n = clone(S);
      addPc(*n, cx.Not(eq));
      n->model = m;
      push(n);
    }
    addPc(S, eq);
    return v;
  }
  uint64_t conc(State& S, const Val& v) { return v.conc() ? v.c : concretize(S, v.e); }

  // decide a branch; returns taken side, forks the other
  bool decide(State& S, E c) {
    if (c->isC()) return c->v;
    bool cur = cx.eval(c, S.model) != 0;
    E other = cur ? cx.Not(c) : c;
    Model m;
    if (may(S, other, &m)) {
      if (c->undef) violate(S, "uninitialised", "a branch depends on an uninitialised value");
      State* n = clone(S);
      addPc(*n, other);
      n->model = m;
      push(n);
      addPc(S, cur ? c : cx.Not(c));
    }
    return cur;
  }

  std::string locOf(Instruction* I) {
    if (!I) return "?";
    const DILocation* d = I->getDebugLoc().get();
    if (!d) return I->getFunction()->getName().str();
    std::string f = d->getFilename().str();
    if (f.empty()) return "?";
    if (f[0] != '/' && !d->getDirectory().empty()) f = d->getDirectory().str() + "/" + f;
    return f + ":" + std::to_string(d->getLine());
  }
  Instruction* curI(Frame& f) {
    DBlock& b = f.f->blocks[f.bb];
    int ip = f.ip < (int)b.insts.size() ? f.ip : (int)b.insts.size() - 1;
    return b.insts[ip].I;
  }
  [[noreturn]] void violate(State& S, const std::string& kind, const std::string& msg, const Model* m = nullptr) {
    Violation v;
    v.kind = kind;
    v.msg = msg;
    std::string key = kind + "|";
    for (int i = (int)S.stack.size() - 1; i >= 0; --i) {
      Frame& f = S.stack[i];
      std::string l = locOf(curI(f));
      v.stack.push_back(f.f->F->getName().str() + " @ " + l);
      if (v.loc.empty() && f.f->inRepo) { v.loc = l; v.fn = f.f->F->getName().str(); }
      if ((int)S.stack.size() - i <= 4) key += l + "|";
    }
    if (kind == "assert") key += msg;
    const Model& mm = m ? *m : S.model;
    for (auto& in : S.inputs) v.inputs.push_back({in.name, (uint64_t)cx.eval(in.e, mm)});
    v.notes = S.notes;
    if (violKeys.insert(key).second) viols.push_back(v);
    throw PathEnd{"violation"};
  }
  void check(State& S, E c, const char* kind, const std::string& msg) {
    // c must hold on every continuation
    asserts++;
    if (c->isC()) {
      if (!c->v) violate(S, kind, msg);
      return;
    }
    // a conjunction is checked part by part
    if (c->op == O_AND && c->w == 1) {
      check(S, c->a, kind, msg);
      check(S, c->b, kind, msg);
      return;
    }
    symAsserts++;
    Model m;
    if (may(S, cx.Not(c), &m)) {
      if (c->undef) violate(S, "uninitialised", std::string("checked value depends on uninitialised memory: ") + msg, &m);
      violate(S, kind, msg, &m);
    }
  }

  // resolve a (possibly symbolic) address for an access of n bytes
  // returns object and offset; if ite is non-null, symbolic candidates returned
  Obj* resolve(State& S, const Val& av, uint64_t n, bool write, uint64_t& off, std::vector<uint64_t>* cand, E* symAddr) {
    uint64_t a;
    if (av.conc()) a = av.c;
    else {
      E e = av.e;
      a = (uint64_t)cx.eval(e, S.model);
      Obj* o = find(S, a);
      if (!o || a + n > o->base + o->size) oob(S, a, n, write);
      E in = cx.And(cx.bin(O_ULE, cx.C(o->base, 64), e), cx.bin(O_ULE, e, cx.C(o->base + o->size - n, 64)));
      Model m;
      if (!in->isC() && may(S, cx.Not(in), &m)) {
        State* x = clone(S);
        addPc(*x, cx.Not(in));
        x->model = m;
        push(x);
        addPc(S, in);
      }
      if (cand) {
        unsigned k = tz(cx.bin(O_SUB, e, cx.C(o->base, 64)));
        uint64_t step = k >= 63 ? 1 : (1ull << k);
        uint64_t lo = 0, hi = o->size - n;
        E oe = cx.bin(O_SUB, e, cx.C(o->base, 64));
        if (oe->lo > 0) lo = (uint64_t)oe->lo;
        if (oe->hi < (i128)hi && oe->hi >= 0) hi = (uint64_t)oe->hi;
        lo = (lo + step - 1) / step * step;
        if (lo <= hi && (hi - lo) / step + 1 <= 96) {
          for (uint64_t q = lo; q <= hi; q += step) cand->push_back(q);
          if (cand->size() == 1) { off = (*cand)[0]; cand->clear(); return o; }
          *symAddr = e;
          return o;
        }
      }
      a = concretize(S, e);
    }
    Obj* o = find(S, a);
    if (!o || a + n > o->base + o->size) {
      if (n == 0) { off = 0; return nullptr; }
      oob(S, a, n, write);
    }
    if (write && o->ro) violate(S, "write-const", "write to constant memory " + o->name);
    off = a - o->base;
    return o;
  }
  [[noreturn]] void oob(State& S, uint64_t a, uint64_t n, bool write) {
    std::string w = write ? "write" : "read";
    char buf[200];
    if (a < 0x10000) { snprintf(buf, sizeof buf, "%s of %lu bytes through a null pointer (address 0x%lx)", w.c_str(), (unsigned long)n, (unsigned long)a); violate(S, "null-deref", buf); }
    auto it = S.freed.upper_bound(a);
    // nearest live object below
    auto jt = S.mem.upper_bound(a);
    uint64_t bl = 0, bf = 0;
    if (jt != S.mem.begin()) { --jt; bl = jt->first; }
    if (it != S.freed.begin()) { --it; bf = it->first; }
    if (bf > bl) { snprintf(buf, sizeof buf, "%s of %lu bytes in a released heap block (offset %ld)", w.c_str(), (unsigned long)n, (long)(a - bf)); violate(S, "use-after-free", buf); }
    snprintf(buf, sizeof buf, "%s of %lu bytes out of bounds: offset %ld in a block of %lu bytes", w.c_str(), (unsigned long)n, bl ? (long)(a - bl) : (long)a, bl ? (unsigned long)S.mem[bl]->size : 0ul);
    violate(S, "out-of-bounds", buf);
  }
  Val loadScalar(State& S, const Val& addr, Type* t) {
    unsigned w = widthOf(t);
    if (!w) die("load of unsupported type");
    unsigned n = (w + 7) / 8;
    uint64_t off;
    std::vector<uint64_t> cand;
    E sa = nullptr;
    Obj* o = resolve(S, addr, n, false, off, &cand, &sa);
    if (cand.empty()) return loadBytes(S, o, off, n, w);
    E r = nullptr;
    for (int i = (int)cand.size() - 1; i >= 0; --i) {
      E v = toE(loadBytes(S, o, cand[i], n, w), w);
      // an uninitialised candidate taints only the paths that read it
      if (v->undef) { off = concretize(S, sa) - o->base; return loadBytes(S, o, off, n, w); }
      r = r ? cx.ite(cx.Eq(sa, cx.C(o->base + cand[i], 64)), v, r) : v;
    }
    return fromE(r);
  }
  Val load(State& S, const Val& addr, Type* t) {
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
      Val a = addr;
      if (!a.conc()) a = Val(concretize(S, a.e));
      Val r;
      r.agg = std::make_shared<std::vector<Val>>();
      if (t->isStructTy()) {
        auto* sl = DL->getStructLayout(cast<StructType>(t));
        for (unsigned i = 0; i < t->getStructNumElements(); ++i) r.agg->push_back(load(S, Val(a.c + sl->getElementOffset(i)), t->getStructElementType(i)));
      } else {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        uint64_t es = DL->getTypeAllocSize(et);
        for (unsigned i = 0; i < n; ++i) r.agg->push_back(load(S, Val(a.c + i * es), et));
      }
      return r;
    }
    return loadScalar(S, addr, t);
  }
  void store(State& S, const Val& addr, const Val& v, Type* t) {
    if (v.agg) {
      Val a = addr;
      if (!a.conc()) a = Val(concretize(S, a.e));
      if (t->isStructTy()) {
        auto* sl = DL->getStructLayout(cast<StructType>(t));
        for (unsigned i = 0; i < t->getStructNumElements(); ++i) store(S, Val(a.c + sl->getElementOffset(i)), (*v.agg)[i], t->getStructElementType(i));
      } else {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
        uint64_t es = DL->getTypeAllocSize(et);
        for (unsigned i = 0; i < v.agg->size(); ++i) store(S, Val(a.c + i * es), (*v.agg)[i], et);
      }
      return;
    }
    unsigned w = widthOf(t);
    if (!w) die("store of unsupported type");
    unsigned n = (w + 7) / 8;
    uint64_t off;
    std::vector<uint64_t> cand;
    E sa = nullptr;
    Obj* o = resolve(S, addr, n, true, off, &cand, &sa);
    if (!cand.empty()) {
      // symbolic destination inside one object: conditional update; all candidate bytes must be initialised
      bool ok = !o->ro;
      for (uint64_t q : cand) for (unsigned i = 0; i < n; ++i) if (o->st[q + i] == 0) ok = false;
      if (ok) {
        o = writable(S, o);
        E nv = toE(v, w);
        for (uint64_t q : cand) {
          E old = toE(loadBytes(S, o, q, n, w), w);
          storeBytes(o, q, n, fromE(cx.ite(cx.Eq(sa, cx.C(o->base + q, 64)), nv, old)), w);
        }
        return;
      }
      uint64_t a = concretize(S, sa);
      off = a - o->base;
    }
    if (o->ro) violate(S, "write-const", "write to constant memory " + o->name);
    o = writable(S, o);
    storeBytes(o, off, n, v, w);
  }
  void memCopy(State& S, uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    uint64_t so, dof;
    Obj* src = resolve(S, Val(s), n, false, so, nullptr, nullptr);
    Obj* dst = resolve(S, Val(d), n, true, dof, nullptr, nullptr);
    ObjP keep;
    dst = writable(S, dst);
    src = find(S, s);
    std::vector<uint8_t> td(src->data.begin() + so, src->data.begin() + so + n), ts(src->st.begin() + so, src->st.begin() + so + n);
    bool anySym = false;
    for (auto x : ts) if (x == 2) { anySym = true; break; }
    std::vector<SB> tb;
    if (anySym) tb.assign(src->sym.begin() + so, src->sym.begin() + so + n);
    memcpy(&dst->data[dof], td.data(), n);
    memcpy(&dst->st[dof], ts.data(), n);
    if (anySym) {
      if (dst->sym.size() != dst->size) dst->sym.resize(dst->size);
      std::copy(tb.begin(), tb.end(), dst->sym.begin() + dof);
    }
  }
  std::string cstr(State& S, uint64_t a) {
    std::string r;
    for (;;) {
      Obj* o = find(S, a);
      if (!o) return r;
      uint64_t off = a - o->base;
      if (o->st[off] != 1 || !o->data[off]) return r;
      r += (char)o->data[off];
      ++a;
    }
  }

  // every byte of a C string is known
  bool allConc(State& S, uint64_t a) {
    for (;; ++a) {
      Obj* o = find(S, a);
      if (!o) return false;
      uint64_t off = a - o->base;
      if (o->st[off] != 1) return false;
      if (!o->data[off]) return true;
    }
  }

  // ---------------------------------------------------------------- decode --
  enum Ext {
    X_NONE = 0, X_UNKNOWN, X_IGNORE, X_MALLOC, X_CALLOC, X_REALLOC, X_FREE, X_ABORT, X_THROW, X_UBTRAP,
    X_VP_SYM, X_VP_ASSUME, X_VP_ASSERT, X_VP_COVER, X_VP_CONC, X_VP_ABORTOK, X_VP_LIVE, X_VP_ALLOWLEAK,
    X_VP_FAIL, X_VP_SKEW, X_VP_OBJSIZE, X_VP_NOTE, X_VP_SYMMALLOC, X_VP_LASTMALLOC, X_VP_ISINIT, X_VP_NATIVE, X_VP_VALID, X_VP_SIZELEFT,
    X_SPRINTF, X_SNPRINTF, X_GUARD_ACQ, X_EXIT, X_SQRT, X_FABS, X_FLOOR, X_VP_NEED, X_CEIL, X_TRUNC, X_FMIN, X_FMAX, X_RET0, X_VP_MALLOCCAP, X_VP_UNINIT,
    X_FPRINTF, X_VP_ALLCONC, X_VP_HOSTATOF, X_VP_HOSTATOFLEN,
  };
  int extId(StringRef n) {
    static const std::map<std::string, int> t = {
        {"malloc", X_MALLOC}, {"_Znwm", X_MALLOC}, {"_Znam", X_MALLOC}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC},
        {"_ZnwmRKSt9nothrow_t", X_MALLOC}, {"_ZnamRKSt9nothrow_t", X_MALLOC},
        {"free", X_FREE}, {"_ZdlPv", X_FREE}, {"_ZdlPvm", X_FREE}, {"_ZdaPv", X_FREE}, {"_ZdaPvm", X_FREE},
        {"abort", X_ABORT}, {"__assert_fail", X_ABORT}, {"__cxa_throw", X_THROW}, {"_Unwind_Resume", X_THROW}, {"_ZSt9terminatev", X_ABORT},
        {"__cxa_pure_virtual", X_ABORT}, {"_ZSt20__throw_length_errorPKc", X_THROW}, {"_ZSt17__throw_bad_allocv", X_THROW},
        {"_ZSt28__throw_bad_array_new_lengthv", X_THROW}, {"_ZSt19__throw_logic_errorPKc", X_THROW},
        {"exit", X_EXIT}, {"_exit", X_EXIT},
        {"vp_sym", X_VP_SYM}, {"vp_assume_", X_VP_ASSUME}, {"vp_assert_", X_VP_ASSERT}, {"vp_cover_", X_VP_COVER},
        {"vp_concretize", X_VP_CONC}, {"vp_abort_ok_", X_VP_ABORTOK}, {"vp_live", X_VP_LIVE}, {"vp_allow_leak", X_VP_ALLOWLEAK},
        {"vp_fail", X_VP_FAIL}, {"vp_malloc_skew", X_VP_SKEW}, {"vp_heap_size", X_VP_OBJSIZE}, {"vp_note", X_VP_NOTE},
        {"vp_sym_malloc", X_VP_SYMMALLOC}, {"vp_last_malloc", X_VP_LASTMALLOC}, {"vp_is_init", X_VP_ISINIT}, {"vp_need", X_VP_NEED}, {"vp_native", X_VP_NATIVE},
        {"vp_valid", X_VP_VALID}, {"vp_bytes_left", X_VP_SIZELEFT}, {"vp_malloc_cap", X_VP_MALLOCCAP}, {"vp_make_uninit", X_VP_UNINIT},
        {"sprintf", X_SPRINTF}, {"snprintf", X_SNPRINTF}, {"__cxa_guard_acquire", X_GUARD_ACQ},
        {"__cxa_guard_release", X_IGNORE}, {"__cxa_atexit", X_RET0}, {"printf", X_RET0}, {"puts", X_RET0}, {"fprintf", X_FPRINTF}, {"vp_all_concrete", X_VP_ALLCONC}, {"vp_host_atof", X_VP_HOSTATOF}, {"vp_host_atof_length", X_VP_HOSTATOFLEN}, {"putchar", X_RET0}, {"fflush", X_RET0},
        {"_ZNSt8ios_base4InitC1Ev", X_IGNORE}, {"_ZNSt8ios_base4InitD1Ev", X_IGNORE},
        {"sqrt", X_SQRT}, {"sqrtf", X_SQRT}, {"fabs", X_FABS}, {"fabsf", X_FABS}, {"floor", X_FLOOR}, {"floorf", X_FLOOR},
        {"ceil", X_CEIL}, {"ceilf", X_CEIL}, {"trunc", X_TRUNC}, {"truncf", X_TRUNC}, {"fmin", X_FMIN}, {"fminf", X_FMIN}, {"fmax", X_FMAX}, {"fmaxf", X_FMAX},
    };
    auto it = t.find(n.str());
    return it == t.end() ? X_UNKNOWN : it->second;
  }
  Opnd opnd(Value* v, std::map<Value*, int>& num) {
    Opnd o;
    if (auto* c = dyn_cast<Constant>(v)) {
      o.c = constVal(c);
      return o;
    }
    auto it = num.find(v);
    if (it != num.end()) o.reg = it->second;
    return o;  // metadata etc. stay as 0
  }
  DFunc* getF(Function* F) {
    auto it = dfs.find(F);
    if (it != dfs.end()) return it->second;
    DFunc* d = new DFunc;
    dfs[F] = d;
    d->F = F;
    if (auto* sp = F->getSubprogram()) {
      std::string f = sp->getFilename().str();
      if (!f.empty() && f[0] != '/') f = sp->getDirectory().str() + "/" + f;
      d->file = f;
      d->inRepo = f.compare(0, gRepo.size(), gRepo) == 0;
    }
    std::map<Value*, int> num;
    int k = 0;
    for (auto& a : F->args()) num[&a] = k++;
    std::map<BasicBlock*, int> bbi;
    int nb = 0;
    for (auto& B : *F) {
      bbi[&B] = nb++;
      for (auto& I : B) if (!I.getType()->isVoidTy()) num[&I] = k++;
    }
    d->nregs = k;
    d->blocks.resize(nb);
    for (auto& B : *F) {
      DBlock& db = d->blocks[bbi[&B]];
      db.bb = &B;
      for (auto& I : B) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        DInst x;
        x.I = &I;
        x.opc = I.getOpcode();
        if (!I.getType()->isVoidTy()) x.dst = num[&I];
        x.ty = I.getType();
        x.w = widthOf(I.getType());
        if (auto* phi = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i) {
            x.ops.push_back(opnd(phi->getIncomingValue(i), num));
            x.succ.push_back(bbi[phi->getIncomingBlock(i)]);
          }
          db.phis.push_back(x);
          continue;
        }
        if (auto* cb = dyn_cast<CallBase>(&I)) {
          for (auto& a : cb->args()) {
            Opnd o;
            if (!isa<MetadataAsValue>(a.get())) o = opnd(a.get(), num);
            x.ops.push_back(o);
          }
          Value* cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
          x.callee = dyn_cast<Function>(cv);
          if (!x.callee) x.ops.push_back(opnd(cb->getCalledOperand(), num));
          else if (x.callee->isDeclaration() && !x.callee->isIntrinsic()) x.ext = extId(x.callee->getName());
          else if (!x.callee->isIntrinsic()) { int e = extId(x.callee->getName()); if (e != X_UNKNOWN) x.ext = e; }
          if (auto* inv = dyn_cast<InvokeInst>(&I)) x.succ.push_back(bbi[inv->getNormalDest()]);
          db.insts.push_back(x);
          continue;
        }
        if (auto* br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) x.ops.push_back(opnd(br->getCondition(), num));
          for (unsigned i = 0; i < br->getNumSuccessors(); ++i) x.succ.push_back(bbi[br->getSuccessor(i)]);
          db.insts.push_back(x);
          continue;
        }
        if (auto* sw = dyn_cast<SwitchInst>(&I)) {
          x.ops.push_back(opnd(sw->getCondition(), num));
          x.sw = widthOf(sw->getCondition()->getType());
          x.succ.push_back(bbi[sw->getDefaultDest()]);
          for (auto& c : sw->cases()) {
            x.ops.push_back(opnd(c.getCaseValue(), num));
            x.succ.push_back(bbi[c.getCaseSuccessor()]);
          }
          db.insts.push_back(x);
          continue;
        }
        if (isa<LandingPadInst>(&I) || isa<ResumeInst>(&I)) { db.insts.push_back(x); continue; }
        for (auto& op : I.operands()) x.ops.push_back(opnd(op.get(), num));
        if (I.getNumOperands() > 0) {
          Type* st = I.getOperand(0)->getType();
          x.sw = widthOf(st);
          if (st->isVectorTy() || I.getType()->isVectorTy()) x.vec = true;
        }
        if (auto* al = dyn_cast<AllocaInst>(&I)) x.size = DL->getTypeAllocSize(al->getAllocatedType());
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
          unsigned oi = 1;
          for (auto gt = gep_type_begin(g), ge = gep_type_end(g); gt != ge; ++gt, ++oi) {
            if (StructType* st = gt.getStructTypeOrNull()) {
              unsigned f = cast<ConstantInt>(gt.getOperand())->getZExtValue();
              x.gepConst += DL->getStructLayout(st)->getElementOffset(f);
            } else {
              uint64_t stride = DL->getTypeAllocSize(gt.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(gt.getOperand())) x.gepConst += (uint64_t)(ci->getSExtValue() * (int64_t)stride);
              else x.gep.push_back({(int)oi, stride});
            }
          }
          x.vec = false;
          x.sw = 0;
        }
        db.insts.push_back(x);
      }
    }
    return d;
  }

  const Val& get(Frame& f, const Opnd& o) { return o.reg >= 0 ? f.regs[o.reg] : o.c; }

  // -------------------------------------------------------------- arithmetic
  Val binop(State& S, unsigned opc, const Val& a, const Val& b, unsigned w, bool isF) {
    if (isF) {
      Op op = opc == Instruction::FAdd ? O_FADD : opc == Instruction::FSub ? O_FSUB : opc == Instruction::FMul ? O_FMUL : opc == Instruction::FDiv ? O_FDIV : O_FREM;
      return fromE(cx.bin(op, toE(a, w), toE(b, w)));
    }
    if (a.conc() && b.conc() && w <= 64) {
      uint64_t m = w == 64 ? ~0ull : ((1ull << w) - 1), x = a.c, y = b.c;
      switch (opc) {
        case Instruction::Add: return Val((x + y) & m);
        case Instruction::Sub: return Val((x - y) & m);
        case Instruction::Mul: return Val((x * y) & m);
        case Instruction::And: return Val(x & y);
        case Instruction::Or: return Val(x | y);
        case Instruction::Xor: return Val(x ^ y);
        default: break;
      }
    }
    Op op;
    switch (opc) {
      case Instruction::Add: op = O_ADD; break;
      case Instruction::Sub: op = O_SUB; break;
      case Instruction::Mul: op = O_MUL; break;
      case Instruction::UDiv: op = O_UDIV; break;
      case Instruction::SDiv: op = O_SDIV; break;
      case Instruction::URem: op = O_UREM; break;
      case Instruction::SRem: op = O_SREM; break;
      case Instruction::And: op = O_AND; break;
      case Instruction::Or: op = O_OR; break;
      case Instruction::Xor: op = O_XOR; break;
      case Instruction::Shl: op = O_SHL; break;
      case Instruction::LShr: op = O_LSHR; break;
      case Instruction::AShr: op = O_ASHR; break;
      default: die("binop");
    }
    E x = toE(a, w), y = toE(b, w);
    if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) {
      check(S, cx.Not(cx.Eq(y, cx.C(0, w))), "div-by-zero", "integer division by zero");
      if ((op == O_SDIV || op == O_SREM) && !(y->isC() && sgn(y->v, w) != -1))
        check(S, cx.Not(cx.And(cx.Eq(y, cx.C(maskW(w), w)), cx.Eq(x, cx.C((u128)1 << (w - 1), w)))), "overflow", "signed division overflow");
    }
    return fromE(cx.bin(op, x, y));
  }
  E icmp(CmpInst::Predicate p, E a, E b) {
    switch (p) {
      case CmpInst::ICMP_EQ: return cx.Eq(a, b);
      case CmpInst::ICMP_NE: return cx.Not(cx.Eq(a, b));
      case CmpInst::ICMP_ULT: return cx.bin(O_ULT, a, b);
      case CmpInst::ICMP_ULE: return cx.bin(O_ULE, a, b);
      case CmpInst::ICMP_UGT: return cx.bin(O_ULT, b, a);
      case CmpInst::ICMP_UGE: return cx.bin(O_ULE, b, a);
      case CmpInst::ICMP_SLT: return cx.bin(O_SLT, a, b);
      case CmpInst::ICMP_SLE: return cx.bin(O_SLE, a, b);
      case CmpInst::ICMP_SGT: return cx.bin(O_SLT, b, a);
      case CmpInst::ICMP_SGE: return cx.bin(O_SLE, b, a);
      default: die("icmp");
    }
  }
  Val icmpV(CmpInst::Predicate p, const Val& a, const Val& b, unsigned w) {
    if (a.conc() && b.conc() && w <= 64) {
      uint64_t x = a.c, y = b.c;
      int64_t sx = (int64_t)sgn(x, w), sy = (int64_t)sgn(y, w);
      bool r;
      switch (p) {
        case CmpInst::ICMP_EQ: r = x == y; break;
        case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_ULT: r = x < y; break;
        case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_UGT: r = x > y; break;
        case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_SLT: r = sx < sy; break;
        case CmpInst::ICMP_SLE: r = sx <= sy; break;
        case CmpInst::ICMP_SGT: r = sx > sy; break;
        default: r = sx >= sy; break;
      }
      return Val(r ? 1 : 0);
    }
    return fromE(icmp(p, toE(a, w), toE(b, w)));
  }
  E fcmp(CmpInst::Predicate p, E a, E b) {
    E uno = cx.bin(O_FUNO, a, b);
    E ord = cx.Not(uno);
    switch (p) {
      case CmpInst::FCMP_FALSE: return cx.F();
      case CmpInst::FCMP_TRUE: return cx.T();
      case CmpInst::FCMP_OEQ: return cx.bin(O_FOEQ, a, b);
      case CmpInst::FCMP_OGT: return cx.bin(O_FOLT, b, a);
      case CmpInst::FCMP_OGE: return cx.bin(O_FOLE, b, a);
      case CmpInst::FCMP_OLT: return cx.bin(O_FOLT, a, b);
      case CmpInst::FCMP_OLE: return cx.bin(O_FOLE, a, b);
      case CmpInst::FCMP_ONE: return cx.And(ord, cx.Not(cx.bin(O_FOEQ, a, b)));
      case CmpInst::FCMP_ORD: return ord;
      case CmpInst::FCMP_UNO: return uno;
      case CmpInst::FCMP_UEQ: return cx.Or(uno, cx.bin(O_FOEQ, a, b));
      case CmpInst::FCMP_UNE: return cx.Not(cx.bin(O_FOEQ, a, b));
      case CmpInst::FCMP_UGT: return cx.Not(cx.bin(O_FOLE, a, b));
      case CmpInst::FCMP_UGE: return cx.Not(cx.bin(O_FOLT, a, b));
      case CmpInst::FCMP_ULT: return cx.Not(cx.bin(O_FOLE, b, a));
      case CmpInst::FCMP_ULE: return cx.Not(cx.bin(O_FOLT, b, a));
      default: die("fcmp");
    }
  }
  Val castOp(unsigned opc, const Val& v, Type* st, Type* dt) {
    unsigned sw = widthOf(st), dw = widthOf(dt);
    switch (opc) {
      case Instruction::Trunc:
        if (v.conc() && dw <= 64) return Val(dw == 64 ? v.c : v.c & ((1ull << dw) - 1));
        return fromE(cx.extract(toE(v, sw), 0, dw));
      case Instruction::ZExt:
        if (v.conc() && dw <= 64) return v;
        return fromE(cx.zext(toE(v, sw), dw));
      case Instruction::SExt:
        if (v.conc() && dw <= 64) { uint64_t x = (uint64_t)sgn(v.c, sw); return Val(dw == 64 ? x : x & ((1ull << dw) - 1)); }
        return fromE(cx.sext(toE(v, sw), dw));
      case Instruction::PtrToInt:
        return dw == 64 ? v : dw < 64 ? fromE(cx.extract(toE(v, 64), 0, dw)) : fromE(cx.zext(toE(v, 64), dw));
      case Instruction::IntToPtr: return fromE(sw == 64 ? toE(v, 64) : sw < 64 ? cx.zext(toE(v, sw), 64) : cx.extract(toE(v, sw), 0, 64));
      case Instruction::SIToFP: return fromE(cx.sitofp(cx.sext(toE(v, sw), 64), dw));
      case Instruction::UIToFP: {
        E e = toE(v, sw);
        if (sw < 64) return fromE(cx.sitofp(cx.zext(e, 64), dw));
        if (e->isC()) return Val(dw == 32 ? fBits((float)(uint64_t)e->v) : dBits((double)(uint64_t)e->v));
        if (e->lo >= 0) return fromE(cx.sitofp(e, dw));
        return fromE(cx.mk(O_UITOFP, dw, e));
      }
      case Instruction::FPToSI: return fromE(cx.fptosi(toE(v, sw), dw, true));
      case Instruction::FPToUI: return fromE(cx.fptosi(toE(v, sw), dw, false));
      case Instruction::FPExt: case Instruction::FPTrunc:
        if (!dw || !sw) die("long double");
        return fromE(cx.fpext(toE(v, sw), dw));
      default: die("cast");
    }
  }
  E flat(const Val& v, Type* t) {  // value as one bit-vector
    if (!v.agg) return toE(v, widthOf(t));
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
    E r = nullptr;
    for (int i = (int)v.agg->size() - 1; i >= 0; --i) { E x = flat((*v.agg)[i], et); r = r ? cx.concat(r, x) : x; }
    return r;
  }
  Val unflat(E e, Type* t) {
    if (!t->isVectorTy()) return fromE(e);
    Type* et = cast<VectorType>(t)->getElementType();
    unsigned n = cast<FixedVectorType>(t)->getNumElements(), w = widthOf(et);
    Val v;
    v.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < n; ++i) v.agg->push_back(fromE(cx.extract(e, i * w, w)));
    return v;
  }

  void enter(State& S, Function* F, const std::vector<Val>& args, int retDst) {
    DFunc* d = getF(F);
    if (d->blocks.empty()) die("call of undefined function " + F->getName().str());
    execd.insert(d);
    if (S.stack.size() > 400) violate(S, "recursion", "call depth exceeds 400 frames");
    S.stack.emplace_back();
    Frame& f = S.stack.back();
    f.f = d;
    f.regs.resize(d->nregs);
    for (size_t i = 0; i < args.size() && i < F->arg_size(); ++i) f.regs[i] = args[i];
    f.retDst = retDst;
  }
  void jump(State& S, Frame& f, int to) {
    DBlock& nb = f.f->blocks[to];
    if (!nb.phis.empty()) {
      std::vector<Val> tmp;
      tmp.reserve(nb.phis.size());
      for (auto& p : nb.phis) {
        bool ok = false;
        for (size_t i = 0; i < p.succ.size(); ++i)
          if (p.succ[i] == f.bb) { tmp.push_back(get(f, p.ops[i])); ok = true; break; }
        if (!ok) die("phi");
      }
      for (size_t i = 0; i < nb.phis.size(); ++i) f.regs[nb.phis[i].dst] = tmp[i];
    }
    f.prev = f.bb;
    f.bb = to;
    f.ip = 0;
  }

  // -------------------------------------------------------------- main step --
  void finishPath(State& S) {
    okPaths++;
    if (!S.allowLeak && S.liveHeap > 0) {
      for (auto& o : S.mem) if (o.second->kind == 2) {
        S.notes.push_back("leaked block of " + std::to_string(o.second->size) + " bytes");
        break;
      }
      violate(S, "leak", "heap memory still allocated after every object was destroyed");
    }
    throw PathEnd{"ok"};
  }

  void step(State& S) {
    Frame& f = S.stack.back();
    DInst& x = f.f->blocks[f.bb].insts[f.ip];
    steps++;
    if (++S.steps > maxSteps) violate(S, "non-termination", "path exceeds " + std::to_string(maxSteps) + " instructions");
    if (f.f->inRepo) {
      if (const DILocation* dl = x.I->getDebugLoc().get()) lineSeen(dl, f.f);
    }
    switch (x.opc) {
      case Instruction::Alloca: {
        uint64_t n = x.size * conc(S, get(f, x.ops[0]));
        uint64_t b = allocAddr(S, n, 0);
        S.mem[b] = newObj(b, n, 1, "stack");
        f.allocas.push_back(b);
        f.regs[x.dst] = Val(b);
        break;
      }
      case Instruction::Load: {
        Val v = load(S, get(f, x.ops[0]), x.ty);
        f.regs[x.dst] = v;
        break;
      }
      case Instruction::Store: {
        Val v = get(f, x.ops[0]);
        store(S, get(f, x.ops[1]), v, x.I->getOperand(0)->getType());
        break;
      }
      case Instruction::GetElementPtr: {
        const Val& b = get(f, x.ops[0]);
        uint64_t c = x.gepConst;
        bool allc = b.conc();
        E se = nullptr;
        for (auto& g : x.gep) {
          const Val& iv = get(f, x.ops[g.first]);
          unsigned iw = widthOf(x.I->getOperand(g.first)->getType());
          if (iv.conc()) c += (uint64_t)(int64_t)sgn(iv.c, iw) * g.second;
          else {
            E t = cx.bin(O_MUL, cx.sext(iv.e, 64), cx.C(g.second, 64));
            se = se ? cx.bin(O_ADD, se, t) : t;
          }
        }
        if (allc && !se) f.regs[x.dst] = Val(b.c + c);
        else {
          E r = toE(b, 64);
          if (se) r = cx.bin(O_ADD, r, se);
          f.regs[x.dst] = fromE(cx.bin(O_ADD, r, cx.C(c, 64)));
        }
        break;
      }
      case Instruction::Br:
        if (x.ops.empty()) { jump(S, f, x.succ[0]); return; }
        else {
          Val c = get(f, x.ops[0]);
          bool t = c.conc() ? (c.c & 1) : decide(S, c.e);
          jump(S, S.stack.back(), t ? x.succ[0] : x.succ[1]);
          return;
        }
      case Instruction::Switch: {
        Val c = get(f, x.ops[0]);
        if (c.conc()) {
          int to = x.succ[0];
          for (size_t i = 1; i < x.ops.size(); ++i) if (x.ops[i].c.c == c.c) { to = x.succ[i]; break; }
          jump(S, f, to);
          return;
        }
        for (size_t i = 1; i < x.ops.size(); ++i) {
          E eq = cx.Eq(c.e, cx.C(x.ops[i].c.c, x.sw));
          if (eq->isC() ? eq->v : decide(S, eq)) { jump(S, f, x.succ[i]); return; }
        }
        jump(S, f, x.succ[0]);
        return;
      }
      case Instruction::Ret: {
        Val r;
        if (!x.ops.empty()) r = get(f, x.ops[0]);
        for (uint64_t b : f.allocas) S.mem.erase(b);
        int dst = f.retDst;
        S.stack.pop_back();
        if (S.stack.empty()) finishPath(S);
        Frame& p = S.stack.back();
        if (dst >= 0) p.regs[dst] = r;
        advance(S, p);
        return;
      }
      case Instruction::Unreachable: violate(S, "unreachable", "undefined behaviour: unreachable code executed");
      case Instruction::PHI: die("phi in body");
      case Instruction::Select: {
        Val c = get(f, x.ops[0]);
        Val a = get(f, x.ops[1]), b = get(f, x.ops[2]);
        if (c.agg) {
          Val r; r.agg = std::make_shared<std::vector<Val>>();
          unsigned w = widthOf(cast<VectorType>(x.ty)->getElementType());
          for (size_t i = 0; i < c.agg->size(); ++i)
            r.agg->push_back(fromE(cx.ite(toE((*c.agg)[i], 1), toE((*a.agg)[i], w), toE((*b.agg)[i], w))));
          f.regs[x.dst] = r;
        } else if (c.conc()) f.regs[x.dst] = (c.c & 1) ? a : b;
        else if (a.agg || b.agg || !x.w) {
          bool t = decide(S, c.e);
          S.stack.back().regs[x.dst] = t ? a : b;
        } else f.regs[x.dst] = fromE(cx.ite(c.e, toE(a, x.w), toE(b, x.w)));
        break;
      }
      case Instruction::ICmp: {
        auto p = cast<CmpInst>(x.I)->getPredicate();
        const Val &a = get(f, x.ops[0]), &b = get(f, x.ops[1]);
        if (x.vec) {
          Val r; r.agg = std::make_shared<std::vector<Val>>();
          unsigned w = widthOf(cast<VectorType>(x.I->getOperand(0)->getType())->getElementType());
          for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(icmpV(p, (*a.agg)[i], (*b.agg)[i], w));
          f.regs[x.dst] = r;
        } else f.regs[x.dst] = icmpV(p, a, b, x.sw);
        break;
      }
      case Instruction::FCmp: {
        auto p = cast<CmpInst>(x.I)->getPredicate();
        const Val &a = get(f, x.ops[0]), &b = get(f, x.ops[1]);
        if (x.vec) die("vector fcmp");
        f.regs[x.dst] = fromE(fcmp(p, toE(a, x.sw), toE(b, x.sw)));
        break;
      }
      case Instruction::FNeg: {
        const Val& a = get(f, x.ops[0]);
        if (x.vec) {
          unsigned w = widthOf(cast<VectorType>(x.ty)->getElementType());
          Val r; r.agg = std::make_shared<std::vector<Val>>();
          for (auto& q : *a.agg) r.agg->push_back(fromE(cx.fneg(toE(q, w))));
          f.regs[x.dst] = r;
        } else f.regs[x.dst] = fromE(cx.fneg(toE(a, x.w)));
        break;
      }
      case Instruction::Freeze: f.regs[x.dst] = get(f, x.ops[0]); break;
      case Instruction::BitCast: {
        Type* st = x.I->getOperand(0)->getType();
        if (!x.vec) f.regs[x.dst] = get(f, x.ops[0]);
        else f.regs[x.dst] = unflat(flat(get(f, x.ops[0]), st), x.ty);
        break;
      }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
      case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
        const Val& a = get(f, x.ops[0]);
        if (x.vec) {
          Type* st = cast<VectorType>(x.I->getOperand(0)->getType())->getElementType();
          Type* dt = cast<VectorType>(x.ty)->getElementType();
          Val r; r.agg = std::make_shared<std::vector<Val>>();
          for (auto& q : *a.agg) r.agg->push_back(castOp(x.opc, q, st, dt));
          f.regs[x.dst] = r;
        } else f.regs[x.dst] = castOp(x.opc, a, x.I->getOperand(0)->getType(), x.ty);
        break;
      }
      case Instruction::ExtractValue: {
        Val v = get(f, x.ops[0]);
        for (unsigned i : cast<ExtractValueInst>(x.I)->indices()) { Val t = (*v.agg)[i]; v = t; }
        f.regs[x.dst] = v;
        break;
      }
      case Instruction::InsertValue: {
        Val v = get(f, x.ops[0]);
        auto idx = cast<InsertValueInst>(x.I)->getIndices();
        f.regs[x.dst] = insertV(v, get(f, x.ops[1]), idx, 0);
        break;
      }
      case Instruction::ExtractElement: {
        const Val& v = get(f, x.ops[0]);
        f.regs[x.dst] = (*v.agg)[conc(S, get(f, x.ops[1]))];
        break;
      }
      case Instruction::InsertElement: {
        Val v = get(f, x.ops[0]);
        Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg);
        (*r.agg)[conc(S, get(f, x.ops[2]))] = get(f, x.ops[1]);
        f.regs[x.dst] = r;
        break;
      }
      case Instruction::ShuffleVector: {
        const Val &a = get(f, x.ops[0]), &b = get(f, x.ops[1]);
        Val r; r.agg = std::make_shared<std::vector<Val>>();
        for (int i : cast<ShuffleVectorInst>(x.I)->getShuffleMask()) {
          if (i < 0) r.agg->push_back(Val(0));
          else if (i < (int)a.agg->size()) r.agg->push_back((*a.agg)[i]);
          else r.agg->push_back((*b.agg)[i - a.agg->size()]);
        }
        f.regs[x.dst] = r;
        break;
      }
      case Instruction::Call: case Instruction::Invoke: doCall(S, x); return;
      case Instruction::LandingPad: case Instruction::Resume: violate(S, "exception", "exception propagated");
      case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: die("atomic rmw");
      case Instruction::Fence: break;
      default:
        if (x.I->isBinaryOp()) {
          const Val &a = get(f, x.ops[0]), &b = get(f, x.ops[1]);
          if (x.vec) {
            Type* et = cast<VectorType>(x.ty)->getElementType();
            Val r; r.agg = std::make_shared<std::vector<Val>>();
            for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(binop(S, x.opc, (*a.agg)[i], (*b.agg)[i], widthOf(et), et->isFloatingPointTy()));
            f.regs[x.dst] = r;
          } else {
            Val r = binop(S, x.opc, a, b, x.w, x.ty->isFloatingPointTy());
            f.regs[x.dst] = r;
          }
          break;
        }
        die(std::string("instruction ") + x.I->getOpcodeName());
    }
    S.stack.back().ip++;
  }
  const DILocation* lastLoc = nullptr;
  std::set<const DILocation*> locSeen;
  void lineSeen(const DILocation* d, DFunc* f) {
    if (d == lastLoc) return;
    lastLoc = d;
    if (!locSeen.insert(d).second) return;
    std::string fn = d->getFilename().str();
    if (!fn.empty() && fn[0] != '/') fn = d->getDirectory().str() + "/" + fn;
    lines.insert({fn, d->getLine()});
  }
  Val insertV(const Val& v, const Val& n, ArrayRef<unsigned> idx, unsigned k) {
    if (k == idx.size()) return n;
    Val r;
    r.agg = std::make_shared<std::vector<Val>>(*v.agg);
    (*r.agg)[idx[k]] = insertV((*v.agg)[idx[k]], n, idx, k + 1);
    return r;
  }
  void advance(State& S, Frame& p) {
    DInst& c = p.f->blocks[p.bb].insts[p.ip];
    if (c.opc == Instruction::Invoke) jump(S, p, c.succ[0]);
    else p.ip++;
  }
  void setRet(State& S, DInst& x, const Val& v) {
    Frame& f = S.stack.back();
    if (x.dst >= 0) f.regs[x.dst] = v;
    advance(S, f);
  }

  void abortEvent(State& S, const std::string& what) {
    E ok = S.abortOk ? S.abortOk : cx.F();
    Model m;
    E bad = cx.Not(ok);
    if (bad->isC() ? bad->v : may(S, bad, &m)) violate(S, "abort", what, bad->isC() ? nullptr : &m);
    abortPaths++;
    throw PathEnd{"abort"};
  }

  void doCall(State& S, DInst& x) {
    Frame& f = S.stack.back();
    Function* F = x.callee;
    if (!F) {
      uint64_t a = conc(S, get(f, x.ops.back()));
      auto it = faddr.find(a);
      if (it == faddr.end()) violate(S, "bad-call", "indirect call to an invalid address");
      F = it->second;
      std::vector<Val> args;
      for (size_t i = 0; i + 1 < x.ops.size(); ++i) args.push_back(get(f, x.ops[i]));
      if (F->isDeclaration()) die("indirect call to external " + F->getName().str());
      enter(S, F, args, x.dst);
      return;
    }
    if (F->isIntrinsic()) { intrinsic(S, x, cast<CallBase>(x.I)); return; }
    if (x.ext) { external(S, x); return; }
    std::vector<Val> args;
    args.reserve(x.ops.size());
    for (auto& o : x.ops) args.push_back(get(f, o));
    // byval arguments get a private copy
    for (unsigned i = 0; i < args.size() && i < F->arg_size(); ++i)
      if (F->getArg(i)->hasByValAttr()) {
        uint64_t n = DL->getTypeAllocSize(F->getArg(i)->getParamByValType());
        uint64_t src = conc(S, args[i]);
        uint64_t b = allocAddr(S, n, 0);
        S.mem[b] = newObj(b, n, 1, "byval");
        memCopy(S, b, src, n);
        args[i] = Val(b);
        S.stack.back().allocas.push_back(b);
      }
    enter(S, F, args, x.dst);
  }

  void intrinsic(State& S, DInst& x, CallBase* cb) {
    Frame& f = S.stack.back();
    auto A = [&](unsigned i) -> Val { return get(S.stack.back(), x.ops[i]); };
    switch (x.callee->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        uint64_t n = conc(S, A(2));
        uint64_t d = conc(S, A(0)), s = conc(S, A(1));
        if (x.callee->getIntrinsicID() != Intrinsic::memmove && n && d != s && d < s + n && s < d + n) violate(S, "overlap", "memcpy on overlapping ranges");
        memCopy(S, d, s, n);
        break;
      }
      case Intrinsic::memset: case Intrinsic::memset_inline: {
        uint64_t n = conc(S, A(2)), d = conc(S, A(0));
        if (n) {
          uint64_t off;
          Obj* o = resolve(S, Val(d), n, true, off, nullptr, nullptr);
          o = writable(S, o);
          for (uint64_t i = 0; i < n; ++i) storeBytes(o, off + i, 1, A(1), 8);
        }
        break;
      }
      case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow:
      case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
        unsigned w = widthOf(x.I->getOperand(0)->getType());
        auto id = x.callee->getIntrinsicID();
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        Op op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? O_ADD
                : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? O_SUB : O_MUL;
        E a = toE(A(0), w), b = toE(A(1), w);
        E r = cx.bin(op, a, b), ov;
        if (w > 64) die("wide overflow op");
        // interval shortcut
        i128 lo, hi;
        bool known = false;
        if (op == O_ADD) { lo = a->lo + b->lo; hi = a->hi + b->hi; }
        else if (op == O_SUB) { lo = a->lo - b->hi; hi = a->hi - b->lo; }
        else {
          i128 p[4] = {a->lo * b->lo, a->lo * b->hi, a->hi * b->lo, a->hi * b->hi};
          lo = hi = p[0];
          for (auto q : p) { if (q < lo) lo = q; if (q > hi) hi = q; }
        }
        i128 SL = -((i128)1 << (w - 1)), SH = ((i128)1 << (w - 1)) - 1;
        if (sg) { if (lo >= SL && hi <= SH) { ov = cx.F(); known = true; } }
        else if (a->lo >= 0 && b->lo >= 0) {
          if (lo >= 0 && hi <= (i128)maskW(w)) { ov = cx.F(); known = true; }
        }
        if (!known) {
          unsigned W = op == O_MUL ? 2 * w : w + 1;
          E ea = sg ? cx.sext(a, W) : cx.zext(a, W), eb = sg ? cx.sext(b, W) : cx.zext(b, W);
          E full = cx.bin(op, ea, eb);
          if (op == O_MUL && !(a->isC() || b->isC())) {
            ov = cx.Not(cx.Eq(full, sg ? cx.sext(r, W) : cx.zext(r, W)));
          } else ov = cx.Not(cx.Eq(full, sg ? cx.sext(r, W) : cx.zext(r, W)));
        }
        Val v; v.agg = std::make_shared<std::vector<Val>>();
        v.agg->push_back(fromE(r));
        v.agg->push_back(fromE(ov));
        f.regs[x.dst] = v;
        break;
      }
      case Intrinsic::abs: {
        unsigned w = x.w;
        E a = toE(A(0), w);
        f.regs[x.dst] = fromE(cx.ite(cx.bin(O_SLT, a, cx.C(0, w)), cx.bin(O_SUB, cx.C(0, w), a), a));
        break;
      }
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
        E a = toE(A(0), x.w), b = toE(A(1), x.w);
        auto id = x.callee->getIntrinsicID();
        E lt = cx.bin((id == Intrinsic::smax || id == Intrinsic::smin) ? O_SLT : O_ULT, a, b);
        bool mx = id == Intrinsic::smax || id == Intrinsic::umax;
        f.regs[x.dst] = fromE(mx ? cx.ite(lt, b, a) : cx.ite(lt, a, b));
        break;
      }
      case Intrinsic::is_fpclass: {
        unsigned w = widthOf(x.I->getOperand(0)->getType());
        unsigned mb = w == 64 ? 52 : 23;
        E a = toE(A(0), w);
        u128 m = toE(A(1), 32)->v;
        E mag = cx.bin(O_AND, a, cx.C(maskW(w - 1), w)), neg = cx.extract(a, w - 1, 1);
        E inf = cx.C(((u128)1 << (w - 1)) - ((u128)1 << mb), w), qn = cx.C(((u128)1 << (w - 1)) - ((u128)1 << (mb - 1)), w);
        E isInf = cx.Eq(mag, inf), nan = cx.bin(O_ULT, inf, mag), quiet = cx.bin(O_ULE, qn, mag), zero = cx.Eq(mag, cx.C(0, w));
        E fin = cx.bin(O_ULT, mag, inf), sub = cx.And(cx.bin(O_ULT, mag, cx.C((u128)1 << mb, w)), cx.Not(zero));
        E nrm = cx.And(fin, cx.Not(cx.bin(O_ULT, mag, cx.C((u128)1 << mb, w))));
        E r = cx.F();
        auto add = [&](unsigned bit, E c) { if (m & bit) r = cx.Or(r, c); };
        add(1, cx.And(nan, cx.Not(quiet))); add(2, cx.And(nan, quiet));
        if ((m & 0x1f8) == 0x1f8) { r = cx.Or(r, fin); m &= ~(u128)0x1f8; }
        add(4, cx.And(neg, isInf)); add(0x200, cx.And(cx.Not(neg), isInf));
        add(8, cx.And(neg, nrm)); add(0x100, cx.And(cx.Not(neg), nrm));
        add(0x10, cx.And(neg, sub)); add(0x80, cx.And(cx.Not(neg), sub));
        add(0x20, cx.And(neg, zero)); add(0x40, cx.And(cx.Not(neg), zero));
        f.regs[x.dst] = fromE(r);
        break;
      }
      case Intrinsic::fabs: f.regs[x.dst] = fromE(cx.fabs_(toE(A(0), x.w))); break;
      case Intrinsic::sqrt: f.regs[x.dst] = fromE(cx.fsqrt(toE(A(0), x.w))); break;
      case Intrinsic::floor: f.regs[x.dst] = fromE(frint(toE(A(0), x.w))); break;
      case Intrinsic::ceil: f.regs[x.dst] = fromE(fceil(toE(A(0), x.w))); break;
      case Intrinsic::trunc: f.regs[x.dst] = fromE(ftrunc(toE(A(0), x.w))); break;
      case Intrinsic::minnum: case Intrinsic::maxnum:
        f.regs[x.dst] = fromE(fminmax(x.callee->getIntrinsicID() == Intrinsic::maxnum, toE(A(0), x.w), toE(A(1), x.w)));
        break;
      case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
        auto id = x.callee->getIntrinsicID();
        bool sg = id == Intrinsic::sadd_sat || id == Intrinsic::ssub_sat, add = id == Intrinsic::uadd_sat || id == Intrinsic::sadd_sat;
        E a = toE(A(0), x.w), b = toE(A(1), x.w), r = cx.bin(add ? O_ADD : O_SUB, a, b), v;
        if (!sg) {
          if (add) v = cx.ite(cx.bin(O_ULT, r, a), cx.C(maskW(x.w), x.w), r);
          else v = cx.ite(cx.bin(O_ULT, a, b), cx.C(0, x.w), r);
        } else {
          E z = cx.C(0, x.w), na = cx.bin(O_SLT, a, z), nb = cx.bin(O_SLT, b, z), nr = cx.bin(O_SLT, r, z);
          E ov = add ? cx.And(cx.Eq(na, nb), cx.Not(cx.Eq(na, nr))) : cx.And(cx.Not(cx.Eq(na, nb)), cx.Not(cx.Eq(na, nr)));
          v = cx.ite(ov, cx.ite(na, cx.C((u128)1 << (x.w - 1), x.w), cx.C(maskW(x.w - 1), x.w)), r);
        }
        f.regs[x.dst] = fromE(v);
        break;
      }
      case Intrinsic::fmuladd: case Intrinsic::fma:
        f.regs[x.dst] = fromE(cx.bin(O_FADD, cx.bin(O_FMUL, toE(A(0), x.w), toE(A(1), x.w)), toE(A(2), x.w)));
        break;
      case Intrinsic::copysign: {
        E a = toE(A(0), x.w), b = toE(A(1), x.w);
        f.regs[x.dst] = fromE(cx.concat(cx.extract(b, x.w - 1, 1), cx.extract(a, 0, x.w - 1)));
        break;
      }
      case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
        E a = toE(A(0), x.w);
        auto id = x.callee->getIntrinsicID();
        E r = cx.C(id == Intrinsic::ctpop ? 0 : x.w, x.w);
        for (unsigned i = 0; i < x.w; ++i) {
          unsigned k = id == Intrinsic::ctlz ? i : x.w - 1 - i;
          E bit = cx.extract(a, k, 1);
          if (id == Intrinsic::ctpop) r = cx.bin(O_ADD, r, cx.zext(bit, x.w));
          else r = cx.ite(bit, cx.C(id == Intrinsic::ctlz ? x.w - 1 - k : k, x.w), r);
        }
        f.regs[x.dst] = fromE(r);
        break;
      }
      case Intrinsic::bswap: {
        E a = toE(A(0), x.w), r = nullptr;
        for (unsigned i = 0; i < x.w; i += 8) { E b = cx.extract(a, i, 8); r = r ? cx.concat(r, b) : b; }
        f.regs[x.dst] = fromE(r);
        break;
      }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        E a = toE(A(0), x.w), b = toE(A(1), x.w), c = toE(A(2), x.w);
        if (!c->isC()) die("symbolic funnel shift");
        unsigned k = (unsigned)(c->v % x.w);
        E full = cx.concat(a, b);
        f.regs[x.dst] = fromE(x.callee->getIntrinsicID() == Intrinsic::fshl ? cx.extract(full, x.w - k, x.w) : cx.extract(full, k, x.w));
        break;
      }
      case Intrinsic::expect: f.regs[x.dst] = A(0); break;
      case Intrinsic::is_constant: f.regs[x.dst] = Val(0); break;
      case Intrinsic::objectsize: f.regs[x.dst] = Val(~0ull); break;
      case Intrinsic::stacksave: f.regs[x.dst] = Val(0); break;
      case Intrinsic::ubsantrap: {
        static const char* nm[] = {"add-overflow", "builtin-unreachable", "cfi", "divrem-overflow", "dynamic-type", "float-cast-overflow", "function-type",
          "implicit-conversion", "invalid-builtin", "invalid-objc-cast", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow",
          "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment", "vla-bound"};
        uint64_t k = A(0).c;
        violate(S, "undefined-behaviour", std::string("undefined behaviour: ") + (k < 25 ? nm[k] : "?"));
      }
      case Intrinsic::trap: case Intrinsic::debugtrap: violate(S, "trap", "trap executed");
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
      case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing:
        break;
      case Intrinsic::invariant_start: break;
      default: die("intrinsic " + x.callee->getName().str());
    }
    advance(S, S.stack.back());
  }
  E fceil(E a) { return cx.fneg(frint(cx.fneg(a))); }
  E ftrunc(E a) {
    E neg = cx.extract(a, a->w - 1, 1);
    return cx.ite(neg, fceil(a), frint(a));
  }
  E fminmax(bool mx, E a, E b) {
    E na = cx.bin(O_FUNO, a, a), nb = cx.bin(O_FUNO, b, b), lt = cx.bin(O_FOLT, a, b);
    E r = mx ? cx.ite(lt, b, a) : cx.ite(lt, a, b);
    return cx.ite(na, b, cx.ite(nb, a, r));
  }
  E frint(E a) {
    if (a->isC()) return cx.C(fpBits(std::floor(fpVal(a->v, a->w)), a->w), a->w);
    if (a->fint) return a;
    if (a->w == 64) return cx.ffloor(a);
    return cx.mk(O_FRINT, a->w, a);
  }

  E symInput(State& S, const std::string& nm0, unsigned bits, bool ranged, int64_t lo, int64_t hi) {
    int k = S.nameCount[nm0]++;
    std::string nm = nm0 + "#" + std::to_string(k);
    E e64;
    if (concrete) {
      size_t i = S.inputs.size();
      uint64_t v = i < replayVals.size() ? replayVals[i] : 0;
      e64 = cx.C(v, 64);
      S.inputs.push_back({nm, e64});
      return e64;
    }
    if (ranged) {
      unsigned w = 1;
      if (lo >= 0) { while (w < 64 && (w < 2 || hi > (int64_t)((1ull << (w - 1)) - 1))) ++w; }
      else while (w < 64 && !(lo >= -(int64_t)(1ull << (w - 1)) && hi <= (int64_t)((1ull << (w - 1)) - 1))) ++w;
      if (lo == hi) e64 = cx.C((u128)(i128)lo, 64);
      else e64 = cx.sext(cx.var(nm, w, true, lo, hi), 64);
    } else e64 = cx.zext(cx.var(nm, bits, false, 0, 0), 64);
    S.inputs.push_back({nm, e64});
    return e64;
  }

  void external(State& S, DInst& x) {
    Frame& f = S.stack.back();
    auto A = [&](unsigned i) -> Val { return get(S.stack.back(), x.ops[i]); };
    switch (x.ext) {
      case X_IGNORE: setRet(S, x, Val(0)); return;
      case X_RET0: setRet(S, x, Val(0)); return;
      case X_GUARD_ACQ: {
        // first byte of the guard variable
        Val g = load(S, A(0), Type::getInt8Ty(M->getContext()));
        if (g.c) { setRet(S, x, Val(0)); return; }
        store(S, A(0), Val(1), Type::getInt8Ty(M->getContext()));
        setRet(S, x, Val(1));
        return;
      }
      case X_MALLOC: {
        Val n = A(0);
        if (S.symMalloc) {
          // any size is provided, but none can exceed the address space
          if (conc(S, icmpV(CmpInst::ICMP_SLT, n, Val(0), 64))) {
            setRet(S, x, Val(0));
            return;
          }
          S.lastMalloc = toE(n, 64);
          uint64_t sz = n.conc() ? std::min<uint64_t>(n.c, 256) : 256;
          setRet(S, x, Val(mallocObj(S, sz, "heap")));
          return;
        }
        uint64_t k = conc(S, n);
        if (k > S.mallocCap) { abortEvent(S, "allocation of " + std::to_string(k) + " bytes: more than any machine provides"); }
        uint64_t p = mallocObj(S, k, "heap");
        S.mem[p]->fam = family(x.callee->getName(), "_Znw", "_Zna");
        setRet(S, x, Val(p));
        return;
      }
      case X_CALLOC: {
        uint64_t k = conc(S, A(0)) * conc(S, A(1));
        if (k > S.mallocCap) abortEvent(S, "allocation failure");
        uint64_t p = mallocObj(S, k, "heap");
        for (auto& b : S.mem[p]->st) b = 1;
        setRet(S, x, Val(p));
        return;
      }
      case X_REALLOC: {
        uint64_t p = conc(S, A(0)), k = conc(S, A(1));
        if (k > S.mallocCap) abortEvent(S, "allocation failure");
        uint64_t q = mallocObj(S, k, "heap");
        if (p) {
          auto it = S.mem.find(p);
          if (it == S.mem.end() || it->second->kind != 2) violate(S, "bad-free", "realloc of an invalid pointer");
          memCopy(S, q, p, std::min(k, it->second->size));
          freeObj(S, p, "realloc");
        }
        setRet(S, x, Val(q));
        return;
      }
      case X_FREE: freeObj(S, conc(S, A(0)), x.callee->getName().str().c_str(), family(x.callee->getName(), "_Zdl", "_Zda")); setRet(S, x, Val(0)); return;
      case X_ABORT: abortEvent(S, "abort() reached although the documented preconditions hold"); return;
      case X_EXIT: violate(S, "exit", "process exit");
      case X_THROW: violate(S, "exception", "exception thrown");
      case X_VP_SYM: {
        std::string nm = cstr(S, conc(S, A(0)));
        E e = symInput(S, nm, (unsigned)A(1).c, A(2).c != 0, (int64_t)conc(S, A(3)), (int64_t)conc(S, A(4)));
        setRet(S, x, fromE(e));
        return;
      }
      case X_VP_ASSUME: {
        E c = toE(A(0), 32);
        c = cx.Not(cx.Eq(c, cx.C(0, 32)));
        if (c->isC()) {
          if (!c->v) { assumeCut++; throw PathEnd{"assume"}; }
        } else {
          Model m;
          int r = solver.check(S.pc, c, S.model, &m);
          if (r == 0) { assumeCut++; throw PathEnd{"assume"}; }
          if (r < 0) { incomplete = true; incompleteWhy = "solver unknown in assume"; throw PathEnd{"unknown"}; }
          addPc(S, c);
          S.model = m;
        }
        setRet(S, x, Val(0));
        return;
      }
      case X_VP_ASSERT: {
        E c = toE(A(0), 32);
        S.asserts++;
        check(S, cx.Not(cx.Eq(c, cx.C(0, 32))), "assert", cstr(S, conc(S, A(1))));
        setRet(S, x, Val(0));
        return;
      }
      case X_VP_VALID: {  // is the condition true on every continuation?
        E c = cx.Not(cx.Eq(toE(A(0), 32), cx.C(0, 32)));
        bool v = c->isC() ? c->v != 0 : solver.check(S.pc, cx.Not(c), S.model, nullptr) == 0;
        setRet(S, x, fromE(symInput(S, "valid", 64, true, v, v)));  // the replay takes the same answer
        return;
      }
      case X_VP_FAIL: violate(S, "assert", cstr(S, conc(S, A(0))));
      case X_VP_COVER: covers.insert(cstr(S, conc(S, A(0)))); setRet(S, x, Val(0)); return;
      case X_VP_CONC: setRet(S, x, Val(conc(S, A(0)))); return;
      case X_VP_ABORTOK: S.abortOk = cx.Not(cx.Eq(toE(A(0), 32), cx.C(0, 32))); setRet(S, x, Val(0)); return;
      case X_VP_LIVE: setRet(S, x, Val((uint64_t)S.liveHeap)); return;
      case X_VP_ALLOWLEAK: S.allowLeak = true; setRet(S, x, Val(0)); return;
      case X_VP_SKEW: S.skew = conc(S, A(0)); setRet(S, x, Val(0)); return;
      case X_VP_MALLOCCAP: S.mallocCap = conc(S, A(0)); setRet(S, x, Val(0)); return;
      case X_VP_OBJSIZE: {
        Obj* o = find(S, conc(S, A(0)));
        setRet(S, x, Val(o && o->kind == 2 ? o->size : ~0ull));
        return;
      }
      case X_VP_SIZELEFT: {
        uint64_t a = conc(S, A(0));
        Obj* o = find(S, a);
        setRet(S, x, Val(o ? o->base + o->size - a : 0));
        return;
      }
      case X_VP_UNINIT: {
        uint64_t a = conc(S, A(0)), n = conc(S, A(1));
        Obj* o = find(S, a);
        if (!o) die("vp_make_uninit");
        o = writable(S, o);
        for (uint64_t i = 0; i < n; ++i) o->st[a - o->base + i] = 0;
        setRet(S, x, Val(0));
        return;
      }
      case X_VP_NOTE: {
        Val v = A(1);
        std::string s = cstr(S, conc(S, A(0))) + "=" + std::to_string((long long)(v.conc() ? v.c : (uint64_t)cx.eval(v.e, S.model)));
        S.notes.push_back(s);
        if (getenv("ILSYM_NOTES")) fprintf(stderr, "note %s\n", s.c_str());
        setRet(S, x, Val(0));
        return;
      }
      case X_VP_SYMMALLOC: S.symMalloc = conc(S, A(0)) != 0; setRet(S, x, Val(0)); return;
      case X_VP_LASTMALLOC: setRet(S, x, S.lastMalloc ? fromE(S.lastMalloc) : Val(~0ull)); return;
      case X_VP_ISINIT: {
        uint64_t a = conc(S, A(0)), n = conc(S, A(1)), off;
        bool ok = true;
        Obj* o = resolve(S, Val(a), n, false, off, nullptr, nullptr);
        for (uint64_t i = 0; o && i < n; ++i) if (!o->st[off + i] || (o->st[off + i] == 2 && o->sym[off + i].whole->undef)) ok = false;
        setRet(S, x, Val(ok));
        return;
      }
      case X_VP_NEED: {
        uint64_t a = conc(S, A(0)), n = conc(S, A(1)), off;
        Obj* o = resolve(S, Val(a), n, false, off, nullptr, nullptr);
        for (uint64_t i = 0; o && i < n; ++i)
          if (!o->st[off + i] || (o->st[off + i] == 2 && o->sym[off + i].whole->undef)) violate(S, "uninitialised", "a routine is given a value that was never set");
        setRet(S, x, Val(0));
        return;
      }
      case X_VP_NATIVE: setRet(S, x, Val(0)); return;
      case X_SQRT: setRet(S, x, fromE(cx.fsqrt(toE(A(0), x.w)))); return;
      case X_FABS: setRet(S, x, fromE(cx.fabs_(toE(A(0), x.w)))); return;
      case X_FLOOR: setRet(S, x, fromE(frint(toE(A(0), x.w)))); return;
      case X_CEIL: setRet(S, x, fromE(fceil(toE(A(0), x.w)))); return;
      case X_TRUNC: setRet(S, x, fromE(ftrunc(toE(A(0), x.w)))); return;
      case X_FMIN: case X_FMAX: setRet(S, x, fromE(fminmax(x.ext == X_FMAX, toE(A(0), x.w), toE(A(1), x.w)))); return;
      case X_VP_ALLCONC: setRet(S, x, Val(allConc(S, conc(S, A(0))))); return;
      case X_VP_HOSTATOF: { std::string t = cstr(S, conc(S, A(0))); setRet(S, x, Val(dBits(strtod(t.c_str(), nullptr)))); return; }
      case X_VP_HOSTATOFLEN: { std::string t = cstr(S, conc(S, A(0))); char* e; strtod(t.c_str(), &e); setRet(S, x, Val((uint64_t)(e - t.c_str()))); return; }
      case X_SPRINTF: case X_SNPRINTF: case X_FPRINTF: {
        const unsigned at = x.ext == X_SNPRINTF ? 2 : 1;
        std::string fmt = cstr(S, conc(S, A(at)));
        auto* cb = cast<CallBase>(x.I);
        if ((fmt == "%td" || fmt == "%ld" || fmt == "%d" || fmt == "%lld" || fmt == "%zd") && x.ops.size() == at + 2 && !A(at + 1).conc()) {
          E v = cx.sext(toE(A(at + 1), widthOf(cb->getArgOperand(at + 1)->getType())), 64);
          Function* F = M->getFunction(x.ext == X_SPRINTF ? "vp_model_i64toa" : x.ext == X_SNPRINTF ? "vp_model_i64toan" : "vp_model_fput_i64");
          if (!F) die("no model of printf");
          if (x.ext == X_SNPRINTF) enter(S, F, {A(0), A(1), fromE(v)}, x.dst);
          else enter(S, F, {A(0), fromE(v)}, x.dst);
          return;
        }
        std::string out;
        unsigned arg = at + 1;
        for (size_t i = 0; i < fmt.size();) {
          if (fmt[i] != '%') { out += fmt[i++]; continue; }
          if (fmt[i + 1] == '%') { out += '%'; i += 2; continue; }
          std::string spec = "%";
          ++i;
          while (i < fmt.size() && strchr("-+ #0123456789.", fmt[i])) spec += fmt[i++];
          while (i < fmt.size() && strchr("hlLjzt", fmt[i])) ++i;
          if (i >= fmt.size() || arg >= x.ops.size()) die("printf format " + fmt);
          const char c = fmt[i++];
          char buf[512];
          unsigned w = widthOf(cb->getArgOperand(arg)->getType());
          if (strchr("di", c)) snprintf(buf, sizeof buf, (spec + "lld").c_str(), (long long)sgn(conc(S, A(arg)), w));
          else if (strchr("uxXo", c)) snprintf(buf, sizeof buf, (spec + "ll" + c).c_str(), (unsigned long long)conc(S, A(arg)));
          else if (c == 'c') snprintf(buf, sizeof buf, (spec + c).c_str(), (int)conc(S, A(arg)));
          else if (strchr("eEfFgGa", c)) snprintf(buf, sizeof buf, (spec + c).c_str(), bitsD(conc(S, A(arg))));
          else if (c == 's') {
            uint64_t q = conc(S, A(arg));
            if (!allConc(S, q)) die("printf of a symbolic string");
            snprintf(buf, sizeof buf, (spec + c).c_str(), cstr(S, q).c_str());
          } else die("printf format " + fmt);
          out += buf;
          ++arg;
        }
        if (x.ext == X_FPRINTF) {
          Function* F = M->getFunction("vp_model_fput_packed");
          if (!F || out.size() > 64) die("fprintf");
          std::vector<Val> args = {A(0), Val(out.size())};
          for (unsigned k = 0; k < 8; ++k) {
            uint64_t v = 0;
            for (unsigned j = 0; j < 8; ++j) if (8 * k + j < out.size()) v |= (uint64_t)(unsigned char)out[8 * k + j] << (8 * j);
            args.push_back(Val(v));
          }
          enter(S, F, args, x.dst);
          return;
        }
        uint64_t d = conc(S, A(0)), room = x.ext == X_SNPRINTF ? conc(S, A(1)) : ~0ull;
        if (room) {
          uint64_t n = out.size() < room ? out.size() : room - 1, off;
          Obj* o = resolve(S, Val(d), n + 1, true, off, nullptr, nullptr);
          o = writable(S, o);
          for (uint64_t i = 0; i <= n; ++i) storeBytes(o, off + i, 1, Val(i < n ? (unsigned char)out[i] : 0), 8);
        }
        setRet(S, x, Val(out.size()));
        return;
      }
      default: die("call of external function " + x.callee->getName().str() + " at " + locOf(x.I));
    }
  }

  // ------------------------------------------------------------------- run --
  void run(Function* F) {
    t0 = std::chrono::steady_clock::now();
    State* s0 = new State;
    s0->mem = initMem;
    enter(*s0, F, {}, -1);
    work.push_back(s0);
    while (!work.empty()) {
      State* S = work.back();
      work.pop_back();
      uint64_t n = 0;
      try {
        for (;;) {
          step(*S);
          if ((++n & 0xfff) == 0 && elapsed() > maxTime) { incomplete = true; incompleteWhy = "time limit"; throw PathEnd{"time"}; }
        }
      } catch (PathEnd& p) {
        paths++;
        if (getenv("ILSYM_TRACE")) {
          fprintf(stderr, "path %lu %s steps=%lu pc=%zu:", (unsigned long)paths, p.why.c_str(), (unsigned long)S->steps, S->pc.size());
          for (auto& in : S->inputs) fprintf(stderr, " %s=%ld", in.name.c_str(), (long)cx.eval(in.e, S->model));
          fprintf(stderr, "\n");
        }
      }
      delete S;
      if (viols.size() >= maxViol) break;
      if (elapsed() > maxTime) {
        if (!work.empty()) { incomplete = true; incompleteWhy = "time limit"; }
        break;
      }
    }
  }
};

static std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}

int main(int argc, char** argv) {
  std::string bc, entry, out;
  unsigned tmo = 30000;
  double maxTime = 300;
  uint64_t maxSteps = 3000000;
  unsigned maxViol = 6;
  std::vector<uint64_t> vals;
  bool conc = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--entry") entry = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--max-time") maxTime = atof(argv[++i]);
    else if (a == "--max-steps") maxSteps = strtoull(argv[++i], nullptr, 10);
    else if (a == "--max-viol") maxViol = atoi(argv[++i]);
    else if (a == "--query-timeout") tmo = atoi(argv[++i]);
    else if (a == "--repo") gRepo = argv[++i];
    else if (a == "--concrete") { conc = true; std::stringstream ss(argv[++i]); std::string t; while (std::getline(ss, t, ',')) vals.push_back(strtoull(t.c_str(), nullptr, 10)); }
    else bc = a;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("ilsym", errs()); return 3; }
  static Exec X(tmo);
  X.M = M.get();
  X.DL = &M->getDataLayout();
  X.maxTime = maxTime;
  X.maxSteps = maxSteps;
  X.maxViol = maxViol;
  X.concrete = conc;
  X.replayVals = vals;
  std::string status = "ok", detail;
  Function* F = M->getFunction(entry);
  if (!F || F->isDeclaration()) { fprintf(stderr, "ilsym: no entry %s\n", entry.c_str()); return 3; }
  try {
    X.setupGlobals();
    X.run(F);
  } catch (std::string& s) { status = "error"; detail = s; }
  if (status == "ok" && X.incomplete) { status = "incomplete"; detail = X.incompleteWhy; }
  if (!X.viols.empty()) status = "violation";
  // cover labels present in the module
  std::set<std::string> allCovers;
  for (auto& G : M->globals()) {
    if (!G.hasInitializer()) continue;
    for (auto* U : G.users())
      if (auto* cb = dyn_cast<CallBase>(U))
        if (cb->getCalledFunction() && cb->getCalledFunction()->getName() == "vp_cover_")
          if (auto* cd = dyn_cast<ConstantDataSequential>(G.getInitializer()))
            if (cd->isCString()) {
              // only functions executed by this entry
              auto it = X.dfs.find(cb->getFunction());
              if (it != X.dfs.end() && X.execd.count(it->second)) allCovers.insert(cd->getAsCString().str());
            }
  }
  std::ostringstream o;
  o << "{\"status\":\"" << status << "\",\"detail\":\"" << jesc(detail) << "\",\"entry\":\"" << entry << "\"";
  o << ",\"paths\":" << X.paths << ",\"completed\":" << X.okPaths << ",\"expected_aborts\":" << X.abortPaths << ",\"assume_cut\":" << X.assumeCut;
  o << ",\"instructions\":" << X.steps << ",\"forks\":" << X.forks << ",\"assertions\":" << X.asserts << ",\"symbolic_assertions\":" << X.symAsserts;
  o << ",\"queries\":" << X.solver.st.queries << ",\"z3_calls\":" << X.solver.st.z3calls << ",\"sat\":" << X.solver.st.sat << ",\"unsat\":" << X.solver.st.unsat
    << ",\"unknown\":" << X.solver.st.unknown << ",\"solver_seconds\":" << X.solver.st.seconds << ",\"wall_seconds\":" << X.elapsed() << ",\"variables\":" << gVars.size();
  auto arr = [&](const char* n, const std::set<std::string>& v) {
    o << ",\"" << n << "\":[";
    bool c = false;
    for (auto& s : v) { if (c) o << ","; o << "\"" << jesc(s) << "\""; c = true; }
    o << "]";
  };
  arr("covers", X.covers);
  std::set<std::string> miss;
  for (auto& s : allCovers) if (!X.covers.count(s)) miss.insert(s);
  arr("covers_missed", miss);
  std::set<std::string> fns;
  for (auto* d : X.execd) if (d->inRepo) {
    std::string f = d->file.substr(gRepo.size());
    while (!f.empty() && f[0] == '/') f = f.substr(1);
    fns.insert(f + ":" + d->F->getName().str());
  }
  arr("functions", fns);
  std::set<std::string> ln;
  for (auto& p : X.lines) ln.insert(p.first + ":" + std::to_string(p.second));
  arr("lines", ln);
  o << ",\"violations\":[";
  for (size_t i = 0; i < X.viols.size(); ++i) {
    auto& v = X.viols[i];
    if (i) o << ",";
    o << "{\"kind\":\"" << v.kind << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"fn\":\"" << jesc(v.fn) << "\",\"stack\":[";
    for (size_t k = 0; k < v.stack.size(); ++k) o << (k ? "," : "") << "\"" << jesc(v.stack[k]) << "\"";
    o << "],\"inputs\":[";
    for (size_t k = 0; k < v.inputs.size(); ++k) o << (k ? "," : "") << "{\"name\":\"" << jesc(v.inputs[k].first) << "\",\"value\":\"" << v.inputs[k].second << "\"}";
    o << "],\"notes\":[";
    for (size_t k = 0; k < v.notes.size(); ++k) o << (k ? "," : "") << "\"" << jesc(v.notes[k]) << "\"";
    o << "]}";
  }
  o << "]}\n";
  if (!out.empty()) { std::ofstream of(out); of << o.str(); }
  else fputs(o.str().c_str(), stdout);
  _exit(status == "ok" ? 0 : status == "violation" ? 1 : 2);
}
