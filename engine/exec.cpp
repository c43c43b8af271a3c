// Symbolic executor for LLVM 18 bitcode (C++ without the C++ runtime library: see runtime/rt_stdlib.cpp).
#include "expr.h"
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <chrono>
#include <cstring>
#include <cstdio>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;

// ------------------------------------------------------------------ values
struct Val { E e = nullptr; uint64_t c = 0; Val() {} Val(uint64_t v) : c(v) {} explicit Val(E x, int) : e(x) {} };
static inline Val mkVal(E e) { if (isConst(e) && e->w <= 64) return Val((uint64_t)e->c); return Val(e, 0); }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ------------------------------------------------------------------ memory
enum { K_STACK, K_HEAP, K_GLOBAL, K_FUNC, K_CXX, K_ARRAY };
static const uint64_t OFF0 = 0x100000;                   // objects start at this offset of their 4 GB region
static inline uint64_t mkAddr(uint32_t id) { return ((uint64_t)id << 32) + OFF0; }
struct RaceCell { uint8_t wt = 255; uint32_t wc = 0; uint32_t wi = 0; uint32_t rc[8] = {0}; uint32_t ri = 0; };
struct Obj
{
  int ref = 1; uint32_t size; uint8_t kind; bool ro = false; bool freed = false; bool nofree = false;
  uint8_t* d; E* s = nullptr; std::vector<RaceCell>* race = nullptr;
  Obj(uint32_t n, uint8_t k) : size(n), kind(k) { d = (uint8_t*)malloc(n ? n : 1); }
  Obj(const Obj& o) : size(o.size), kind(o.kind), ro(o.ro), freed(o.freed), nofree(o.nofree)
  {
    d = (uint8_t*)malloc(size ? size : 1); memcpy(d, o.d, size);
    if (o.s) { s = (E*)malloc(sizeof(E) * size); memcpy(s, o.s, sizeof(E) * size); }
    if (o.race) race = new std::vector<RaceCell>(*o.race);
  }
  ~Obj() { ::free(d); if (s) ::free(s); delete race; }
};
static Obj* const FREED = (Obj*)1;
struct Page { int ref = 1; int live = 0; Obj* o[64]; Page() { memset(o, 0, sizeof o); }
  Page(const Page& p) { live = p.live; for (int i = 0; i < 64; i++) { o[i] = p.o[i]; if (o[i] && o[i] != FREED) o[i]->ref++; } }
  ~Page() { for (auto x : o) if (x && x != FREED && --x->ref == 0) delete x; } };
struct Mem
{
  std::vector<Page*> pg; uint32_t next = 1;
  Mem() {}
  Mem(const Mem& m) : pg(m.pg), next(m.next) { for (auto p : pg) if (p) p->ref++; }
  ~Mem() { for (auto p : pg) if (p && --p->ref == 0) delete p; }
  Mem& operator=(const Mem&) = delete;
  Page* wpage(uint32_t id)
  {
    uint32_t i = id >> 6; if (i >= pg.size()) pg.resize(i + 1, nullptr);
    if (!pg[i]) pg[i] = new Page; else if (pg[i]->ref > 1) { pg[i]->ref--; pg[i] = new Page(*pg[i]); }
    return pg[i];
  }
  Obj* get(uint32_t id) const { uint32_t i = id >> 6; if (i >= pg.size() || !pg[i]) return nullptr; return pg[i]->o[id & 63]; }
  Obj* wget(uint32_t id)
  {
    Page* p = wpage(id); Obj*& o = p->o[id & 63];
    if (o && o != FREED && o->ref > 1) { o->ref--; o = new Obj(*o); }
    return o;
  }
  uint32_t alloc(uint64_t size, uint8_t kind)
  { uint32_t id = next++; Page* p = wpage(id); p->o[id & 63] = new Obj((uint32_t)size, kind); p->live++; return id; }
  void free(uint32_t id)
  {
    Page* p = wpage(id); Obj*& o = p->o[id & 63];
    if (o && o != FREED) { if (--o->ref == 0) delete o; o = FREED; p->live--; }
  }
};

// ------------------------------------------------------------------ decoded code
struct Leaf { uint16_t w; uint32_t off; bool fp; };
struct Opnd { int slot = -1; Val c; std::vector<Val>* agg = nullptr; };
struct DFunc; struct State;
struct Edge { int target = -1; std::vector<std::tuple<int, Opnd, int>> copies; bool safe = true; };
enum DOp : uint16_t { D_BIN, D_FBIN, D_FNEG, D_ICMP, D_FCMP, D_CAST, D_SELECT, D_GEP, D_LOAD, D_STORE, D_ALLOCA, D_BR, D_CBR, D_SWITCH,
  D_RET, D_CALL, D_UNREACHABLE, D_RESUME, D_LPAD, D_EXTRACTV, D_INSERTV, D_RMW, D_CMPXCHG, D_FREEZE, D_NOP, D_EXTRACTE, D_INSERTE, D_SHUFFLE, D_UNSUPPORTED };
struct Exec;
typedef bool (*Builtin)(Exec& X, State& s, struct DInst& in, std::vector<Val>& a, Val& ret);
struct DInst
{
  DOp op; uint16_t sub = 0; uint16_t w = 0, w2 = 0; int dst = -1; int n = 1; uint64_t imm = 0;
  std::vector<Opnd> ops; std::vector<Leaf>* leaves = nullptr; std::vector<std::pair<uint64_t, int>> scale;  // gep
  std::vector<Edge> edges; std::vector<uint64_t> cases; std::vector<uint64_t> clauses; bool cleanup = false; bool nsw = false, seqcst = false;
  DFunc* callee = nullptr; bool invoke = false; const Instruction* I = nullptr; std::vector<int> argw; std::vector<int> argn; bool isFP = false;
  std::vector<uint32_t> idx; std::vector<int> mask; const char* msg = nullptr; uint32_t uid = 0; bool hit = false;
};
struct DFunc
{
  Function* F = nullptr; std::string name; bool decoded = false; int nslots = 0; std::vector<DInst> code; std::vector<int> argSlot; std::vector<int> argN;
  uint64_t addr = 0; Builtin bi = nullptr; bool executed = false; bool decl = false; uint64_t ninst = 0; bool fromRepo = false; bool noRace = false; std::string file; int retN = 0;
};
struct Frame
{
  int ref = 1; DFunc* f; uint32_t pc = 0; std::vector<Val> regs; std::vector<uint32_t> allocas; DInst* call = nullptr;
  std::vector<Val> excRegs;
};
struct Fiber { std::vector<Frame*> st; bool done = false; };
struct InputRec { std::string name; uint32_t sym; uint16_t w; };
struct VC { uint32_t c[8] = {0}; void join(const VC& o) { for (int i = 0; i < 8; i++) c[i] = std::max(c[i], o.c[i]); } };
struct State
{
  Mem mem; std::vector<Fiber> fib; int cur = 0; std::vector<E> pc; std::unordered_set<uint32_t> pcset; std::shared_ptr<Model> model;
  std::vector<InputRec> inputs; uint64_t steps = 0; uint32_t nsym = 0; std::map<uint64_t, VC> hb; std::vector<VC> tvc; bool raceOn = false; int depth = 0;
  int liveFibers = 1; std::map<std::pair<uint64_t, int>, uint64_t> tls;
  std::vector<const char*> notes;
  State() : model(std::make_shared<Model>()) {}
  State(const State& o) : mem(o.mem), fib(o.fib), cur(o.cur), pc(o.pc), pcset(o.pcset), model(o.model), inputs(o.inputs), steps(o.steps), nsym(o.nsym),
    hb(o.hb), tvc(o.tvc), raceOn(o.raceOn), depth(o.depth), liveFibers(o.liveFibers), tls(o.tls), notes(o.notes)
  { for (auto& f : fib) for (auto x : f.st) x->ref++; }
  ~State() { for (auto& f : fib) for (auto x : f.st) if (--x->ref == 0) delete x; }
  Frame& top()
  {
    Frame*& f = fib[cur].st.back();
    if (f->ref > 1) { f->ref--; Frame* n = new Frame(*f); n->ref = 1; f = n; }
    return *f;
  }
};

struct PathEnd { int why; };  // 0 normal end, 1 violation, 2 infeasible assume, 3 inconclusive
struct Restart {};            // re-run the current instruction (after adding a constraint)

struct Violation { std::string kind, msg, where; std::vector<std::pair<InputRec, uint64_t>> inputs; std::vector<std::string> stack; };

struct Exec
{
  Module* M; const DataLayout* DL; std::map<const Value*, uint64_t> gaddr; std::map<uint64_t, DFunc*> fByAddr; std::map<const Function*, DFunc*> fByF;
  std::map<std::string, Builtin> builtins; std::map<uint64_t, int> tiId; std::map<uint64_t, const GlobalVariable*> gByAddr; std::map<std::string, uint64_t> ngaddr;
  std::vector<State*> work; std::vector<Violation> viols; std::map<std::string, uint64_t> violKeys; std::set<std::string> reached; State* init = nullptr;
  uint64_t paths = 0, pathsOk = 0, pathsPruned = 0, pathsInc = 0, forks = 0, asserts = 0, assertQueries = 0, totalSteps = 0, maxSteps = 30000000; double maxTime = 600; bool timedOut = false;
  std::set<std::string> incReasons; size_t maxViol = 6; bool verbose = false; bool raceCheck = true; std::chrono::steady_clock::time_point t0; uint32_t uidCounter = 1; uint64_t curMaxWork = 0;
  std::map<uint64_t, std::vector<uint8_t>> tlsInit; std::vector<const DInst*> byUid; uint64_t maxPaths = ~0ull; std::string traceFn;
  std::map<std::pair<uint64_t, int>, std::string> dummy; std::vector<std::pair<std::string, std::string>> samples;
  std::vector<std::string> witnesses; std::map<std::string, uint64_t> forkSites; bool profile = false; std::string repoPrefix = "/repo/src/";
  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  // ---------- type layout
  std::map<Type*, std::vector<Leaf>*> layouts;
  void flat(Type* t, uint32_t off, std::vector<Leaf>& out)
  {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * es, out); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) flat(vt->getElementType(), off + i * es, out); return; }
    if (t->isVoidTy()) return;
    out.push_back({(uint16_t)bits(t), off, t->isFloatingPointTy()});
  }
  unsigned bits(Type* t)
  {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 128;
    return 64;
  }
  std::vector<Leaf>* layout(Type* t) { auto& l = layouts[t]; if (!l) { l = new std::vector<Leaf>; flat(t, 0, *l); } return l; }

  // ---------- constants
  Val constScalar(const Constant* c)
  {
    if (auto* ci = dyn_cast<ConstantInt>(c))
    { if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue());
      u128 v = ci->getValue().extractBitsAsZExtValue(64, 0);
      if (ci->getBitWidth() > 64) v |= (u128)ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth() - 64), 64) << 64;
      return Val(mkConst(v, ci->getBitWidth()), 0); }
    if (isa<ConstantPointerNull>(c)) return Val(0);
    if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); return Val(b.getBitWidth() <= 64 ? b.getZExtValue() : b.extractBitsAsZExtValue(64, 0)); }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { unsigned w = bits(c->getType()); if (w > 64) return Val(mkConst(0, w), 0); return Val(0); }
    if (auto* gv = dyn_cast<GlobalValue>(c)) return Val(globalAddr(gv));
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
      switch (ce->getOpcode())
      {
      case Instruction::GetElementPtr:
      {
        auto* gep = cast<GEPOperator>(ce); APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off)) die("const gep");
        return Val(constScalar(cast<Constant>(gep->getPointerOperand())).c + off.getZExtValue());
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc:
        return Val(constScalar(ce->getOperand(0)).c & mask64(bits(ce->getType())));
      case Instruction::Sub: return Val((constScalar(ce->getOperand(0)).c - constScalar(ce->getOperand(1)).c) & mask64(bits(ce->getType())));
      case Instruction::Add: return Val((constScalar(ce->getOperand(0)).c + constScalar(ce->getOperand(1)).c) & mask64(bits(ce->getType())));
      case Instruction::ICmp:
      { uint64_t a = constScalar(ce->getOperand(0)).c, b = constScalar(ce->getOperand(1)).c;
        switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return Val(a == b); case CmpInst::ICMP_NE: return Val(a != b); case CmpInst::ICMP_ULT: return Val(a < b); case CmpInst::ICMP_UGT: return Val(a > b); default: die("const icmp"); } }
      case Instruction::Select: die("const select");
      default: die("constexpr");
      }
    }
    std::string s; raw_string_ostream os(s); c->print(os); die("const: " + os.str());
    return Val(0);
  }
  void constLeaves(const Constant* c, std::vector<Val>& out)
  {
    Type* t = c->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy())
    {
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      for (unsigned i = 0; i < n; i++) constLeaves(c->getAggregateElement(i), out);
    }
    else out.push_back(constScalar(c));
  }
  [[noreturn]] void die(const std::string& m) { fprintf(stderr, "ENGINE-ERROR: %s\n", m.c_str()); fflush(stdout); exit(3); }

  uint64_t globalAddr(const GlobalValue* g)
  {
    if (auto* al = dyn_cast<GlobalAlias>(g)) return constScalar(al->getAliasee()).c;
    auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
    die("unknown global " + g->getName().str());
  }

  void storeConst(Obj* o, uint32_t off, const Constant* c)
  {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c))
    { StringRef r = cd->getRawDataValues(); memcpy(o->d + off, r.data(), r.size()); return; }
    Type* t = c->getType();
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (t->isArrayTy() || t->isVectorTy())
    {
      Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); uint64_t es = DL->getTypeAllocSize(et);
      unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      for (unsigned i = 0; i < n; i++) storeConst(o, off + i * es, c->getAggregateElement(i)); return;
    }
    Val v = constScalar(c); unsigned nb = DL->getTypeStoreSize(t);
    if (v.e) { u128 x = v.e->c; memcpy(o->d + off, &x, std::min(nb, 16u)); } else memcpy(o->d + off, &v.c, std::min(nb, 8u));
  }

  // ---------- decode
  DFunc* dfunc(const Function* F)
  {
    auto& d = fByF[F]; if (d) return d;
    d = new DFunc; d->F = const_cast<Function*>(F); d->name = F->getName().str(); d->decl = F->isDeclaration();
    auto it = builtins.find(d->name); if (it != builtins.end()) d->bi = it->second;
    return d;
  }
  void decode(DFunc* d);
  void setup(Module* m);

  // ---------- path control
  void addPC(State& s, E c)
  {
    if (isConst(c)) { return; }
    if (c->op == E_AND && c->w == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
    if (s.pcset.insert(c->id).second) s.pc.push_back(c);
  }
  // conjunction of path condition slice relevant to c, plus c: satisfiable?  On SAT, `m` is a model of the full pc && c.
  SatRes query(State& s, E c, Model& m)
  {
    if (isTrue(c)) { m = *s.model; return SAT; }
    if (isFalse(c)) return UNSAT;
    if (evalExpr(c, *s.model)) { gStats.modelHits++; m = *s.model; return SAT; }
    if (s.pcset.count(mkNot(c)->id)) return UNSAT;
    std::vector<E> slice; std::vector<uint32_t> syms = symsOf(c).v; std::vector<char> used(s.pc.size(), 0);
    std::unordered_set<uint32_t> ss(syms.begin(), syms.end());
    bool ch = true;
    while (ch)
    {
      ch = false;
      for (size_t i = 0; i < s.pc.size(); i++) if (!used[i])
      {
        const auto& v = symsOf(s.pc[i]).v; bool hit = false;
        for (auto x : v) if (ss.count(x)) { hit = true; break; }
        if (hit) { used[i] = 1; slice.push_back(s.pc[i]); for (auto x : v) if (ss.insert(x).second) ch = true; }
      }
    }
    slice.push_back(c);
    m = *s.model;
    if (elapsed() > maxTime) timedOut = true;
    return solveSlice(slice, m);
  }
  bool mayBe(State& s, E c) { Model m; return query(s, c, m) != UNSAT; }
  void setModel(State& s, Model&& m) { s.model = std::make_shared<Model>(std::move(m)); }

  std::string locStr(State& s) { return stackStr(s, 0); }
  std::string stackStr(State& s, int d)
  {
    auto& st = s.fib[s.cur].st; if ((int)st.size() <= d) return "?";
    return demangle(st[st.size() - 1 - d]->f->name);
  }
  std::string siteStr(State& s)
  { // innermost frame from the repository (by file), else innermost
    auto& st = s.fib[s.cur].st;
    for (int i = (int)st.size() - 1; i >= 0; i--) if (st[i]->f->fromRepo) return demangle(st[i]->f->name);
    return st.empty() ? "?" : demangle(st.back()->f->name);
  }
  void report(State& s, const std::string& kind, const std::string& msg, const Model& m)
  {
    std::string site = siteStr(s);
    std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : site);
    if (violKeys[key]++) return;
    Violation v; v.kind = kind; v.msg = msg; v.where = site;
    for (auto& in : s.inputs) v.inputs.push_back({in, (in.sym < m.size() ? m[in.sym] : 0) & mask64(in.w)});
    auto& st = s.fib[s.cur].st; for (int i = (int)st.size() - 1; i >= 0 && v.stack.size() < 25; i--) v.stack.push_back(demangle(st[i]->f->name));
    for (auto n : s.notes) v.stack.push_back(std::string("note: ") + n);
    viols.push_back(v);
    if (verbose) { fprintf(stderr, "VIOL %s: %s @ %s\n", kind.c_str(), msg.c_str(), site.c_str()); for (auto& x : v.stack) fprintf(stderr, "    %s\n", x.c_str());
      for (auto& in : v.inputs) fprintf(stderr, "    in %s = %llu\n", in.first.name.c_str(), (unsigned long long)in.second); }
  }
  [[noreturn]] void error(State& s, const std::string& kind, const std::string& msg) { report(s, kind, msg, *s.model); throw PathEnd{1}; }
  [[noreturn]] void inconclusive(const std::string& why) { incReasons.insert(why); throw PathEnd{3}; }
  void fork(State& s, State*& other) { other = new State(s); forks++; }
  void pushWork(State* s) { work.push_back(s); if (work.size() > curMaxWork) curMaxWork = work.size(); }
  void noteFork(State& s) { if (profile) forkSites[siteStr(s) + " / " + locStr(s)]++; }

  // Decide a condition: returns the side this state continues with; forks when both are possible.
  bool branch(State& s, E c)
  {
    if (isConst(c)) return c->c != 0;
    bool cur = evalExpr(c, *s.model) != 0;
    E oth = cur ? mkNot(c) : c; Model m;
    SatRes r = query(s, oth, m);
    if (r == UNKNOWN) { incReasons.insert("solver returned unknown"); pathsInc++; }
    if (r == SAT)
    {
      State* o; fork(s, o); noteFork(s);
      addPC(*o, oth); setModel(*o, std::move(m)); o->depth++; pushWork(o); // the copy re-executes this instruction, now decided
      addPC(s, cur ? c : mkNot(c)); s.depth++;
    }
    return cur;
  }
  uint64_t concretize(State& s, const Val& v, unsigned w)
  {
    if (!v.e) return v.c;
    uint64_t x = (uint64_t)evalExpr(v.e, *s.model);
    E eq = mkBin(E_EQ, v.e, mkConst(x, v.e->w)); Model m;
    SatRes r = query(s, mkNot(eq), m);
    if (r == UNKNOWN) { incReasons.insert("solver returned unknown"); pathsInc++; }
    if (r == SAT) { State* o; fork(s, o); noteFork(s); addPC(*o, mkNot(eq)); setModel(*o, std::move(m)); o->depth++; pushWork(o); addPC(s, eq); s.depth++; }
    return x;
  }

  // ---------- memory access
  Obj* check(State& s, uint64_t addr, uint64_t n, bool write, const char* what)
  {
    uint32_t id = addr >> 32; int64_t off = (int64_t)(uint32_t)addr - (int64_t)OFF0;
    if (id == 0) error(s, "memory", std::string("null pointer ") + what);
    Obj* o = s.mem.get(id);
    if (!o) error(s, "memory", std::string("invalid pointer ") + what);
    if (o == FREED) error(s, "memory", std::string("use after free or scope end: ") + what);
    if (o->kind == K_FUNC) error(s, "memory", std::string("access to code ") + what);
    if (off < 0 || (uint64_t)off + n > o->size) error(s, "memory", std::string("out-of-bounds ") + what);
    if (write)
    {
      if (o->ro) error(s, "memory", std::string("write to constant: ") + what);
      o = s.mem.wget(id);
    }
    return o;
  }
  static uint32_t offOf(uint64_t a) { return (uint32_t)((uint32_t)a - (uint32_t)OFF0); }
  Val loadRaw(Obj* o, uint32_t off, unsigned w)
  {
    unsigned n = (w + 7) / 8;
    if (o->s) for (unsigned i = 0; i < n; i++) if (o->s[off + i])
    {
      E r = nullptr;
      for (unsigned j = 0; j < n; j++) { E b = o->s[off + j] ? o->s[off + j] : mkConst(o->d[off + j], 8); r = r ? mkConcat(b, r) : b; }
      if (r->w != w) r = mkExtract(r, 0, w);
      return mkVal(r);
    }
    if (n <= 8) { uint64_t v = 0; memcpy(&v, o->d + off, n); return Val(v & mask64(w)); }
    u128 v = 0; memcpy(&v, o->d + off, std::min(n, 16u)); return Val(mkConst(v, w), 0);
  }
  void storeRaw(Obj* o, uint32_t off, unsigned w, const Val& v)
  {
    unsigned n = (w + 7) / 8;
    if (!v.e) { if (n > 8) { memset(o->d + off, 0, n); } memcpy(o->d + off, &v.c, std::min(n, 8u)); if (o->s) memset(o->s + off, 0, n * sizeof(E)); return; }
    if (isConst(v.e)) { u128 c = v.e->c; memcpy(o->d + off, &c, std::min(n, 16u)); if (o->s) memset(o->s + off, 0, n * sizeof(E)); return; }
    if (!o->s) { o->s = (E*)calloc(o->size, sizeof(E)); }
    E e = v.e; if (e->w != n * 8) e = mkZext(e, n * 8);
    for (unsigned i = 0; i < n; i++)
    { E b = mkExtract(e, i * 8, 8); if (isConst(b)) { o->d[off + i] = (uint8_t)b->c; o->s[off + i] = nullptr; } else o->s[off + i] = b; }
  }
  // Resolve a symbolic address to one object (forking on the object); returns base of object, guarantees in-bounds.
  uint64_t resolveObj(State& s, E a, uint64_t n, const char* what)
  {
    uint64_t v0 = (uint64_t)evalExpr(a, *s.model);
    Obj* o = check(s, v0, n, false, what);
    uint64_t base = (v0 >> 32 << 32) + OFF0;
    if (o->size < n) error(s, "memory", std::string("out-of-bounds ") + what);
    E in = mkBin(E_ULE, mkBin(E_SUB, a, mkConst(base, 64)), mkConst(o->size - n, 64));
    Model m; SatRes r = query(s, mkNot(in), m);
    if (r == UNKNOWN) { incReasons.insert("solver returned unknown"); pathsInc++; }
    if (r == SAT) { State* x; fork(s, x); noteFork(s); addPC(*x, mkNot(in)); setModel(*x, std::move(m)); x->depth++; pushWork(x); addPC(s, in); s.depth++; }
    return base;
  }
  Val load(State& s, const Val& p, unsigned w)
  {
    unsigned n = (w + 7) / 8;
    if (!p.e) { Obj* o = check(s, p.c, n, false, "read"); return loadRaw(o, offOf(p.c), w); }
    uint64_t base = resolveObj(s, p.e, n, "read");
    // enumerate feasible offsets (solver), build an if-then-else
    std::vector<uint64_t> offs; E cond = mkConst(1, 1);
    for (int i = 0; i < 300; i++)
    {
      Model m; 
      uint64_t a;
      if (i == 0) a = (uint64_t)evalExpr(p.e, *s.model);
      else { SatRes r = query(s, cond, m); if (r == UNSAT) break; if (r == UNKNOWN) inconclusive("solver returned unknown"); a = (uint64_t)evalExpr(p.e, m); }
      offs.push_back(a); cond = mkBin(E_AND, cond, mkNot(mkBin(E_EQ, p.e, mkConst(a, 64))));
      if (i == 299) inconclusive("symbolic read with too many targets");
    }
    (void)base;
    E r = nullptr;
    for (auto a : offs)
    {
      Obj* o = check(s, a, n, false, "read"); E v = toE(loadRaw(o, offOf(a), w), w);
      r = r ? mkIte(mkBin(E_EQ, p.e, mkConst(a, 64)), v, r) : v;
    }
    return mkVal(r);
  }
  void store(State& s, const Val& p, unsigned w, const Val& v)
  {
    unsigned n = (w + 7) / 8; uint64_t a = p.c;
    if (p.e) { resolveObj(s, p.e, n, "write"); a = concretize(s, p, 64); }
    Obj* o = check(s, a, n, true, "write"); storeRaw(o, offOf(a), w, v);
  }
  void copyMem(State& s, uint64_t d, uint64_t sr, uint64_t n)
  {
    if (!n) return;
    Obj* so = check(s, sr, n, false, "read (copy)"); Obj* dox = check(s, d, n, true, "write (copy)"); so = s.mem.get(sr >> 32);
    uint32_t a = offOf(d), b = offOf(sr);
    memmove(dox->d + a, so->d + b, n);
    if (so->s)
    {
      bool any = dox->s != nullptr; if (!any) for (uint64_t i = 0; i < n && !any; i++) any = so->s[b + i] != nullptr;
      if (any) { if (!dox->s) dox->s = (E*)calloc(dox->size, sizeof(E)); memmove(dox->s + a, so->s + b, n * sizeof(E)); }
    }
    else if (dox->s) memset(dox->s + a, 0, n * sizeof(E));
  }
  std::string cstr(State& s, uint64_t a)
  {
    std::string r; while (true) { Obj* o = check(s, a, 1, false, "read (string)"); uint32_t off = offOf(a); char c = o->d[off]; if (o->s && o->s[off]) c = (char)evalExpr(o->s[off], *s.model); if (!c) break; r += c; a++; if (r.size() > 4000) break; } return r;
  }
  // ---------- race detection (FastTrack-like; clocks are joined by the runtime's acquire/release events)
  void raceAccess(State& s, uint64_t addr, uint64_t n, bool write, DInst& in)
  {
    if (!s.raceOn || n == 0) return;
    uint32_t id = addr >> 32; Obj* o = s.mem.get(id); if (!o || o == FREED || o->kind == K_FUNC || o->ro) return;
    uint32_t off = offOf(addr); if (off + n > o->size) return;
    o = s.mem.wget(id); if (!o->race) o->race = new std::vector<RaceCell>(o->size);
    int t = s.cur; if (t >= 8 || (int)s.tvc.size() <= t) return; VC& vc = s.tvc[t];
    for (uint64_t i = 0; i < n; i++)
    {
      RaceCell& c = (*o->race)[off + i];
      if (c.wt != 255 && c.wt != t && c.wc > vc.c[c.wt]) raceReport(s, c.wi, in, write ? "write/write" : "write/read");
      if (write)
      {
        for (int k = 0; k < 8; k++) if (k != t && c.rc[k] > vc.c[k]) raceReport(s, c.ri, in, "read/write");
        c.wt = t; c.wc = vc.c[t]; c.wi = in.uid; memset(c.rc, 0, sizeof c.rc);
      }
      else { c.rc[t] = vc.c[t]; c.ri = in.uid; }
    }
  }
  void raceReport(State& s, uint32_t other, DInst& in, const char* what)
  {
    (void)in; std::string o = "?"; if (other < byUid.size() && byUid[other]) o = demangle(byUid[other]->I->getFunction()->getName());
    error(s, "race", std::string("unsynchronised ") + what + " access");
  }
  void hbAcquire(State& s, uint64_t a) { if ((int)s.tvc.size() > s.cur) { auto it = s.hb.find(a); if (it != s.hb.end()) s.tvc[s.cur].join(it->second); } }
  void hbRelease(State& s, uint64_t a) { if ((int)s.tvc.size() > s.cur && s.cur < 8) { s.hb[a].join(s.tvc[s.cur]); s.tvc[s.cur].c[s.cur]++; } }

  // ---------- exceptions / RTTI
  const GlobalVariable* tiGlobal(uint64_t a) { auto it = gByAddr.find(a); return it == gByAddr.end() ? nullptr : it->second; }
  // offset of base `to` inside `from`, or -1
  int64_t baseOffset(uint64_t from, uint64_t to)
  {
    if (from == to) return 0;
    const GlobalVariable* g = tiGlobal(from); if (!g || !g->hasInitializer()) return -1;
    const GlobalVariable* h = tiGlobal(to); if (h && h->getName() == g->getName()) return 0;
    auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs || cs->getNumOperands() < 3) return -1;
    if (cs->getNumOperands() == 3) { uint64_t b = constScalar(cs->getOperand(2)).c; return baseOffset(b, to); }
    unsigned nb = constScalar(cs->getOperand(3)).c;
    for (unsigned i = 0; i < nb; i++)
    {
      uint64_t b = constScalar(cs->getOperand(4 + 2 * i)).c; int64_t fl = (int64_t)constScalar(cs->getOperand(5 + 2 * i)).c;
      int64_t o = baseOffset(b, to); if (o >= 0) { if (fl & 1) die("virtual base in exception/dynamic_cast"); return o + (fl >> 8); }
    }
    return -1;
  }
  int typeId(uint64_t ti) { auto& i = tiId[ti]; if (!i) i = tiId.size(); return i; }
  bool clauseMatch(DInst& lp, uint64_t ti, int& sel, int64_t& adj)
  {
    for (uint64_t c : lp.clauses)
    {
      if (c == 0) { sel = typeId(0); adj = 0; return true; }
      int64_t o = baseOffset(ti, c); if (o >= 0) { sel = typeId(c); adj = o; return true; }
    }
    return false;
  }
  DInst* landing(Frame* f, DInst* call) { int b = call->edges[1].target; return &f->f->code[b]; }
  void popFrame(State& s)
  {
    Frame* f = s.fib[s.cur].st.back(); s.fib[s.cur].st.pop_back();
    for (auto id : f->allocas) s.mem.free(id);
    if (--f->ref == 0) delete f;
  }
  void takeEdge(State& s, Frame& f, Edge& e)
  {
    if (e.copies.size() == 1) { auto& [d, o, n] = e.copies[0]; for (int k = 0; k < n; k++) f.regs[d + k] = rdo(f, o, k); }
    else if (!e.copies.empty())
    {
      static std::vector<Val> tmp; tmp.clear();
      for (auto& [d, o, n] : e.copies) for (int k = 0; k < n; k++) tmp.push_back(rdo(f, o, k));
      size_t j = 0; for (auto& [d, o, n] : e.copies) for (int k = 0; k < n; k++) f.regs[d + k] = tmp[j++];
    }
    f.pc = e.target;
  }
  static inline Val rdo(Frame& f, const Opnd& o, int k = 0) { if (o.slot >= 0) return f.regs[o.slot + k]; if (o.agg) return (*o.agg)[k]; return o.c; }
  void unwind(State& s, uint64_t exc)
  {
    uint64_t ti = load(s, Val(exc - 64), 64).c;
    auto& st = s.fib[s.cur].st;
    bool handler = false;
    for (int i = (int)st.size() - 1; i >= 1 && !handler; i--)
    {
      DInst* c = st[i]->call; if (c && c->invoke) { int sel; int64_t adj; if (clauseMatch(*landing(st[i - 1], c), ti, sel, adj)) handler = true; }
    }
    std::string tn = tiGlobal(ti) ? demangle(tiGlobal(ti)->getName()) : "?";
    if (!handler) error(s, "uncaught", "uncaught exception of type " + tn);
    while (true)
    {
      DInst* c = st.back()->call; popFrame(s);
      if (st.empty()) error(s, "uncaught", "uncaught exception");
      if (!c || !c->invoke) continue;
      Frame& f = s.top(); DInst* lp = landing(&f, c); int sel = 0; int64_t adj = 0;
      bool m = clauseMatch(*lp, ti, sel, adj);
      if (!m && !lp->cleanup) continue;
      takeEdge(s, f, c->edges[1]); f.pc = c->edges[1].target;
      if (m) store(s, Val(exc - 56), 64, Val(exc + adj));
      f.regs[lp->dst] = Val(exc); f.regs[lp->dst + 1] = Val((uint64_t)(uint32_t)sel); f.pc++;
      return;
    }
  }

  std::set<std::string> repoFunctions()
  { // executed functions defined in the repository, including those inlined into executed code
    std::set<std::string> r;
    for (auto& p : fByF) if (p.second->executed && !p.second->decl)
    {
      if (p.second->fromRepo && p.second->name.rfind("__cxx_global", 0) && p.second->name.rfind("_GLOBAL__", 0)) r.insert(demangle(p.second->name));
      for (auto& B : *p.second->F) for (auto& I : B) for (DILocation* l = I.getDebugLoc().get(); l; l = l->getInlinedAt())
        if (auto* sp = l->getScope()->getSubprogram()) if (sp->getFilename().starts_with(repoPrefix) && !sp->getName().starts_with("__cxx_global") && !sp->getName().starts_with("_GLOBAL__")) r.insert(sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName()));
    }
    return r;
  }
  void call(State& s, DFunc* d, std::vector<Val>& args, DInst* in, bool fiberStart = false);
  void step(State& s, Frame& f, DInst& in);
  void run(State* s);
  void loop();
  void result(Frame& f, DInst& in, const Val& v) { if (in.dst >= 0) f.regs[in.dst] = v; }
  void finishCall(State& s, DInst& in, const Val& v)
  { Frame& f = s.top(); result(f, in, v); if (in.invoke) takeEdge(s, f, in.edges[0]); else f.pc++; }
};

static std::string jesc(const std::string& s);
static Val binop(ExprOp op, const Val& a, const Val& b, unsigned w)
{
  if (!a.e && !b.e)
  {
    uint64_t x = a.c, y = b.c, m = mask64(w);
    switch (op)
    {
    case E_ADD: return Val((x + y) & m); case E_SUB: return Val((x - y) & m); case E_MUL: return Val((x * y) & m);
    case E_AND: return Val(x & y); case E_OR: return Val(x | y); case E_XOR: return Val(x ^ y);
    case E_SHL: return Val(y >= w ? 0 : (x << y) & m); case E_LSHR: return Val(y >= w ? 0 : x >> y);
    case E_ASHR: return Val((uint64_t)(sext64(x, w) >> (y >= w ? w - 1 : y)) & m);
    case E_UDIV: return Val(y ? x / y : 0); case E_UREM: return Val(y ? x % y : 0);
    case E_SDIV: { int64_t p = sext64(x, w), q = sext64(y, w); if (!q) return Val(0); if (q == -1) return Val((0 - x) & m); return Val((uint64_t)(p / q) & m); }
    case E_SREM: { int64_t p = sext64(x, w), q = sext64(y, w); if (!q || q == -1) return Val(0); return Val((uint64_t)(p % q) & m); }
    default: break;
    }
  }
  return mkVal(mkBin(op, toE(a, w), toE(b, w)));
}
static Val icmp(unsigned p, const Val& a, const Val& b, unsigned w)
{
  if (!a.e && !b.e)
  {
    uint64_t x = a.c, y = b.c; int64_t sx = sext64(x, w), sy = sext64(y, w);
    switch (p)
    {
    case CmpInst::ICMP_EQ: return Val(x == y); case CmpInst::ICMP_NE: return Val(x != y); case CmpInst::ICMP_UGT: return Val(x > y);
    case CmpInst::ICMP_UGE: return Val(x >= y); case CmpInst::ICMP_ULT: return Val(x < y); case CmpInst::ICMP_ULE: return Val(x <= y);
    case CmpInst::ICMP_SGT: return Val(sx > sy); case CmpInst::ICMP_SGE: return Val(sx >= sy); case CmpInst::ICMP_SLT: return Val(sx < sy);
    case CmpInst::ICMP_SLE: return Val(sx <= sy);
    }
  }
  E x = toE(a, w), y = toE(b, w);
  switch (p)
  {
  case CmpInst::ICMP_EQ: return mkVal(mkBin(E_EQ, x, y)); case CmpInst::ICMP_NE: return mkVal(mkNot(mkBin(E_EQ, x, y)));
  case CmpInst::ICMP_UGT: return mkVal(mkBin(E_ULT, y, x)); case CmpInst::ICMP_UGE: return mkVal(mkBin(E_ULE, y, x));
  case CmpInst::ICMP_ULT: return mkVal(mkBin(E_ULT, x, y)); case CmpInst::ICMP_ULE: return mkVal(mkBin(E_ULE, x, y));
  case CmpInst::ICMP_SGT: return mkVal(mkBin(E_SLT, y, x)); case CmpInst::ICMP_SGE: return mkVal(mkBin(E_SLE, y, x));
  case CmpInst::ICMP_SLT: return mkVal(mkBin(E_SLT, x, y)); default: return mkVal(mkBin(E_SLE, x, y));
  }
}
static Val fpop(ExprOp op, const Val& a, const Val* b, unsigned w, unsigned wa, uint32_t p = 0)
{
  if (!a.e && (!b || !b->e)) { u128 o; if (foldFp(op, p, a.c, b ? b->c : 0, w, wa, o)) return Val((uint64_t)o & mask64(w)); }
  return mkVal(mkFp(op, toE(a, wa), b ? toE(*b, wa) : nullptr, w, p));
}

// ------------------------------------------------------------------ decoder
void Exec::decode(DFunc* d)
{
  d->decoded = true; Function* F = d->F;
  std::map<const Value*, int> slot; std::map<const BasicBlock*, int> bstart;
  int ns = 0;
  for (auto& a : F->args()) { int n = layout(a.getType())->size(); slot[&a] = ns; d->argSlot.push_back(ns); d->argN.push_back(n); ns += n; }
  for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += std::max<size_t>(1, layout(I.getType())->size()); }
  d->nslots = ns; d->retN = layout(F->getReturnType())->size();
  auto opnd = [&](const Value* v) -> Opnd {
    Opnd o; auto it = slot.find(v); if (it != slot.end()) { o.slot = it->second; return o; }
    if (auto* c = dyn_cast<Constant>(v))
    {
      if (c->getType()->isAggregateType() || c->getType()->isVectorTy()) { o.agg = new std::vector<Val>; constLeaves(c, *o.agg); if (o.agg->empty()) o.agg->push_back(Val(0)); }
      else o.c = constScalar(c);
      return o;
    }
    return o; // metadata etc.
  };
  auto leafIndex = [&](Type* t, ArrayRef<unsigned> idx, int& count) {
    int off = 0; for (unsigned i : idx)
    {
      if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += layout(st->getElementType(k))->size(); t = st->getElementType(i); }
      else { auto* at = cast<ArrayType>(t); off += i * layout(at->getElementType())->size(); t = at->getElementType(); }
    }
    count = layout(t)->size(); return off; };
  // pass 1: positions
  int pos = 0;
  for (auto& B : *F) { bstart[&B] = pos; for (auto& I : B) if (!isa<PHINode>(I)) pos++; }
  auto edge = [&](const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = bstart[to];
    for (auto& phi : to->phis()) e.copies.push_back({slot[&phi], opnd(phi.getIncomingValueForBlock(from)), (int)layout(phi.getType())->size()});
    return e; };
  for (auto& B : *F) for (auto& I : B)
  {
    if (isa<PHINode>(I)) continue;
    d->code.emplace_back(); DInst& x = d->code.back(); x.I = &I; x.op = D_UNSUPPORTED; x.uid = uidCounter++; 
    if (!I.getType()->isVoidTy()) { x.dst = slot[&I]; x.leaves = layout(I.getType()); x.n = x.leaves->size(); x.w = x.n ? (*x.leaves)[0].w : 0; }
    if (auto* bo = dyn_cast<BinaryOperator>(&I))
    {
      x.ops = {opnd(bo->getOperand(0)), opnd(bo->getOperand(1))};
      static const std::map<unsigned, ExprOp> T = {{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV}, {Instruction::SDiv, E_SDIV},
        {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND}, {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL},
        {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}, {Instruction::FAdd, E_FADD}, {Instruction::FSub, E_FSUB}, {Instruction::FMul, E_FMUL}, {Instruction::FDiv, E_FDIV}, {Instruction::FRem, E_FREM}};
      x.sub = T.at(bo->getOpcode()); x.op = x.sub >= E_FADD ? D_FBIN : D_BIN; continue;
    }
    switch (I.getOpcode())
    {
    case Instruction::FNeg: x.op = D_FNEG; x.ops = {opnd(I.getOperand(0))}; break;
    case Instruction::ICmp: case Instruction::FCmp:
    { auto* c = cast<CmpInst>(&I); x.op = isa<ICmpInst>(I) ? D_ICMP : D_FCMP; x.sub = c->getPredicate(); x.ops = {opnd(c->getOperand(0)), opnd(c->getOperand(1))}; x.w2 = (*layout(c->getOperand(0)->getType()))[0].w; break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
    case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
    { auto* lo = layout(I.getOperand(0)->getType()); x.op = D_CAST; x.sub = I.getOpcode(); x.ops = {opnd(I.getOperand(0))}; x.w2 = (*lo)[0].w; if ((int)lo->size() != x.n) x.op = D_UNSUPPORTED; break; }
    case Instruction::Select: x.op = D_SELECT; x.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1)), opnd(I.getOperand(2))}; x.sub = I.getOperand(0)->getType()->isVectorTy(); break;
    case Instruction::GetElementPtr:
    {
      auto* g = cast<GetElementPtrInst>(&I); x.op = D_GEP; x.ops.push_back(opnd(g->getPointerOperand())); uint64_t off = 0; 
      if (I.getType()->isVectorTy()) { x.op = D_UNSUPPORTED; break; }
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
      {
        Value* iv = it.getOperand();
        if (auto* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue()); continue; }
        uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
        if (auto* ci = dyn_cast<ConstantInt>(iv)) { off += ci->getSExtValue() * sz; continue; }
        x.ops.push_back(opnd(iv)); x.scale.push_back({sz, (int)iv->getType()->getIntegerBitWidth()});
      }
      x.imm = off; break;
    }
    case Instruction::Load: { auto* l = cast<LoadInst>(&I); x.op = D_LOAD; x.ops = {opnd(l->getPointerOperand())}; x.seqcst = l->getOrdering() == AtomicOrdering::SequentiallyConsistent; x.sub = l->isAtomic(); x.imm = DL->getTypeStoreSize(I.getType()); break; }
    case Instruction::Store: { auto* st = cast<StoreInst>(&I); x.op = D_STORE; x.ops = {opnd(st->getPointerOperand()), opnd(st->getValueOperand())}; x.leaves = layout(st->getValueOperand()->getType()); x.seqcst = st->getOrdering() == AtomicOrdering::SequentiallyConsistent; x.sub = st->isAtomic(); x.imm = DL->getTypeStoreSize(st->getValueOperand()->getType()); break; }
    case Instruction::Alloca: { auto* a = cast<AllocaInst>(&I); x.op = D_ALLOCA; x.imm = DL->getTypeAllocSize(a->getAllocatedType()); x.ops = {opnd(a->getArraySize())}; break; }
    case Instruction::Br:
    { auto* b = cast<BranchInst>(&I); if (b->isUnconditional()) { x.op = D_BR; x.edges = {edge(&B, b->getSuccessor(0))}; }
      else { x.op = D_CBR; x.ops = {opnd(b->getCondition())}; x.edges = {edge(&B, b->getSuccessor(0)), edge(&B, b->getSuccessor(1))}; } break; }
    case Instruction::Switch:
    { auto* sw = cast<SwitchInst>(&I); x.op = D_SWITCH; x.ops = {opnd(sw->getCondition())}; x.w2 = sw->getCondition()->getType()->getIntegerBitWidth(); x.edges.push_back(edge(&B, sw->getDefaultDest()));
      for (auto& c : sw->cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.edges.push_back(edge(&B, c.getCaseSuccessor())); } break; }
    case Instruction::Ret: x.op = D_RET; if (I.getNumOperands()) { x.ops = {opnd(I.getOperand(0))}; x.n = layout(I.getOperand(0)->getType())->size(); } else x.n = 0; break;
    case Instruction::Unreachable: x.op = D_UNREACHABLE; break;
    case Instruction::Resume: x.op = D_RESUME; x.ops = {opnd(I.getOperand(0))}; break;
    case Instruction::LandingPad:
    { auto* lp = cast<LandingPadInst>(&I); x.op = D_LPAD; x.cleanup = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) x.clauses.push_back(constScalar(cast<Constant>(lp->getClause(i))).c); else x.clauses.push_back(0); } break; }
    case Instruction::ExtractValue: { auto* ev = cast<ExtractValueInst>(&I); int c; x.op = D_EXTRACTV; x.ops = {opnd(ev->getAggregateOperand())}; x.imm = leafIndex(ev->getAggregateOperand()->getType(), ev->getIndices(), c); break; }
    case Instruction::InsertValue: { auto* iv = cast<InsertValueInst>(&I); int c; x.op = D_INSERTV; x.ops = {opnd(iv->getAggregateOperand()), opnd(iv->getInsertedValueOperand())}; x.imm = leafIndex(iv->getAggregateOperand()->getType(), iv->getIndices(), c); x.w2 = c; break; }
    case Instruction::AtomicRMW: { auto* a = cast<AtomicRMWInst>(&I); x.op = D_RMW; x.sub = a->getOperation(); x.ops = {opnd(a->getPointerOperand()), opnd(a->getValOperand())}; x.seqcst = a->getOrdering() == AtomicOrdering::SequentiallyConsistent; break; }
    case Instruction::AtomicCmpXchg: { auto* a = cast<AtomicCmpXchgInst>(&I); x.op = D_CMPXCHG; x.ops = {opnd(a->getPointerOperand()), opnd(a->getCompareOperand()), opnd(a->getNewValOperand())}; x.w2 = (*layout(a->getCompareOperand()->getType()))[0].w; x.seqcst = a->getSuccessOrdering() == AtomicOrdering::SequentiallyConsistent; break; }
    case Instruction::Freeze: x.op = D_FREEZE; x.ops = {opnd(I.getOperand(0))}; break;
    case Instruction::Fence: x.op = D_NOP; break;
    case Instruction::ExtractElement: x.op = D_EXTRACTE; x.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; break;
    case Instruction::InsertElement: x.op = D_INSERTE; x.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1)), opnd(I.getOperand(2))}; break;
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(&I); x.op = D_SHUFFLE; x.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; x.imm = layout(I.getOperand(0)->getType())->size(); for (int m : sv->getShuffleMask()) x.mask.push_back(m); break; }
    case Instruction::Call: case Instruction::Invoke:
    {
      auto* cb = cast<CallBase>(&I); x.op = D_CALL; x.invoke = isa<InvokeInst>(I);
      if (cb->isInlineAsm()) { x.op = D_NOP; break; }
      for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) { x.ops.push_back(Opnd()); x.argn.push_back(1); x.argw.push_back(64); continue; } auto* l = layout(a->getType()); x.ops.push_back(opnd(a)); x.argn.push_back(l->size()); x.argw.push_back(l->empty() ? 0 : (*l)[0].w); }
      if (auto* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases()))
      {
        if (cf->isIntrinsic())
        {
          switch (cf->getIntrinsicID())
          {
          case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
          case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::dbg_assign: case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::invariant_end: case Intrinsic::donothing:
            x.op = D_NOP; break;
          default: break;
          }
          if (x.op == D_NOP) break;
        }
        x.callee = dfunc(cf);
      }
      else x.ops.push_back(opnd(cb->getCalledOperand()));
      if (x.invoke) { auto* iv = cast<InvokeInst>(&I); x.edges = {edge(&B, iv->getNormalDest()), edge(&B, iv->getUnwindDest())}; }
      break;
    }
    default: break;
    }
  }
  for (auto& x : d->code) { if (byUid.size() <= x.uid) byUid.resize(x.uid + 1024, nullptr); byUid[x.uid] = &x; }
  d->ninst = d->code.size();
}

static bool intrinsicCall(Exec& X, State& s, DInst& in, Intrinsic::ID id, std::vector<Val>& a, Val& ret, bool& twoRes, Val& ret2);

void Exec::call(State& s, DFunc* d, std::vector<Val>& args, DInst* in, bool)
{
  if (d->bi)
  {
    Val ret; d->executed = true;
    if (d->bi(*this, s, *in, args, ret)) finishCall(s, *in, ret);
    return;
  }
  if (d->decl)
  {
    if (d->F->isIntrinsic())
    {
      Val r, r2; bool two = false;
      if (intrinsicCall(*this, s, *in, d->F->getIntrinsicID(), args, r, two, r2))
      { Frame& f = s.top(); if (in->dst >= 0) { f.regs[in->dst] = r; if (two) f.regs[in->dst + 1] = r2; } if (in->invoke) takeEdge(s, f, in->edges[0]); else f.pc++; return; }
    }
    incReasons.insert("external function: " + d->name); 
    static int extShown = 0; if (verbose && extShown++ < 2) { fprintf(stderr, "EXTERNAL %s\n", d->name.c_str()); for (int i = 0; i < 12; i++) fprintf(stderr, "   at %s\n", stackStr(s, i).c_str()); }
    throw PathEnd{3};
  }
  if (!d->decoded) decode(d);
  d->executed = true;
  if (s.fib[s.cur].st.size() > 400) error(s, "stack", "stack overflow (recursion depth over 400)");
  Frame* n = new Frame; n->f = d; n->regs.resize(d->nslots); n->call = in;
  size_t k = 0; for (size_t i = 0; i < d->argSlot.size(); i++) for (int j = 0; j < d->argN[i]; j++) n->regs[d->argSlot[i] + j] = k < args.size() ? args[k++] : Val(0);
  s.fib[s.cur].st.push_back(n);
}

void Exec::step(State& s, Frame& f, DInst& in)
{
  switch (in.op)
  {
  case D_BIN:
  {
    for (int k = 0; k < in.n; k++)
    {
      Val a = rdo(f, in.ops[0], k), b = rdo(f, in.ops[1], k);
      if (in.sub >= E_UDIV && in.sub <= E_SREM)
      {
        if (!b.e) { if (!b.c) error(s, "arith", "division by zero"); }
        else { Model m; E z = mkBin(E_EQ, b.e, mkConst(0, in.w)); if (query(s, z, m) == SAT) { report(s, "arith", "division by zero", m); if (!mayBe(s, mkNot(z))) throw PathEnd{1}; addPC(s, mkNot(z)); if (!evalExpr(mkNot(z), *s.model)) { Model m2; query(s, mkNot(z), m2); setModel(s, std::move(m2)); } } }
      }
      f.regs[in.dst + k] = binop((ExprOp)in.sub, a, b, in.w);
    }
    f.pc++; return;
  }
  case D_FBIN: for (int k = 0; k < in.n; k++) { Val b = rdo(f, in.ops[1], k); f.regs[in.dst + k] = fpop((ExprOp)in.sub, rdo(f, in.ops[0], k), &b, in.w, in.w); } f.pc++; return;
  case D_FNEG: for (int k = 0; k < in.n; k++) f.regs[in.dst + k] = binop(E_XOR, rdo(f, in.ops[0], k), Val(1ull << (in.w - 1)), in.w); f.pc++; return;
  case D_ICMP: for (int k = 0; k < in.n; k++) f.regs[in.dst + k] = icmp(in.sub, rdo(f, in.ops[0], k), rdo(f, in.ops[1], k), in.w2); f.pc++; return;
  case D_FCMP: for (int k = 0; k < in.n; k++) { Val b = rdo(f, in.ops[1], k); f.regs[in.dst + k] = fpop(E_FCMP, rdo(f, in.ops[0], k), &b, 1, in.w2, in.sub); } f.pc++; return;
  case D_CAST:
    for (int k = 0; k < in.n; k++)
    {
      Val a = rdo(f, in.ops[0], k), r;
      switch (in.sub)
      {
      case Instruction::Trunc: r = a.e ? mkVal(mkExtract(a.e, 0, in.w)) : Val(a.c & mask64(in.w)); break;
      case Instruction::ZExt: r = a.e ? mkVal(mkZext(a.e, in.w)) : in.w > 64 ? Val(mkConst(a.c, in.w), 0) : a; break;
      case Instruction::SExt: r = a.e ? mkVal(mkSext(a.e, in.w)) : in.w > 64 ? Val(mkConst((u128)(i128)sext64(a.c, in.w2), in.w), 0) : Val((uint64_t)sext64(a.c, in.w2) & mask64(in.w)); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: if (in.w == in.w2) r = a; else if (in.w < in.w2) r = a.e ? mkVal(mkExtract(a.e, 0, in.w)) : Val(a.c & mask64(in.w)); else r = a.e ? mkVal(mkZext(a.e, in.w)) : a; break;
      case Instruction::BitCast: r = a; break;
      case Instruction::FPTrunc: r = fpop(E_FPTRUNC, a, nullptr, in.w, in.w2); break;
      case Instruction::FPExt: r = fpop(E_FPEXT, a, nullptr, in.w, in.w2); break;
      case Instruction::FPToSI: r = fpop(E_FPTOSI, a, nullptr, in.w, in.w2); break;
      case Instruction::FPToUI: r = fpop(E_FPTOUI, a, nullptr, in.w, in.w2); break;
      case Instruction::SIToFP: r = fpop(E_SITOFP, a, nullptr, in.w, in.w2); break;
      case Instruction::UIToFP: r = fpop(E_UITOFP, a, nullptr, in.w, in.w2); break;
      }
      f.regs[in.dst + k] = r;
    }
    f.pc++; return;
  case D_SELECT:
  {
    for (int k = 0; k < in.n; k++)
    {
      Val c = rdo(f, in.ops[0], in.sub ? k : 0);
      if (!c.e) f.regs[in.dst + k] = rdo(f, in.ops[c.c ? 1 : 2], k);
      else { unsigned w = (*in.leaves)[k].w; f.regs[in.dst + k] = mkVal(mkIte(c.e, toE(rdo(f, in.ops[1], k), w), toE(rdo(f, in.ops[2], k), w))); }
    }
    f.pc++; return;
  }
  case D_GEP:
  {
    Val p = rdo(f, in.ops[0]);
    for (size_t i = 0; i < in.scale.size(); i++)
    {
      Val x = rdo(f, in.ops[i + 1]); int w = in.scale[i].second; uint64_t sc = in.scale[i].first;
      if (!x.e && !p.e) p.c += (uint64_t)sext64(x.c, w) * sc;
      else { Val y = x.e ? mkVal(w < 64 ? mkSext(x.e, 64) : w > 64 ? mkExtract(x.e, 0, 64) : x.e) : Val((uint64_t)sext64(x.c, w)); p = binop(E_ADD, p, binop(E_MUL, y, Val(sc), 64), 64); }
    }
    if (in.imm) p = binop(E_ADD, p, Val(in.imm), 64);
    f.regs[in.dst] = p; f.pc++; return;
  }
  case D_LOAD:
  {
    Val p = rdo(f, in.ops[0]);
    if (s.raceOn && !p.e) { if (in.sub) { hbAcquire(s, p.c); } else if (!f.f->noRace) raceAccess(s, p.c, in.imm, false, in); }
    if (in.n == 1) { Val v = load(s, p, in.w); s.top().regs[in.dst] = v; s.top().pc++; return; }
    for (int k = 0; k < in.n; k++) { Val v = load(s, binop(E_ADD, p, Val((*in.leaves)[k].off), 64), (*in.leaves)[k].w); s.top().regs[in.dst + k] = v; }
    s.top().pc++; return;
  }
  case D_STORE:
  {
    Val p = rdo(f, in.ops[0]);
    if (s.raceOn && !p.e) { if (in.sub) { hbAcquire(s, p.c); hbRelease(s, p.c); } else if (!f.f->noRace) raceAccess(s, p.c, in.imm, true, in); }
    for (size_t k = 0; k < in.leaves->size(); k++) store(s, k ? binop(E_ADD, p, Val((*in.leaves)[k].off), 64) : p, (*in.leaves)[k].w, rdo(f, in.ops[1], k));
    s.top().pc++; return;
  }
  case D_ALLOCA:
  {
    uint64_t n = concretize(s, rdo(f, in.ops[0]), 64); uint32_t id = s.mem.alloc(in.imm * n, K_STACK);
    memset(s.mem.get(id)->d, 0xA5, in.imm * n); Frame& g = s.top(); g.allocas.push_back(id); g.regs[in.dst] = Val(mkAddr(id)); g.pc++; return;
  }
  case D_BR: takeEdge(s, f, in.edges[0]); return;
  case D_CBR:
  {
    Val c = rdo(f, in.ops[0]); bool t = c.e ? branch(s, c.e) : c.c != 0;
    Frame& g = s.top(); takeEdge(s, g, in.edges[t ? 0 : 1]); return;
  }
  case D_SWITCH:
  {
    Val c = rdo(f, in.ops[0]); int e = 0;
    if (!c.e) { for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == c.c) { e = i + 1; break; } }
    else
    { // decide the edge under the model, fork on the rest
      uint64_t v = (uint64_t)evalExpr(c.e, *s.model); E cond = nullptr; int tgt = -1;
      for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == v) { e = i + 1; break; }
      tgt = in.edges[e].target;
      if (e) { for (size_t i = 0; i < in.cases.size(); i++) if (in.edges[i + 1].target == tgt && in.edges[i + 1].copies.empty()) { E q = mkBin(E_EQ, c.e, mkConst(in.cases[i], in.w2)); cond = cond ? mkBin(E_OR, cond, q) : q; }
               if (!cond) cond = mkBin(E_EQ, c.e, mkConst(v, in.w2)); }
      else { cond = mkConst(1, 1); for (size_t i = 0; i < in.cases.size(); i++) cond = mkBin(E_AND, cond, mkNot(mkBin(E_EQ, c.e, mkConst(in.cases[i], in.w2)))); }
      branch(s, cond); // model satisfies cond, so this state takes it; the copy re-evaluates
    }
    Frame& g = s.top(); takeEdge(s, g, in.edges[e]); return;
  }
  case D_RET:
  {
    Val v[16]; int n = in.n; if (n > 16) die("ret size"); for (int k = 0; k < n; k++) v[k] = rdo(f, in.ops[0], k);
    DInst* c = f.call; popFrame(s);
    if (s.fib[s.cur].st.empty()) throw PathEnd{0};
    Frame& g = s.top(); if (!c) throw PathEnd{0};
    if (c->dst >= 0) for (int k = 0; k < n && k < c->n; k++) g.regs[c->dst + k] = v[k];
    if (c->invoke) takeEdge(s, g, c->edges[0]); else g.pc++;
    return;
  }
  case D_CALL:
  {
    DFunc* d = in.callee; std::vector<Val> args; size_t na = in.argn.size(); args.reserve(na + 2);
    for (size_t i = 0; i < na; i++) for (int k = 0; k < in.argn[i]; k++) args.push_back(rdo(f, in.ops[i], k));
    if (!d)
    {
      Val p = rdo(f, in.ops[na]); uint64_t a = concretize(s, p, 64);
      auto it = fByAddr.find(a); if (it == fByAddr.end()) error(s, "memory", a < 0x1000000 ? "call through null function pointer" : "call through invalid function pointer");
      d = it->second;
    }
    call(s, d, args, &in); return;
  }
  case D_UNREACHABLE: error(s, "unreachable", "unreachable code executed");
  case D_RESUME: { Val e = rdo(f, in.ops[0], 0); unwind(s, e.c); return; }
  case D_LPAD: die("landingpad reached by fallthrough");
  case D_EXTRACTV: for (int k = 0; k < in.n; k++) f.regs[in.dst + k] = rdo(f, in.ops[0], in.imm + k); f.pc++; return;
  case D_INSERTV: for (int k = 0; k < in.n; k++) f.regs[in.dst + k] = (k >= (int)in.imm && k < (int)in.imm + in.w2) ? rdo(f, in.ops[1], k - in.imm) : rdo(f, in.ops[0], k); f.pc++; return;
  case D_RMW:
  {
    Val p = rdo(f, in.ops[0]); Val v = rdo(f, in.ops[1]); Val o = load(s, p, in.w), r;
    if (s.raceOn && !p.e) { hbAcquire(s, p.c); hbRelease(s, p.c); }
    switch (in.sub)
    {
    case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = binop(E_ADD, o, v, in.w); break; case AtomicRMWInst::Sub: r = binop(E_SUB, o, v, in.w); break;
    case AtomicRMWInst::And: r = binop(E_AND, o, v, in.w); break; case AtomicRMWInst::Or: r = binop(E_OR, o, v, in.w); break; case AtomicRMWInst::Xor: r = binop(E_XOR, o, v, in.w); break;
    default: die("atomicrmw");
    }
    store(s, p, in.w, r); Frame& g = s.top(); g.regs[in.dst] = o; g.pc++; return;
  }
  case D_CMPXCHG:
  {
    Val p = rdo(f, in.ops[0]), c = rdo(f, in.ops[1]), n = rdo(f, in.ops[2]); unsigned w = in.w2; Val o = load(s, p, w); Val eq = icmp(CmpInst::ICMP_EQ, o, c, w);
    bool t = eq.e ? branch(s, eq.e) : eq.c; if (t) store(s, p, w, n);
    if (s.raceOn && !p.e) { hbAcquire(s, p.c); if (t) hbRelease(s, p.c); }
    Frame& g = s.top(); g.regs[in.dst] = o; g.regs[in.dst + 1] = Val(t); g.pc++; return;
  }
  case D_FREEZE: for (int k = 0; k < in.n; k++) f.regs[in.dst + k] = rdo(f, in.ops[0], k); f.pc++; return;
  case D_NOP: if (in.invoke) takeEdge(s, f, in.edges[0]); else f.pc++; return;
  case D_EXTRACTE: { uint64_t i = concretize(s, rdo(f, in.ops[1]), 64); Frame& g = s.top(); g.regs[in.dst] = rdo(g, in.ops[0], i); g.pc++; return; }
  case D_INSERTE: { uint64_t i = concretize(s, rdo(f, in.ops[2]), 64); Frame& g = s.top(); for (int k = 0; k < in.n; k++) g.regs[in.dst + k] = k == (int)i ? rdo(g, in.ops[1]) : rdo(g, in.ops[0], k); g.pc++; return; }
  case D_SHUFFLE: for (int k = 0; k < in.n; k++) { int m = in.mask[k]; f.regs[in.dst + k] = m < 0 ? Val(0) : m < (int)in.imm ? rdo(f, in.ops[0], m) : rdo(f, in.ops[1], m - in.imm); } f.pc++; return;
  default:
  { std::string t; raw_string_ostream os(t); in.I->print(os); inconclusive("unsupported instruction: " + os.str()); }
  }
}

void Exec::run(State* sp)
{
  State& s = *sp; int why = 0; uint64_t start = s.steps;
  try
  {
    uint64_t tick = 0;
    while (true)
    {
      Frame& f = s.top(); DInst& in = f.f->code[f.pc];
      s.steps++;
      if ((++tick & 4095) == 0)
      {
        if (s.steps > maxSteps) error(s, "hang", "no termination within the step limit");
        if (timedOut || elapsed() > maxTime) { timedOut = true; throw PathEnd{4}; }
      }
      in.hit = true; step(s, f, in);
    }
  }
  catch (PathEnd& e) { why = e.why; }
  totalSteps += s.steps - start;
  if (why == 4) { delete sp; return; }
  paths++;
  if (why == 0) pathsOk++; else if (why == 2) pathsPruned++; else if (why == 3) pathsInc++;
  if (why == 0 && samples.size() < 4 && (paths % 7 == 1 || samples.empty()))
  {
    std::string wj = "["; for (size_t i = 0; i < s.inputs.size(); i++) { auto& in = s.inputs[i]; wj += (i ? ", [\"" : "[\"") + jesc(in.name) + "\", " + std::to_string(in.w) + ", " + std::to_string((in.sym < s.model->size() ? (*s.model)[in.sym] : 0) & mask64(in.w)) + "]"; }
    witnesses.push_back(wj + "]");
    std::string d; for (size_t i = 0; i < s.inputs.size() && i < 40; i++) { auto& in = s.inputs[i]; d += (i ? ", " : "") + in.name + "=" + std::to_string((in.sym < s.model->size() ? (*s.model)[in.sym] : 0) & mask64(in.w)); }
    samples.push_back({std::to_string(s.pc.size()) + " path constraints", d});
  }
  delete sp;
}
void Exec::loop()
{
  while (!work.empty())
  {
    State* s = work.back(); work.pop_back();
    if (timedOut || elapsed() > maxTime || viols.size() >= maxViol || paths >= maxPaths) { if (viols.size() < maxViol) timedOut = true; delete s; continue; }
    run(s);
  }
}

// ------------------------------------------------------------------ intrinsics
static bool intrinsicCall(Exec& X, State& s, DInst& in, Intrinsic::ID id, std::vector<Val>& a, Val& ret, bool& two, Val& ret2)
{
  unsigned w = in.w;
  auto ov = [&](ExprOp op, bool sg) {
    two = true; ret = binop(op, a[0], a[1], w);
    E x = sg ? mkSext(toE(a[0], w), 2 * w) : mkZext(toE(a[0], w), 2 * w), y = sg ? mkSext(toE(a[1], w), 2 * w) : mkZext(toE(a[1], w), 2 * w);
    E full = mkBin(op, x, y); E back = sg ? mkSext(toE(ret, w), 2 * w) : mkZext(toE(ret, w), 2 * w);
    ret2 = mkVal(mkNot(mkBin(E_EQ, full, back))); };
  auto sel = [&](const Val& c, const Val& x, const Val& y) { return c.e ? mkVal(mkIte(c.e, toE(x, w), toE(y, w))) : c.c ? x : y; };
  switch (id)
  {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
  { uint64_t n = X.concretize(s, a[2], 64); uint64_t d = X.concretize(s, a[0], 64), sr = X.concretize(s, a[1], 64);
    if (s.raceOn && n && !s.top().f->noRace) { X.raceAccess(s, sr, n, false, in); X.raceAccess(s, d, n, true, in); }
    X.copyMem(s, d, sr, n); return true; }
  case Intrinsic::memset:
  { uint64_t n = X.concretize(s, a[2], 64); uint64_t d = X.concretize(s, a[0], 64); if (!n) return true; 
    if (s.raceOn && !s.top().f->noRace) X.raceAccess(s, d, n, true, in);
    Obj* o = X.check(s, d, n, true, "write (fill)"); uint32_t off = X.offOf(d);
    if (!a[1].e) { memset(o->d + off, (int)a[1].c, n); if (o->s) memset(o->s + off, 0, n * sizeof(E)); } else for (uint64_t i = 0; i < n; i++) X.storeRaw(o, off + i, 8, a[1]); return true; }
  case Intrinsic::uadd_with_overflow: ov(E_ADD, false); return true;
  case Intrinsic::sadd_with_overflow: ov(E_ADD, true); return true;
  case Intrinsic::usub_with_overflow: ov(E_SUB, false); return true;
  case Intrinsic::ssub_with_overflow: ov(E_SUB, true); return true;
  case Intrinsic::umul_with_overflow: ov(E_MUL, false); return true;
  case Intrinsic::smul_with_overflow: ov(E_MUL, true); return true;
  case Intrinsic::umin: ret = sel(icmp(CmpInst::ICMP_ULT, a[0], a[1], w), a[0], a[1]); return true;
  case Intrinsic::umax: ret = sel(icmp(CmpInst::ICMP_UGT, a[0], a[1], w), a[0], a[1]); return true;
  case Intrinsic::smin: ret = sel(icmp(CmpInst::ICMP_SLT, a[0], a[1], w), a[0], a[1]); return true;
  case Intrinsic::smax: ret = sel(icmp(CmpInst::ICMP_SGT, a[0], a[1], w), a[0], a[1]); return true;
  case Intrinsic::abs: ret = sel(icmp(CmpInst::ICMP_SLT, a[0], Val(0), w), binop(E_SUB, Val(0), a[0], w), a[0]); return true;
  case Intrinsic::usub_sat: ret = sel(icmp(CmpInst::ICMP_ULT, a[0], a[1], w), Val(0), binop(E_SUB, a[0], a[1], w)); return true;
  case Intrinsic::uadd_sat: { Val r = binop(E_ADD, a[0], a[1], w); ret = sel(icmp(CmpInst::ICMP_ULT, r, a[0], w), Val(mask64(w)), r); return true; }
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: ret = a[0]; return true;
  case Intrinsic::threadlocal_address:
    ret = a[0]; if (s.cur != 0)
    { // every thread has its own copy, initialised as the program's image says
      uint64_t& t = s.tls[{a[0].c, s.cur}]; auto it = X.tlsInit.find(a[0].c);
      if (!t) { if (it == X.tlsInit.end()) X.die("thread-local address"); uint32_t id = s.mem.alloc(it->second.size(), K_GLOBAL); memcpy(s.mem.get(id)->d, it->second.data(), it->second.size()); t = mkAddr(id); }
      ret = Val(t);
    }
    return true;
  case Intrinsic::expect_with_probability: ret = a[0]; return true;
  case Intrinsic::is_constant: ret = Val(0); return true;
  case Intrinsic::objectsize: ret = Val(~0ull & mask64(w)); return true;
  case Intrinsic::stacksave: ret = Val(0); return true;
  case Intrinsic::invariant_start: ret = Val(0); return true;
  case Intrinsic::eh_typeid_for: ret = Val((uint64_t)(uint32_t)X.typeId(a[0].c)); return true;
  case Intrinsic::trap: case Intrinsic::debugtrap: X.error(s, "abort", "trap executed");
  case Intrinsic::ubsantrap: X.error(s, "arith", "undefined arithmetic (overflow or invalid conversion)");
  case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap:
  {
    if (a[0].e)
    {
      if (id == Intrinsic::bswap) { E r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(a[0].e, i, 8); r = r ? mkConcat(r, b) : b; } ret = mkVal(r); return true; }
      E r = mkConst(id == Intrinsic::ctpop ? 0 : w, w);
      if (id == Intrinsic::ctpop) for (unsigned i = 0; i < w; i++) r = mkBin(E_ADD, r, mkZext(mkExtract(a[0].e, i, 1), w));
      else if (id == Intrinsic::cttz) for (int i = w - 1; i >= 0; i--) r = mkIte(mkBin(E_EQ, mkExtract(a[0].e, i, 1), mkConst(1, 1)), mkConst(i, w), r);
      else for (unsigned i = 0; i < w; i++) r = mkIte(mkBin(E_EQ, mkExtract(a[0].e, i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r);
      ret = mkVal(r); return true;
    }
    uint64_t v = a[0].c;
    if (id == Intrinsic::ctpop) ret = Val(__builtin_popcountll(v));
    else if (id == Intrinsic::ctlz) ret = Val(v ? __builtin_clzll(v) - (64 - w) : w);
    else if (id == Intrinsic::cttz) ret = Val(v ? __builtin_ctzll(v) : w);
    else ret = Val(__builtin_bswap64(v) >> (64 - w));
    return true;
  }
  case Intrinsic::fshl: case Intrinsic::fshr:
  {
    E c = mkConcat(toE(a[0], w), toE(a[1], w)); E sh = mkZext(mkBin(E_UREM, toE(a[2], w), mkConst(w, w)), 2 * w);
    if (id == Intrinsic::fshl) ret = mkVal(mkExtract(mkBin(E_SHL, c, sh), w, w)); else ret = mkVal(mkExtract(mkBin(E_LSHR, c, sh), 0, w));
    return true;
  }
  case Intrinsic::fabs: ret = binop(E_AND, a[0], Val(mask64(w) >> 1), w); return true;
  case Intrinsic::floor: ret = fpop(E_FROUND, a[0], nullptr, w, w, 1); return true;
  case Intrinsic::ceil: ret = fpop(E_FROUND, a[0], nullptr, w, w, 2); return true;
  case Intrinsic::trunc: ret = fpop(E_FROUND, a[0], nullptr, w, w, 3); return true;
  case Intrinsic::round: ret = fpop(E_FROUND, a[0], nullptr, w, w, 0); return true;
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: ret = fpop(E_FROUND, a[0], nullptr, w, w, 4); return true;
  case Intrinsic::sqrt: ret = fpop(E_FSQRT, a[0], nullptr, w, w); return true;
  case Intrinsic::fmuladd: case Intrinsic::fma: { Val t = fpop(E_FMUL, a[0], &a[1], w, w); ret = fpop(E_FADD, t, &a[2], w, w); return true; }
  case Intrinsic::lround: case Intrinsic::llround: { Val t = fpop(E_FROUND, a[0], nullptr, in.argw[0], in.argw[0], 0); ret = fpop(E_FPTOSI, t, nullptr, w, in.argw[0]); return true; }
  case Intrinsic::lrint: case Intrinsic::llrint: { Val t = fpop(E_FROUND, a[0], nullptr, in.argw[0], in.argw[0], 4); ret = fpop(E_FPTOSI, t, nullptr, w, in.argw[0]); return true; }
  case Intrinsic::minnum: case Intrinsic::maxnum: { Val c = fpop(E_FCMP, a[0], &a[1], 1, w, id == Intrinsic::minnum ? 4 : 2); ret = sel(c, a[0], a[1]); return true; }
  case Intrinsic::copysign: ret = binop(E_OR, binop(E_AND, a[0], Val(mask64(w) >> 1), w), binop(E_AND, a[1], Val(1ull << (w - 1)), w), w); return true;
  case Intrinsic::is_fpclass:
  {
    if (a[0].e || (in.argw[0] != 64 && in.argw[0] != 32)) {
      // only nan / inf tests
      unsigned fw = in.argw[0]; uint64_t mask = a[1].c; E x = toE(a[0], fw); E absx = mkBin(E_AND, x, mkConst(mask64(fw) >> 1, fw)); uint64_t infb = fw == 64 ? 0x7ff0000000000000ull : 0x7f800000ull;
      E r = mkConst(0, 1); if (mask & 3) r = mkBin(E_OR, r, mkBin(E_ULT, mkConst(infb, fw), absx)); if (mask & 0x204) r = mkBin(E_OR, r, mkBin(E_EQ, absx, mkConst(infb, fw)));
      if (mask & ~0x207ull) X.inconclusive("is_fpclass"); ret = mkVal(r); return true; }
    double d; if (in.argw[0] == 64) memcpy(&d, &a[0].c, 8); else { float fl; uint32_t u = a[0].c; memcpy(&fl, &u, 4); d = fl; }
    uint64_t mask = a[1].c; bool neg = std::signbit(d); bool r = false;
    switch (std::fpclassify(d)) { case FP_NAN: r = mask & 3; break; case FP_INFINITE: r = mask & (neg ? 4 : 0x200); break; case FP_NORMAL: r = mask & (neg ? 8 : 0x100); break; case FP_SUBNORMAL: r = mask & (neg ? 0x10 : 0x80); break; case FP_ZERO: r = mask & (neg ? 0x20 : 0x40); break; }
    ret = Val(r); return true;
  }
  case Intrinsic::vastart: return true;
  default: return false;
  }
}

#include "builtins.inc"

void Exec::setup(Module* m)
{
  // accesses to thread-local variables that name them directly (the guards of dynamic initialisation)
  std::vector<Constant*> tl; for (auto& G : m->globals()) if (G.isThreadLocal()) tl.push_back(&G);
  if (!tl.empty()) convertUsersOfConstantsToInstructions(tl);
  for (auto& F : *m) for (auto& B : F) for (auto& I : B)
  {
    if (auto* II = dyn_cast<IntrinsicInst>(&I)) if (II->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
    if (isa<PHINode>(I)) continue;
    for (auto& U : I.operands()) if (auto* G = dyn_cast<GlobalVariable>(U.get())) if (G->isThreadLocal()) { IRBuilder<> b(&I); U.set(b.CreateThreadLocalAddress(G)); }
  }
  M = m; DL = &m->getDataLayout(); init = new State; State& s = *init; s.fib.resize(1);
  registerBuiltins(*this);
  for (auto& F : *m)
  {
    DFunc* d = dfunc(&F); uint32_t id = s.mem.alloc(1, K_FUNC); d->addr = mkAddr(id); gaddr[&F] = d->addr; fByAddr[d->addr] = d;
    if (auto* sp = F.getSubprogram()) { d->file = (sp->getDirectory().empty() || sp->getFilename().starts_with("/") ? "" : sp->getDirectory().str() + "/") + sp->getFilename().str(); d->fromRepo = d->file.compare(0, repoPrefix.size(), repoPrefix) == 0; d->noRace = d->file.find("/rt/rt_") != std::string::npos; }
  }
  for (auto& G : m->globals())
  {
    uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 8; if (G.isDeclaration() && sz < 128) sz = 128;
    uint32_t id = s.mem.alloc(sz, K_GLOBAL); memset(s.mem.get(id)->d, 0, sz); gaddr[&G] = mkAddr(id); gByAddr[mkAddr(id)] = &G; ngaddr[G.getName().str()] = mkAddr(id);
  }
  for (auto& G : m->globals()) if (G.hasInitializer()) { Obj* o = s.mem.get(gaddr[&G] >> 32); storeConst(o, 0, G.getInitializer()); }
  for (auto& G : m->globals()) if (G.isDeclaration() && G.getName().starts_with("_ZTI"))
  { // type information of the C++ library: its name
    std::string n = G.getName().substr(4).str(); uint32_t id = s.mem.alloc(n.size() + 1, K_GLOBAL); memcpy(s.mem.get(id)->d, n.c_str(), n.size() + 1); s.mem.get(id)->ro = true;
    uint64_t a = mkAddr(id); memcpy(s.mem.get(gaddr[&G] >> 32)->d + 8, &a, 8);
  }
  for (auto& G : m->globals()) if (G.isThreadLocal()) { Obj* o = s.mem.get(gaddr[&G] >> 32); tlsInit[gaddr[&G]] = std::vector<uint8_t>(o->d, o->d + o->size); }
  for (auto& G : m->globals()) if (G.isConstant()) s.mem.get(gaddr[&G] >> 32)->ro = true;
}

static std::string jesc(const std::string& s)
{ std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

// Marks scheduling points before sequentially consistent atomic accesses, so that the executor and native replay share them.
static int instrument(const std::string& in, const std::string& out, const std::string& entry)
{
  LLVMContext C; SMDiagnostic Err; auto M = parseIRFile(in, Err, C); if (!M) { Err.print("sx", errs()); return 3; }
  FunctionCallee Y = M->getOrInsertFunction("vp_atomic_yield", FunctionType::get(Type::getVoidTy(C), false));
  for (auto& F : *M)
  {
    if (F.isDeclaration()) continue;
    bool rt = false; if (auto* sp = F.getSubprogram()) rt = sp->getFilename().contains("/rt/rt_");
    if (!rt && !F.getName().starts_with("vp_")) { F.addFnAttr(Attribute::SanitizeAddress); F.addFnAttr(Attribute::SanitizeThread); }
    if (rt) continue;
    std::vector<Instruction*> at;
    for (auto& B : F) for (auto& I : B)
    {
      AtomicOrdering o = AtomicOrdering::NotAtomic;
      if (auto* l = dyn_cast<LoadInst>(&I)) o = l->getOrdering(); else if (auto* s = dyn_cast<StoreInst>(&I)) o = s->getOrdering();
      else if (auto* r = dyn_cast<AtomicRMWInst>(&I)) o = r->getOrdering(); else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&I)) o = x->getSuccessOrdering();
      if (o == AtomicOrdering::SequentiallyConsistent) at.push_back(&I);
    }
    for (auto* I : at) { auto* c = CallInst::Create(Y, "", I); c->setDebugLoc(I->getDebugLoc()); if (!I->getDebugLoc() && F.getSubprogram()) c->setDebugLoc(DILocation::get(C, 0, 0, F.getSubprogram())); }
  }
  (void)entry;
  std::error_code ec; raw_fd_ostream os(out, ec); if (ec) { fprintf(stderr, "cannot write %s\n", out.c_str()); return 3; }
  WriteBitcodeToFile(*M, os); return 0;
}

int main(int argc, char** argv)
{
  if (argc >= 4 && std::string(argv[1]) == "--instrument") return instrument(argv[2], argv[3], "");
  std::string bc, fn = "harness", out; Exec X; unsigned qto = 30000;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    if (a == "--fn") fn = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--max-time") X.maxTime = atof(argv[++i]);
    else if (a == "--max-steps") X.maxSteps = atoll(argv[++i]); else if (a == "--max-viol") X.maxViol = atoi(argv[++i]); else if (a == "-v") X.verbose = true;
    else if (a == "--query-timeout") qto = atoi(argv[++i]); else if (a == "--max-paths") X.maxPaths = atoll(argv[++i]); else if (a == "--profile") X.profile = true;
    else if (a == "--repo-prefix") X.repoPrefix = argv[++i]; else if (a == "--no-race") X.raceCheck = false; else bc = a;
  }
  LLVMContext C; SMDiagnostic Err; auto M = parseIRFile(bc, Err, C);
  if (!M) { Err.print("sx", errs()); return 3; }
  solverInit(qto); X.t0 = std::chrono::steady_clock::now();
  X.setup(M.get());
  Function* H = M->getFunction(fn); if (!H || H->isDeclaration()) { fprintf(stderr, "ENGINE-ERROR: no function %s\n", fn.c_str()); return 3; }
  // constructors, in priority order, then the harness, from one synthetic driver: run each to completion on the initial state
  std::vector<std::pair<uint64_t, Function*>> ctors;
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  State* s = X.init;
  bool initOk = true;
  for (auto& c : ctors)
  {
    std::vector<Val> none; X.call(*s, X.dfunc(c.second), none, nullptr);
    try { while (true) { Frame& f = s->top(); X.step(*s, f, f.f->code[f.pc]); s->steps++; } } catch (PathEnd& e) { if (e.why != 0) { initOk = false; fprintf(stderr, "ENGINE-ERROR: static initialisation failed in %s\n", c.second->getName().str().c_str()); for (auto& r : X.incReasons) fprintf(stderr, "  %s\n", r.c_str()); for (auto& v : X.viols) fprintf(stderr, "  %s\n", v.msg.c_str()); } }
    if (!initOk) break;
  }
  if (!initOk) return 3;
  { std::vector<Val> none; s->steps = 0; X.call(*s, X.dfunc(H), none, nullptr); X.pushWork(s); X.loop(); }

  if (const char* cov = getenv("VP_COV"))
  { // executed lines of the repository, for tools/coverage.py
    std::set<std::pair<std::string, unsigned>> H, M;
    std::set<const Instruction*> hit; for (auto& p : X.fByF) for (auto& d : p.second->code) if (d.hit && d.I) hit.insert(d.I);
    for (auto& p : X.fByF) if (!p.second->decl) for (auto& B : *p.second->F) for (auto& I : B) if (DILocation* l = I.getDebugLoc().get()) if (l->getLine() && l->getFilename().starts_with(X.repoPrefix)) (hit.count(&I) ? H : M).insert({l->getFilename().str().substr(X.repoPrefix.size()), l->getLine()});
    if (FILE* fo = fopen((std::string(cov) + "/" + std::to_string(getpid())).c_str(), "w")) { for (auto& h : H) fprintf(fo, "H %s:%u\n", h.first.c_str(), h.second); for (auto& h : M) if (!H.count(h)) fprintf(fo, "M %s:%u\n", h.first.c_str(), h.second); fclose(fo); }
  }
  std::string j = "{\n";
  auto kv = [&](const char* k, const std::string& v, bool last = false) { j += std::string(" \"") + k + "\": " + v + (last ? "\n" : ",\n"); };
  kv("function", "\"" + fn + "\"");
  kv("complete", (!X.timedOut && X.pathsInc == 0 && X.viols.size() < X.maxViol) ? "true" : "false");
  kv("timed_out", X.timedOut ? "true" : "false");
  kv("paths", std::to_string(X.paths)); kv("paths_ok", std::to_string(X.pathsOk)); kv("paths_pruned", std::to_string(X.pathsPruned)); kv("paths_inconclusive", std::to_string(X.pathsInc));
  kv("forks", std::to_string(X.forks)); kv("instructions", std::to_string(X.totalSteps)); kv("assertions_checked", std::to_string(X.asserts)); kv("assertion_queries", std::to_string(X.assertQueries));
  kv("queries", std::to_string(gStats.queries)); kv("sat", std::to_string(gStats.sat)); kv("unsat", std::to_string(gStats.unsat)); kv("unknown", std::to_string(gStats.unknown));
  kv("query_cache_hits", std::to_string(gStats.cacheHits)); kv("model_hits", std::to_string(gStats.modelHits)); kv("solver_s", std::to_string(gStats.seconds)); kv("max_query_s", std::to_string(gStats.maxQuery));
  kv("wall_s", std::to_string(X.elapsed())); kv("expressions", std::to_string(exprCount()));
  { struct rusage ru; getrusage(RUSAGE_SELF, &ru); kv("max_rss_mb", std::to_string(ru.ru_maxrss / 1024)); }
  { std::string t = "["; bool first = true; for (auto& r : X.incReasons) { t += (first ? "" : ", ") + ("\"" + jesc(r) + "\""); first = false; } kv("inconclusive", t + "]"); }
  { std::string t = "["; bool first = true; for (auto& r : X.reached) { t += (first ? "" : ", ") + ("\"" + jesc(r) + "\""); first = false; } kv("reached", t + "]"); }
  { std::string t = "["; bool first = true; for (auto& p : X.repoFunctions()) { t += (first ? "" : ", ") + ("\"" + jesc(p) + "\""); first = false; } kv("functions", t + "]"); }
  { std::string t = "["; bool first = true; for (auto& p : X.samples) { t += (first ? "" : ", ") + ("\"" + jesc(p.second) + " (" + p.first + ")\""); first = false; } kv("samples", t + "]"); }
  { std::string t = "["; bool first = true; for (auto& p : X.witnesses) { t += (first ? "\n  " : ",\n  ") + p; first = false; } kv("witnesses", t + "]"); }
  if (X.profile) { std::vector<std::pair<uint64_t, std::string>> v; for (auto& p : X.forkSites) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%8llu forks  %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  j += " \"violations\": [";
  bool fv = true;
  for (auto& v : X.viols)
  {
    j += std::string(fv ? "" : ",") + "\n  {\"kind\": \"" + jesc(v.kind) + "\", \"msg\": \"" + jesc(v.msg) + "\", \"where\": \"" + jesc(v.where) + "\", \"inputs\": ["; fv = false;
    bool fi = true; for (auto& in : v.inputs) { j += std::string(fi ? "" : ", ") + "[\"" + jesc(in.first.name) + "\", " + std::to_string(in.first.w) + ", " + std::to_string(in.second) + "]"; fi = false; }
    j += "], \"stack\": ["; fi = true; for (auto& x : v.stack) { j += std::string(fi ? "" : ", ") + "\"" + jesc(x) + "\""; fi = false; }
    j += "]}";
  }
  j += "]\n}\n";
  if (!out.empty()) { FILE* fo = fopen(out.c_str(), "w"); if (fo) { fputs(j.c_str(), fo); fclose(fo); } } else fputs(j.c_str(), stdout);
  fflush(stdout); _exit(X.viols.empty() ? 0 : 1);
}
