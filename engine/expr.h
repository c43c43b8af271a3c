// Symbolic bit-vector / floating point expressions: hash-consed DAG with simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <memory>
#include <unordered_map>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum ExprOp : uint8_t {
  E_CONST, E_SYM,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FREM,
  E_FCMP,      // p = predicate (llvm FCmp predicate)
  E_FPTOSI, E_FPTOUI, E_SITOFP, E_UITOFP, E_FPEXT, E_FPTRUNC,
  E_FROUND,    // p: 0 rna(round) 1 floor 2 ceil 3 trunc 4 rne
  E_FSQRT
};

struct SymSet;  // sorted vector of symbol ids

struct Expr {
  ExprOp op;
  uint8_t nk;
  bool fp;          // contains floating point operators
  uint16_t w;
  uint32_t p;       // predicate / extract low bit / symbol id
  uint32_t id;
  uint32_t hash;
  u128 c;
  const Expr* k[3];
  mutable const SymSet* syms;
  mutable void* z;  // Z3_ast
};
typedef const Expr* E;

struct SymSet { std::vector<uint32_t> v; };

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext64(uint64_t v, unsigned w)
{ return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
inline i128 sext128(u128 v, unsigned w)
{ return w >= 128 ? (i128)v : ((i128)(v << (128 - w))) >> (128 - w); }

E mkConst(u128 v, unsigned w);
E mkSym(uint32_t id, unsigned w);
E mkBin(ExprOp op, E a, E b);            // arithmetic / logic / compare (compare -> w=1)
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkNot(E a);                            // w==1
E mkFp(ExprOp op, E a, E b, unsigned w, uint32_t p = 0);
inline bool isConst(E e) { return e->op == E_CONST; }
inline bool isTrue(E e) { return e->op == E_CONST && e->c == 1; }
inline bool isFalse(E e) { return e->op == E_CONST && e->c == 0; }

const SymSet& symsOf(E e);
typedef std::vector<uint64_t> Model;     // value per symbol id (missing = 0)
u128 evalExpr(E e, const Model& m);
std::string exprStr(E e, int depth = 6);
size_t exprCount();

bool foldFp(ExprOp op, uint32_t p, u128 a, u128 b, unsigned w, unsigned wa, u128& out);

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0;
  double seconds = 0; double maxQuery = 0;
};
extern SolverStats gStats;
void solverInit(unsigned timeoutMs);
enum SatRes { SAT, UNSAT, UNKNOWN };
// Is the conjunction of `cs` (which are transitively closed slices) satisfiable? Fills model for symbols.
SatRes solveSlice(const std::vector<E>& cs, Model& model);
