#include "expr.h"
#include <z3.h>
#include <cmath>
#include <cstring>
#include <chrono>
#include <algorithm>
#include <map>
#include <set>
#include <cstdio>
#include <cstdlib>

// ---------------------------------------------------------------- hash consing
static std::vector<char*> gChunks;
static size_t gChunkPos = 0;
static const size_t CHUNK = 1 << 20;
static Expr* allocExpr()
{
  size_t sz = (sizeof(Expr) + 15) & ~size_t(15);
  if (gChunks.empty() || gChunkPos + sz > CHUNK)
  { gChunks.push_back((char*)aligned_alloc(16, CHUNK)); gChunkPos = 0; }
  Expr* e = (Expr*)(gChunks.back() + gChunkPos); gChunkPos += sz; return e;
}
static std::vector<E> gTable(1 << 16, nullptr);
static size_t gCount = 0;
size_t exprCount() { return gCount; }

static uint32_t hashKey(ExprOp op, unsigned w, uint32_t p, u128 c, E a, E b, E d)
{
  uint64_t h = op * 0x9E3779B97F4A7C15ull + w * 0x85EBCA6Bull + p * 0xC2B2AE35ull;
  h ^= (uint64_t)c * 0x27D4EB2F165667C5ull; h ^= (uint64_t)(c >> 64) * 0x165667B19E3779F9ull;
  h = h * 31 + (a ? a->id + 1 : 0); h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
  h = h * 31 + (b ? b->id + 1 : 0); h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
  h = h * 31 + (d ? d->id + 1 : 0); h *= 0x9E3779B97F4A7C15ull; h ^= h >> 32;
  return (uint32_t)h;
}
static E intern(ExprOp op, unsigned w, uint32_t p, u128 c, E a = nullptr, E b = nullptr, E d = nullptr)
{
  uint32_t h = hashKey(op, w, p, c, a, b, d);
  size_t m = gTable.size() - 1, i = h & m;
  while (gTable[i])
  {
    E e = gTable[i];
    if (e->hash == h && e->op == op && e->w == w && e->p == p && e->c == c && e->k[0] == a
        && e->k[1] == b && e->k[2] == d) return e;
    i = (i + 1) & m;
  }
  Expr* e = allocExpr();
  e->op = op; e->w = w; e->p = p; e->c = c; e->hash = h; e->id = gCount++;
  e->k[0] = a; e->k[1] = b; e->k[2] = d; e->nk = d ? 3 : b ? 2 : a ? 1 : 0;
  e->syms = nullptr; e->z = nullptr;
  e->fp = (op >= E_FADD) || (a && a->fp) || (b && b->fp) || (d && d->fp);
  gTable[i] = e;
  if (gCount * 2 > gTable.size())
  {
    std::vector<E> t(gTable.size() * 2, nullptr); size_t m2 = t.size() - 1;
    for (E x : gTable) if (x) { size_t j = x->hash & m2; while (t[j]) j = (j + 1) & m2; t[j] = x; }
    gTable.swap(t);
  }
  return e;
}

E mkConst(u128 v, unsigned w) { return intern(E_CONST, w, 0, v & maskw(w)); }
E mkSym(uint32_t id, unsigned w) { return intern(E_SYM, w, id, 0); }
E mkNot(E a)
{
  if (isConst(a)) return mkConst(a->c ^ 1, 1);
  if (a->op == E_XOR && isTrue(a->k[1])) return a->k[0];
  return intern(E_XOR, 1, 0, 0, a, mkConst(1, 1));
}

static u128 foldBin(ExprOp op, u128 a, u128 b, unsigned w, bool& ok)
{
  ok = true;
  switch (op)
  {
  case E_ADD: return a + b;
  case E_SUB: return a - b;
  case E_MUL: return a * b;
  case E_UDIV: if (!b) return maskw(w); return a / b;
  case E_UREM: if (!b) return a; return a % b;
  case E_SDIV: { i128 x = sext128(a, w), y = sext128(b, w); if (!y) return x < 0 ? 1 : maskw(w);
                 if (y == -1) return (u128)0 - (u128)x; return (u128)(x / y); }
  case E_SREM: { i128 x = sext128(a, w), y = sext128(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y); }
  case E_AND: return a & b;
  case E_OR: return a | b;
  case E_XOR: return a ^ b;
  case E_SHL: return b >= w ? 0 : a << (unsigned)b;
  case E_LSHR: return b >= w ? 0 : a >> (unsigned)b;
  case E_ASHR: { i128 x = sext128(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)); }
  case E_EQ: return a == b;
  case E_ULT: return a < b;
  case E_ULE: return a <= b;
  case E_SLT: return sext128(a, w) < sext128(b, w);
  case E_SLE: return sext128(a, w) <= sext128(b, w);
  default: ok = false; return 0;
  }
}
static inline bool isCmp(ExprOp op) { return op >= E_EQ && op <= E_SLE; }
static inline bool isComm(ExprOp op)
{ return op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ; }

static int popcount128(u128 v) { return __builtin_popcountll((uint64_t)v) + __builtin_popcountll((uint64_t)(v >> 64)); }
static int ctz128(u128 v) { return (uint64_t)v ? __builtin_ctzll((uint64_t)v) : 64 + __builtin_ctzll((uint64_t)(v >> 64)); }
// upper bound on value (number of possibly non-zero low bits)
static unsigned activeBits(E e, int d = 4)
{
  if (e->op == E_CONST) { unsigned n = 0; u128 c = e->c; while (c) { n++; c >>= 1; } return n; }
  if (d == 0) return e->w;
  switch (e->op)
  {
  case E_ZEXT: return activeBits(e->k[0], d - 1);
  case E_AND: return std::min(activeBits(e->k[0], d - 1), activeBits(e->k[1], d - 1));
  case E_OR: case E_XOR: return std::max(activeBits(e->k[0], d - 1), activeBits(e->k[1], d - 1));
  case E_ITE: return std::max(activeBits(e->k[1], d - 1), activeBits(e->k[2], d - 1));
  case E_LSHR: if (isConst(e->k[1])) { unsigned a = activeBits(e->k[0], d - 1); return e->k[1]->c >= a ? 0 : a - (unsigned)e->k[1]->c; } return e->w;
  case E_CONCAT: { unsigned h = activeBits(e->k[0], d - 1); return h ? h + e->k[1]->w : activeBits(e->k[1], d - 1); }
  case E_ADD: { unsigned a = std::max(activeBits(e->k[0], d - 1), activeBits(e->k[1], d - 1)) + 1; return std::min<unsigned>(a, e->w); }
  default: return e->w;
  }
}

E mkBin(ExprOp op, E a, E b)
{
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
  unsigned rw = isCmp(op) ? 1 : w;
  if (isConst(a) && isConst(b)) { bool ok; u128 r = foldBin(op, a->c, b->c, w, ok); if (ok) return mkConst(r, rw); }
  if (isComm(op) && isConst(a)) std::swap(a, b);
  if (isComm(op) && !isConst(b) && a->id > b->id) std::swap(a, b);
  bool bc = isConst(b); u128 c = bc ? b->c : 0; u128 full = maskw(w);
  switch (op)
  {
  case E_ADD:
    if (bc && c == 0) return a;
    if (bc && a->op == E_ADD && isConst(a->k[1])) return mkBin(E_ADD, a->k[0], mkConst(a->k[1]->c + c, w));
    if (bc && a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2]))
      return mkIte(a->k[0], mkConst(a->k[1]->c + c, w), mkConst(a->k[2]->c + c, w));
    // (x - y) + y
    if (a->op == E_SUB && a->k[1] == b) return a->k[0];
    if (b->op == E_SUB && b->k[1] == a) return b->k[0];
    break;
  case E_SUB:
    if (a == b) return mkConst(0, w);
    if (bc) return mkBin(E_ADD, a, mkConst((u128)0 - c, w));
    if (a->op == E_ADD && a->k[0] == b) return a->k[1];
    if (a->op == E_ADD && a->k[1] == b) return a->k[0];
    break;
  case E_MUL:
    if (bc && c == 0) return b;
    if (bc && c == 1) return a;
    if (bc && popcount128(c) == 1) return mkBin(E_SHL, a, mkConst(ctz128(c), w));
    break;
  case E_UDIV:
    if (bc && c == 1) return a;
    if (bc && popcount128(c) == 1) return mkBin(E_LSHR, a, mkConst(ctz128(c), w));
    break;
  case E_UREM:
    if (bc && popcount128(c) == 1) return mkBin(E_AND, a, mkConst(c - 1, w));
    break;
  case E_SDIV: if (bc && c == 1) return a; break;
  case E_AND:
    if (bc && c == 0) return b;
    if (bc && c == full) return a;
    if (a == b) return a;
    if (bc && a->op == E_AND && isConst(a->k[1])) return mkBin(E_AND, a->k[0], mkConst(a->k[1]->c & c, w));
    if (bc && popcount128(c + 1) == 1 && c != full)
    { // low mask
      unsigned n = popcount128(c);
      if (activeBits(a) <= n) return a;
      return mkZext(mkExtract(a, 0, n), w);
    }
    if (w == 1) { if (a->op == E_XOR && isTrue(a->k[1]) && a->k[0] == b) return mkConst(0, 1);
                  if (b->op == E_XOR && isTrue(b->k[1]) && b->k[0] == a) return mkConst(0, 1); }
    break;
  case E_OR:
    if (bc && c == 0) return a;
    if (bc && c == full) return b;
    if (a == b) return a;
    // disjoint (zext lo) | (shl hi n)
    if (a->op == E_SHL && b->op != E_SHL) std::swap(a, b);
    if (b->op == E_SHL && isConst(b->k[1]))
    {
      unsigned n = (unsigned)b->k[1]->c;
      if (n && n < w && activeBits(a) <= n) return mkConcat(mkExtract(b->k[0], 0, w - n), mkExtract(a, 0, n));
    }
    if (b->op == E_CONCAT && isConst(b->k[1]) && b->k[1]->c == 0 && activeBits(a) <= b->k[1]->w)
      return mkConcat(b->k[0], mkExtract(a, 0, b->k[1]->w));
    if (a->op == E_CONCAT && isConst(a->k[1]) && a->k[1]->c == 0 && activeBits(b) <= a->k[1]->w)
      return mkConcat(a->k[0], mkExtract(b, 0, a->k[1]->w));
    if (w == 1) { if (a->op == E_XOR && isTrue(a->k[1]) && a->k[0] == b) return mkConst(1, 1);
                  if (b->op == E_XOR && isTrue(b->k[1]) && b->k[0] == a) return mkConst(1, 1); }
    if (isComm(op) && a->id > b->id && !isConst(b)) std::swap(a, b);
    break;
  case E_XOR:
    if (bc && c == 0) return a;
    if (a == b) return mkConst(0, w);
    if (bc && a->op == E_XOR && isConst(a->k[1])) return mkBin(E_XOR, a->k[0], mkConst(a->k[1]->c ^ c, w));
    if (w == 1 && bc && a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2]))
      return mkIte(a->k[0], mkConst(a->k[1]->c ^ c, 1), mkConst(a->k[2]->c ^ c, 1));
    break;
  case E_SHL:
    if (bc && c == 0) return a;
    if (bc && c >= w) return mkConst(0, w);
    if (bc) return mkConcat(mkExtract(a, 0, w - (unsigned)c), mkConst(0, (unsigned)c));
    if (isConst(a) && a->c == 0) return a;
    break;
  case E_LSHR:
    if (bc && c == 0) return a;
    if (bc && c >= w) return mkConst(0, w);
    if (bc) return mkZext(mkExtract(a, (unsigned)c, w - (unsigned)c), w);
    if (isConst(a) && a->c == 0) return a;
    break;
  case E_ASHR:
    if (bc && c == 0) return a;
    if (bc) { unsigned n = c >= w ? w - 1 : (unsigned)c; return mkSext(mkExtract(a, n, w - n), w); }
    break;
  case E_EQ:
    if (a == b) return mkConst(1, 1);
    if (w == 1 && bc) return c ? a : mkNot(a);
    if (bc)
    {
      if (a->op == E_ZEXT)
      {
        unsigned iw = a->k[0]->w;
        if (c & ~maskw(iw)) return mkConst(0, 1);
        return mkBin(E_EQ, a->k[0], mkConst(c, iw));
      }
      if (a->op == E_SEXT)
      {
        unsigned iw = a->k[0]->w;
        if (((u128)sext128(c & maskw(iw), iw) & full) != c) return mkConst(0, 1);
        return mkBin(E_EQ, a->k[0], mkConst(c, iw));
      }
      if (a->op == E_ADD && isConst(a->k[1])) return mkBin(E_EQ, a->k[0], mkConst(c - a->k[1]->c, w));
      if (a->op == E_XOR && isConst(a->k[1])) return mkBin(E_EQ, a->k[0], mkConst(c ^ a->k[1]->c, w));
      if (a->op == E_ITE)
      {
        E x = a->k[1], y = a->k[2];
        if (isConst(x) && isConst(y))
        {
          bool ex = x->c == c, ey = y->c == c;
          if (ex && ey) return mkConst(1, 1);
          if (ex) return a->k[0];
          if (ey) return mkNot(a->k[0]);
          return mkConst(0, 1);
        }
        if (isConst(x) || isConst(y))
          return mkIte(a->k[0], mkBin(E_EQ, x, b), mkBin(E_EQ, y, b));
      }
      if (a->op == E_CONCAT)
      {
        unsigned lw = a->k[1]->w;
        E lo = mkBin(E_EQ, a->k[1], mkConst(c & maskw(lw), lw));
        if (isFalse(lo)) return lo;
        E hi = mkBin(E_EQ, a->k[0], mkConst(c >> lw, a->k[0]->w));
        return mkBin(E_AND, hi, lo);
      }
      unsigned ab = activeBits(a);
      if (ab < w && (c >> ab)) return mkConst(0, 1);
    }
    else if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w)
      return mkBin(E_EQ, a->k[0], b->k[0]);
    else if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w)
      return mkBin(E_EQ, a->k[0], b->k[0]);
    break;
  case E_ULT:
    if (a == b) return mkConst(0, 1);
    if (bc && c == 0) return mkConst(0, 1);
    if (bc && c == 1) return mkBin(E_EQ, a, mkConst(0, w));
    if (isConst(a) && a->c == full) return mkConst(0, 1);
    if (isConst(a) && a->c == 0) return mkNot(mkBin(E_EQ, b, a));
    if (bc && a->op == E_ZEXT) { unsigned iw = a->k[0]->w; if (c > maskw(iw)) return mkConst(1, 1); return mkBin(E_ULT, a->k[0], mkConst(c, iw)); }
    if (isConst(a) && b->op == E_ZEXT) { unsigned iw = b->k[0]->w; if (a->c >= maskw(iw)) return mkConst(0, 1); return mkBin(E_ULT, mkConst(a->c, iw), b->k[0]); }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_ULT, a->k[0], b->k[0]);
    if (bc) { unsigned ab = activeBits(a); if (ab < 128 && ((u128)1 << ab) <= c) return mkConst(1, 1); }
    if (bc && a->op == E_ITE && (isConst(a->k[1]) || isConst(a->k[2]))) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    if (isConst(a) && b->op == E_ITE && (isConst(b->k[1]) || isConst(b->k[2]))) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
    break;
  case E_ULE: return mkNot(mkBin(E_ULT, b, a));
  case E_SLT:
    if (a == b) return mkConst(0, 1);
    if (bc && a->op == E_ZEXT && a->k[0]->w < w)
    { if ((c >> (w - 1)) & 1) return mkConst(0, 1); return mkBin(E_ULT, a, b); }
    if (isConst(a) && b->op == E_ZEXT && b->k[0]->w < w)
    { if ((a->c >> (w - 1)) & 1) return mkConst(1, 1); return mkBin(E_ULT, a, b); }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w < w && b->k[0]->w < w) return mkBin(E_ULT, a, b);
    if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_SLT, a->k[0], b->k[0]);
    if (bc && a->op == E_ITE && (isConst(a->k[1]) || isConst(a->k[2]))) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    if (isConst(a) && b->op == E_ITE && (isConst(b->k[1]) || isConst(b->k[2]))) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
    break;
  case E_SLE: return mkNot(mkBin(E_SLT, b, a));
  default: break;
  }
  return intern(op, rw, 0, 0, a, b);
}

E mkIte(E c, E a, E b)
{
  if (isConst(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == E_XOR && isTrue(c->k[1])) return mkIte(c->k[0], b, a);
  if (a->w == 1)
  {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkBin(E_OR, c, b);
    if (isFalse(a)) return mkBin(E_AND, mkNot(c), b);
    if (isFalse(b)) return mkBin(E_AND, c, a);
    if (isTrue(b)) return mkBin(E_OR, mkNot(c), a);
  }
  if (b->op == E_ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
  if (a->op == E_ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
  return intern(E_ITE, a->w, 0, 0, c, a, b);
}

E mkConcat(E hi, E lo)
{
  unsigned w = hi->w + lo->w;
  if (isConst(hi) && isConst(lo) && w <= 128) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isConst(hi) && hi->c == 0) return mkZext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->p == lo->p + lo->w)
    return mkExtract(hi->k[0], lo->p, w);
  // concat(x, concat(y,z)) with x,y adjacent extracts
  if (lo->op == E_CONCAT && hi->op == E_EXTRACT && lo->k[0]->op == E_EXTRACT && hi->k[0] == lo->k[0]->k[0]
      && hi->p == lo->k[0]->p + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->p, hi->w + lo->k[0]->w), lo->k[1]);
  if (lo->op == E_CONCAT && isConst(hi) && isConst(lo->k[0]) && hi->w + lo->k[0]->w <= 128)
    return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
  // concat(concat(a,b),c) -> concat(a,concat(b,c)): normalise right
  if (hi->op == E_CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  // zext byte pieces: concat(extract(zext x) ...) handled by extract simplification
  return intern(E_CONCAT, w, 0, 0, hi, lo);
}

E mkExtract(E a, unsigned lo, unsigned w)
{
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) { fprintf(stderr, "bad extract\n"); abort(); }
  switch (a->op)
  {
  case E_CONST: return mkConst(a->c >> lo, w);
  case E_EXTRACT: return mkExtract(a->k[0], a->p + lo, w);
  case E_CONCAT:
  {
    unsigned lw = a->k[1]->w;
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
  }
  case E_ZEXT:
  {
    unsigned iw = a->k[0]->w;
    if (lo >= iw) return mkConst(0, w);
    if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
    return mkZext(mkExtract(a->k[0], lo, iw - lo), w);
  }
  case E_SEXT:
  {
    unsigned iw = a->k[0]->w;
    if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
    if (lo < iw) return mkSext(mkExtract(a->k[0], lo, iw - lo), w);
    break;
  }
  case E_ITE:
    if ((isConst(a->k[1]) && isConst(a->k[2])) )
      return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
    break;
  case E_AND: case E_OR: case E_XOR:
    if (isConst(a->k[1]) || isConst(a->k[0]))
      return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    break;
  case E_ADD: case E_SUB: case E_MUL:
    if (lo == 0 && (isConst(a->k[1]) )) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  default: break;
  }
  return intern(E_EXTRACT, w, lo, 0, a);
}
E mkZext(E a, unsigned w)
{
  if (a->w == w) return a;
  if (isConst(a)) return mkConst(a->c, w);
  if (a->op == E_ZEXT) return mkZext(a->k[0], w);
  if (a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  return intern(E_ZEXT, w, 0, 0, a);
}
E mkSext(E a, unsigned w)
{
  if (a->w == w) return a;
  if (isConst(a)) return mkConst((u128)sext128(a->c, a->w), w);
  if (a->op == E_SEXT) return mkSext(a->k[0], w);
  if (a->op == E_ZEXT) return mkZext(a->k[0], w);
  if (a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return intern(E_SEXT, w, 0, 0, a);
}

// ---------------------------------------------------------------- floating point folding
static double asD(u128 v) { uint64_t u = (uint64_t)v; double d; memcpy(&d, &u, 8); return d; }
static float asF(u128 v) { uint32_t u = (uint32_t)v; float d; memcpy(&d, &u, 4); return d; }
static u128 ofD(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static u128 ofF(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }

static bool fcmp(uint32_t p, double a, double b)
{
  bool un = std::isnan(a) || std::isnan(b);
  bool eq = !un && a == b, gt = !un && a > b, lt = !un && a < b;
  return ((p & 1) && eq) || ((p & 2) && gt) || ((p & 4) && lt) || ((p & 8) && un);
}
bool foldFp(ExprOp op, uint32_t p, u128 a, u128 b, unsigned w, unsigned wa, u128& out)
{
  if (wa != 32 && wa != 64 && op != E_SITOFP && op != E_UITOFP) return false;
  auto D = [&](u128 v) { return wa == 32 ? (double)asF(v) : asD(v); };
  switch (op)
  {
  case E_FADD: out = w == 32 ? ofF(asF(a) + asF(b)) : ofD(asD(a) + asD(b)); return true;
  case E_FSUB: out = w == 32 ? ofF(asF(a) - asF(b)) : ofD(asD(a) - asD(b)); return true;
  case E_FMUL: out = w == 32 ? ofF(asF(a) * asF(b)) : ofD(asD(a) * asD(b)); return true;
  case E_FDIV: out = w == 32 ? ofF(asF(a) / asF(b)) : ofD(asD(a) / asD(b)); return true;
  case E_FREM: out = w == 32 ? ofF(fmodf(asF(a), asF(b))) : ofD(fmod(asD(a), asD(b))); return true;
  case E_FCMP: out = fcmp(p, D(a), D(b)); return true;
  case E_FPTOSI: { double d = D(a); double lim = ldexp(1.0, w - 1); if (!(d > -lim - 1 && d < lim) || w > 64) { out = (u128)1 << (w - 1); return true; }
                   out = (u128)(i128)(int64_t)d & maskw(w); return true; }
  case E_FPTOUI: { double d = D(a); double lim = ldexp(1.0, w); if (!(d > -1.0 && d < lim) || w > 64) { out = (u128)1 << (w - 1); return true; }
                   out = (u128)(uint64_t)d & maskw(w); return true; }
  case E_SITOFP: { i128 v = sext128(a, wa); out = w == 32 ? ofF((float)v) : ofD((double)v); return true; }
  case E_UITOFP: out = w == 32 ? ofF((float)a) : ofD((double)a); return true;
  case E_FPEXT: out = ofD((double)asF(a)); return true;
  case E_FPTRUNC: out = ofF((float)asD(a)); return true;
  case E_FROUND: { double d = D(a), r; r = p == 0 ? round(d) : p == 1 ? floor(d) : p == 2 ? ceil(d) : p == 3 ? trunc(d) : nearbyint(d);
                   out = w == 32 ? ofF((float)r) : ofD(r); return true; }
  case E_FSQRT: out = w == 32 ? ofF(sqrtf(asF(a))) : ofD(sqrt(asD(a))); return true;
  default: return false;
  }
}
E mkFp(ExprOp op, E a, E b, unsigned w, uint32_t p)
{
  if (isConst(a) && (!b || isConst(b)))
  { u128 out; if (foldFp(op, p, a->c, b ? b->c : 0, w, a->w, out)) return mkConst(out, w); }
  if (op == E_FCMP && p == 0) return mkConst(0, 1);
  if (op == E_FCMP && p == 15) return mkConst(1, 1);
  return intern(op, w, p, 0, a, b);
}

// ---------------------------------------------------------------- symbol sets
static std::map<std::vector<uint32_t>, SymSet*> gSymSets;
static const SymSet* internSet(std::vector<uint32_t> v)
{ auto& s = gSymSets[v]; if (!s) { s = new SymSet; s->v = std::move(v); } return s; }
const SymSet& symsOf(E e)
{
  if (e->syms) return *e->syms;
  if (e->op == E_CONST) { e->syms = internSet({}); return *e->syms; }
  if (e->op == E_SYM) { e->syms = internSet({e->p}); return *e->syms; }
  std::vector<uint32_t> acc;
  for (int i = 0; i < e->nk; i++)
  {
    const SymSet& s = symsOf(e->k[i]);
    if (i == 0) acc = s.v; else if (&s != nullptr)
    { std::vector<uint32_t> t; std::set_union(acc.begin(), acc.end(), s.v.begin(), s.v.end(), std::back_inserter(t)); acc.swap(t); }
  }
  e->syms = internSet(std::move(acc));
  return *e->syms;
}

// ---------------------------------------------------------------- evaluation under a model
static std::vector<u128> gEvalVal; static std::vector<uint32_t> gEvalStamp; static uint32_t gStamp = 0;
static u128 ev(E e, const Model& m)
{
  switch (e->op)
  {
  case E_CONST: return e->c;
  case E_SYM: return (e->p < m.size() ? m[e->p] : 0) & maskw(e->w);
  default: break;
  }
  if (gEvalStamp[e->id] == gStamp) return gEvalVal[e->id];
  u128 r = 0;
  switch (e->op)
  {
  case E_ITE: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
  case E_CONCAT: r = (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m); break;
  case E_EXTRACT: r = (ev(e->k[0], m) >> e->p) & maskw(e->w); break;
  case E_ZEXT: r = ev(e->k[0], m); break;
  case E_SEXT: r = (u128)sext128(ev(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
  default:
    if (e->op >= E_FADD)
    {
      u128 a = ev(e->k[0], m), b = e->nk > 1 ? ev(e->k[1], m) : 0;
      foldFp(e->op, e->p, a, b, e->w, e->k[0]->w, r); r &= maskw(e->w);
    }
    else { bool ok; r = foldBin(e->op, ev(e->k[0], m), ev(e->k[1], m), e->k[0]->w, ok) & maskw(e->w); }
  }
  gEvalStamp[e->id] = gStamp; gEvalVal[e->id] = r;
  return r;
}
u128 evalExpr(E e, const Model& m)
{
  if (e->op == E_CONST) return e->c;
  if (gEvalStamp.size() < gCount) { gEvalStamp.resize(gCount * 2 + 1024, 0); gEvalVal.resize(gCount * 2 + 1024); }
  gStamp++;
  return ev(e, m);
}

std::string exprStr(E e, int d)
{
  static const char* N[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","fcmp","fptosi","fptoui","sitofp","uitofp","fpext","fptrunc","fround","fsqrt"};
  char b[64];
  if (e->op == E_CONST) { snprintf(b, 64, "%llu:%u", (unsigned long long)e->c, e->w); return b; }
  if (e->op == E_SYM) { snprintf(b, 64, "s%u:%u", e->p, e->w); return b; }
  if (d == 0) return "...";
  std::string s = "("; s += N[e->op];
  if (e->op == E_EXTRACT) { snprintf(b, 64, "[%u+%u]", e->p, e->w); s += b; }
  for (int i = 0; i < e->nk; i++) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}

// ---------------------------------------------------------------- Z3
SolverStats gStats;
static Z3_context Z; static Z3_solver Sfast, Sbv, Sfp; static unsigned gTimeout = 20000;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e)); }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
// the context only keeps the last unreferenced object alive: everything that lives across another call is referenced
static Z3_sort keepS(Z3_sort x) { Z3_inc_ref(Z, Z3_sort_to_ast(Z, x)); return x; }
static Z3_sort fpSort(unsigned w) { static Z3_sort f = keepS(Z3_mk_fpa_sort_32(Z)), d = keepS(Z3_mk_fpa_sort_64(Z)); return w == 32 ? f : d; }
static Z3_ast rm() { static Z3_ast r = keep(Z3_mk_fpa_rne(Z)); return r; }

void solverInit(unsigned timeoutMs)
{
  gTimeout = timeoutMs;
  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(Z, zerr);
  auto setTo = [&](Z3_solver s, unsigned ms) {
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), ms);
    Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p); };
  Sfast = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, Sfast); setTo(Sfast, 3000);
  Sbv = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, Sbv); setTo(Sbv, timeoutMs);
  Sfp = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BVFP")); Z3_solver_inc_ref(Z, Sfp); setTo(Sfp, timeoutMs);
}

static Z3_ast b2bv(Z3_ast b)
{
  static Z3_ast one = keep(Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)));
  static Z3_ast zero = keep(Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, 1)));
  return Z3_mk_ite(Z, b, one, zero);
}
// translation: width-1 expressions have two forms; we cache the bit-vector form in e->z and a bool form in a side map
static std::unordered_map<uint32_t, Z3_ast> gBool;
static Z3_ast tr(E e);
static Z3_ast trB(E e)
{ // boolean form of a width-1 expression
  auto it = gBool.find(e->id); if (it != gBool.end()) return it->second;
  Z3_ast r; Z3_ast a2[2];
  switch (e->op)
  {
  case E_CONST: r = e->c ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
  case E_EQ: if (e->k[0]->w == 1) r = Z3_mk_iff(Z, trB(e->k[0]), trB(e->k[1])); else r = Z3_mk_eq(Z, tr(e->k[0]), tr(e->k[1])); break;
  case E_ULT: r = Z3_mk_bvult(Z, tr(e->k[0]), tr(e->k[1])); break;
  case E_SLT: r = Z3_mk_bvslt(Z, tr(e->k[0]), tr(e->k[1])); break;
  case E_AND: a2[0] = trB(e->k[0]); a2[1] = trB(e->k[1]); r = Z3_mk_and(Z, 2, a2); break;
  case E_OR: a2[0] = trB(e->k[0]); a2[1] = trB(e->k[1]); r = Z3_mk_or(Z, 2, a2); break;
  case E_XOR: r = isTrue(e->k[1]) ? Z3_mk_not(Z, trB(e->k[0])) : Z3_mk_xor(Z, trB(e->k[0]), trB(e->k[1])); break;
  case E_ITE: r = Z3_mk_ite(Z, trB(e->k[0]), trB(e->k[1]), trB(e->k[2])); break;
  case E_FCMP:
  {
    Z3_sort s = fpSort(e->k[0]->w);
    Z3_ast a = keep(Z3_mk_fpa_to_fp_bv(Z, tr(e->k[0]), s)), b = keep(Z3_mk_fpa_to_fp_bv(Z, tr(e->k[1]), s));
    Z3_ast un[2] = {keep(Z3_mk_fpa_is_nan(Z, a)), keep(Z3_mk_fpa_is_nan(Z, b))};
    Z3_ast parts[4]; unsigned n = 0;
    if (e->p & 1) parts[n++] = keep(Z3_mk_fpa_eq(Z, a, b));
    if (e->p & 2) parts[n++] = keep(Z3_mk_fpa_gt(Z, a, b));
    if (e->p & 4) parts[n++] = keep(Z3_mk_fpa_lt(Z, a, b));
    if (e->p & 8) parts[n++] = keep(Z3_mk_or(Z, 2, un));
    r = n == 1 ? parts[0] : Z3_mk_or(Z, n, parts); break;
  }
  default:
  {
    static Z3_ast one = keep(Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)));
    r = Z3_mk_eq(Z, tr(e), one); break;
  }
  }
  keep(r); gBool[e->id] = r; return r;
}
static Z3_ast tr(E e)
{
  if (e->z) return (Z3_ast)e->z;
  Z3_ast r = nullptr;
  if (e->w == 1 && e->op != E_CONST && e->op != E_SYM && e->op != E_EXTRACT && e->op != E_FPTOSI && e->op != E_FPTOUI && e->op != E_ADD
      && e->op != E_SUB && e->op != E_MUL && e->op != E_SHL && e->op != E_LSHR && e->op != E_ASHR && !(e->op >= E_UDIV && e->op <= E_SREM))
    r = b2bv(trB(e));
  else switch (e->op)
  {
  case E_CONST:
    if (e->w <= 64) r = Z3_mk_unsigned_int64(Z, (uint64_t)e->c, Z3_mk_bv_sort(Z, e->w));
    else {
      Z3_ast hi = keep(Z3_mk_unsigned_int64(Z, (uint64_t)(e->c >> 64), Z3_mk_bv_sort(Z, e->w - 64))), lo = keep(Z3_mk_unsigned_int64(Z, (uint64_t)e->c, Z3_mk_bv_sort(Z, 64)));
      r = Z3_mk_concat(Z, hi, lo);
    }
    break;
  case E_SYM: { char b[32]; snprintf(b, 32, "s%u_%u", e->p, e->w); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, b), Z3_mk_bv_sort(Z, e->w)); break; }
#define BIN(OP, F) case OP: r = F(Z, tr(e->k[0]), tr(e->k[1])); break;
  BIN(E_ADD, Z3_mk_bvadd) BIN(E_SUB, Z3_mk_bvsub) BIN(E_MUL, Z3_mk_bvmul) BIN(E_UDIV, Z3_mk_bvudiv) BIN(E_SDIV, Z3_mk_bvsdiv)
  BIN(E_UREM, Z3_mk_bvurem) BIN(E_SREM, Z3_mk_bvsrem) BIN(E_AND, Z3_mk_bvand) BIN(E_OR, Z3_mk_bvor) BIN(E_XOR, Z3_mk_bvxor)
  BIN(E_SHL, Z3_mk_bvshl) BIN(E_LSHR, Z3_mk_bvlshr) BIN(E_ASHR, Z3_mk_bvashr) BIN(E_CONCAT, Z3_mk_concat)
  case E_ITE: r = Z3_mk_ite(Z, trB(e->k[0]), tr(e->k[1]), tr(e->k[2])); break;
  case E_EXTRACT: r = Z3_mk_extract(Z, e->p + e->w - 1, e->p, tr(e->k[0])); break;
  case E_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->k[0]->w, tr(e->k[0])); break;
  case E_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->k[0]->w, tr(e->k[0])); break;
  default:
  {
    unsigned wa = e->k[0]->w; Z3_ast a = nullptr, b = nullptr;
    if (e->op != E_SITOFP && e->op != E_UITOFP)
    {
      a = keep(Z3_mk_fpa_to_fp_bv(Z, tr(e->k[0]), fpSort(wa)));
      if (e->nk > 1) b = keep(Z3_mk_fpa_to_fp_bv(Z, tr(e->k[1]), fpSort(wa)));
    }
    Z3_ast f = nullptr;
    switch (e->op)
    {
    case E_FADD: f = Z3_mk_fpa_add(Z, rm(), a, b); break;
    case E_FSUB: f = Z3_mk_fpa_sub(Z, rm(), a, b); break;
    case E_FMUL: f = Z3_mk_fpa_mul(Z, rm(), a, b); break;
    case E_FDIV: f = Z3_mk_fpa_div(Z, rm(), a, b); break;
    case E_FREM: f = Z3_mk_fpa_rem(Z, a, b); break;
    case E_FPEXT: case E_FPTRUNC: f = Z3_mk_fpa_to_fp_float(Z, rm(), a, fpSort(e->w)); break;
    case E_FSQRT: f = Z3_mk_fpa_sqrt(Z, rm(), a); break;
    case E_FROUND: f = Z3_mk_fpa_round_to_integral(Z, e->p == 0 ? Z3_mk_fpa_rna(Z) : e->p == 1 ? Z3_mk_fpa_rtn(Z) : e->p == 2 ? Z3_mk_fpa_rtp(Z) : e->p == 3 ? Z3_mk_fpa_rtz(Z) : Z3_mk_fpa_rne(Z), a); break;
    case E_SITOFP: f = Z3_mk_fpa_to_fp_signed(Z, rm(), tr(e->k[0]), fpSort(e->w)); break;
    case E_UITOFP: f = Z3_mk_fpa_to_fp_unsigned(Z, rm(), tr(e->k[0]), fpSort(e->w)); break;
    case E_FPTOSI: case E_FPTOUI:
    { // out of range (undefined in C++) is given the x86 "indefinite" value, as in the concrete evaluator
      bool sg = e->op == E_FPTOSI;
      double hi = ldexp(1.0, sg ? e->w - 1 : e->w), lo = sg ? -ldexp(1.0, e->w - 1) - (e->w < 53 ? 1.0 : 0.0) : -1.0;
      Z3_sort s = fpSort(wa);
      Z3_ast nlo = keep(Z3_mk_fpa_numeral_double(Z, lo, s)), nhi = keep(Z3_mk_fpa_numeral_double(Z, hi, s)), rtz = keep(Z3_mk_fpa_rtz(Z));
      Z3_ast in[2] = { keep(sg && e->w >= 53 ? Z3_mk_fpa_geq(Z, a, nlo) : Z3_mk_fpa_gt(Z, a, nlo)), keep(Z3_mk_fpa_lt(Z, a, nhi)) };
      Z3_ast both = keep(Z3_mk_and(Z, 2, in)), conv = keep(sg ? Z3_mk_fpa_to_sbv(Z, rtz, a, e->w) : Z3_mk_fpa_to_ubv(Z, rtz, a, e->w)), out = tr(mkConst((u128)1 << (e->w - 1), e->w));
      r = Z3_mk_ite(Z, both, conv, out);
      break;
    }
    default: fprintf(stderr, "tr: op %d\n", e->op); abort();
    }
    if (f) r = Z3_mk_fpa_to_ieee_bv(Z, keep(f));
  }
  }
  e->z = keep(r); return r;
}

struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; } return h; } };
struct CacheEnt { SatRes r; std::vector<std::pair<uint32_t, uint64_t>> vals; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> gCache;

SatRes solveSlice(const std::vector<E>& cs, Model& model)
{
  std::vector<uint32_t> key; key.reserve(cs.size());
  for (E e : cs) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = gCache.find(key);
  auto apply = [&](const CacheEnt& ce) { for (auto& pr : ce.vals) { if (model.size() <= pr.first) model.resize(pr.first + 1, 0); model[pr.first] = pr.second; } };
  if (it != gCache.end()) { gStats.cacheHits++; if (it->second.r == SAT) apply(it->second); return it->second.r; }
  bool fp = false; std::set<uint32_t> syms; std::map<uint32_t, unsigned> dummy;
  for (E e : cs) { fp |= e->fp; for (auto s : symsOf(e).v) syms.insert(s); }
  auto t0 = std::chrono::steady_clock::now();
  Z3_lbool res = Z3_L_UNDEF; CacheEnt ce;
  Z3_solver tries[2]; int nt = 0;
  if (fp) tries[nt++] = Sfp; else { tries[nt++] = Sfast; tries[nt++] = Sbv; }
  // need widths of symbols: collect SYM nodes
  std::unordered_map<uint32_t, E> symNodes;
  {
    std::vector<E> st(cs.begin(), cs.end()); std::set<uint32_t> seen;
    while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e->id).second) continue;
      if (e->op == E_SYM) symNodes[e->p] = e; for (int i = 0; i < e->nk; i++) st.push_back(e->k[i]); }
  }
  for (int t = 0; t < nt && res == Z3_L_UNDEF; t++)
  {
    Z3_solver S = tries[t];
    if (S == Sfast) Z3_solver_push(Z, S); else Z3_solver_reset(Z, S);
    for (E e : cs) Z3_solver_assert(Z, S, trB(e));
    res = Z3_solver_check(Z, S);
    if (res == Z3_L_TRUE)
    {
      Z3_model m = Z3_solver_get_model(Z, S);
      if (m)
      {
        Z3_model_inc_ref(Z, m);
        for (auto& pr : symNodes)
        {
          Z3_ast v = nullptr; uint64_t val = 0;
          if (Z3_model_eval(Z, m, tr(pr.second), true, &v) && v) Z3_get_numeral_uint64(Z, v, (uint64_t*)&val);
          ce.vals.push_back({pr.first, val});
        }
        Z3_model_dec_ref(Z, m);
      }
    }
    if (S == Sfast) Z3_solver_pop(Z, S, 1); else Z3_solver_reset(Z, S);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gStats.queries++; gStats.seconds += dt; gStats.maxQuery = std::max(gStats.maxQuery, dt);
  ce.r = res == Z3_L_TRUE ? SAT : res == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (ce.r == SAT) gStats.sat++; else if (ce.r == UNSAT) gStats.unsat++; else gStats.unknown++;
  if (ce.r == SAT) apply(ce);
  auto r = ce.r;
  gCache.emplace(std::move(key), std::move(ce));
  return r;
}
