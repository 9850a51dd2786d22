// Hash-consed bit-vector expressions (width 1..64) over 8-bit symbolic variables.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <unordered_map>
#include <string>

enum Kind : uint8_t {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  K_ITE, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE
};

static const unsigned MAXVARS = 512;
struct VarSet {
  uint64_t w[MAXVARS / 64];
  VarSet() { memset(w, 0, sizeof w); }
  void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
  bool test(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
  void unite(const VarSet &o) { for (unsigned i = 0; i < MAXVARS / 64; i++) w[i] |= o.w[i]; }
  bool intersects(const VarSet &o) const { for (unsigned i = 0; i < MAXVARS / 64; i++) if (w[i] & o.w[i]) return true; return false; }
  bool subsetOf(const VarSet &o) const { for (unsigned i = 0; i < MAXVARS / 64; i++) if (w[i] & ~o.w[i]) return false; return true; }
  bool empty() const { for (unsigned i = 0; i < MAXVARS / 64; i++) if (w[i]) return false; return true; }
};

struct Expr {
  Kind k; uint8_t width; uint32_t id; uint32_t lo;
  uint64_t c;               // constant value / variable index
  Expr *a, *b, *d;
  VarSet vars;
  uint64_t epoch; uint64_t val;
  void *z3;
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct ExprKey { Kind k; uint8_t w; uint32_t lo; uint64_t c; Expr *a, *b, *d;
  bool operator==(const ExprKey &o) const { return k == o.k && w == o.w && lo == o.lo && c == o.c && a == o.a && b == o.b && d == o.d; } };
struct ExprKeyHash { size_t operator()(const ExprKey &e) const {
  uint64_t h = e.k * 0x9E3779B97F4A7C15ull + e.w; auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
  mix(e.lo); mix(e.c); mix((uint64_t)e.a >> 4); mix((uint64_t)e.b >> 4); mix((uint64_t)e.d >> 4); return h; } };

static std::unordered_map<ExprKey, Expr *, ExprKeyHash> g_exprs;
static uint32_t g_exprid = 0;
static uint64_t g_epoch = 0;

static Expr *mk(Kind k, unsigned w, Expr *a = 0, Expr *b = 0, Expr *d = 0, uint64_t c = 0, uint32_t lo = 0) {
  ExprKey key{k, (uint8_t)w, lo, c, a, b, d};
  auto it = g_exprs.find(key);
  if (it != g_exprs.end()) return it->second;
  Expr *e = new Expr();
  e->k = k; e->width = w; e->id = ++g_exprid; e->lo = lo; e->c = c; e->a = a; e->b = b; e->d = d; e->epoch = 0; e->z3 = 0;
  if (k == K_VAR) { if (c >= MAXVARS) { fprintf(stderr, "ushsym: too many symbolic bytes\n"); exit(4); } e->vars.set(c); }
  if (a) e->vars.unite(a->vars);
  if (b) e->vars.unite(b->vars);
  if (d) e->vars.unite(d->vars);
  g_exprs.emplace(key, e);
  return e;
}
static inline Expr *eConst(uint64_t v, unsigned w) { return mk(K_CONST, w, 0, 0, 0, v & maskw(w)); }
static inline Expr *eVar(unsigned i) { return mk(K_VAR, 8, 0, 0, 0, i); }
static inline bool isC(Expr *e) { return e->k == K_CONST; }

static uint64_t binop(Kind k, uint64_t x, uint64_t y, unsigned w) {
  uint64_t m = maskw(w);
  switch (k) {
  case K_ADD: return (x + y) & m;
  case K_SUB: return (x - y) & m;
  case K_MUL: return (x * y) & m;
  case K_UDIV: return y ? (x / y) & m : m;
  case K_UREM: return y ? (x % y) & m : x;
  case K_SDIV: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (0 - (uint64_t)a) & m; return (uint64_t)(a / b) & m; }
  case K_SREM: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (uint64_t)(a % b) & m; }
  case K_AND: return x & y;
  case K_OR: return x | y;
  case K_XOR: return x ^ y;
  case K_SHL: return y >= w ? 0 : (x << y) & m;
  case K_LSHR: return y >= w ? 0 : x >> y;
  case K_ASHR: return y >= w ? (sx(x, w) < 0 ? m : 0) : ((uint64_t)(sx(x, w) >> y)) & m;
  case K_EQ: return x == y;
  case K_ULT: return x < y;
  case K_ULE: return x <= y;
  case K_SLT: return sx(x, w) < sx(y, w);
  case K_SLE: return sx(x, w) <= sx(y, w);
  default: abort();
  }
}

static Expr *eNot(Expr *a);
static Expr *eExtract(Expr *a, unsigned lo, unsigned w);
static Expr *eZext(Expr *a, unsigned w);
static Expr *eIte(Expr *c, Expr *a, Expr *b);

static Expr *eBin(Kind k, Expr *a, Expr *b) {
  unsigned w = a->width;
  bool cmp = k >= K_EQ;
  unsigned rw = cmp ? 1 : w;
  if (isC(a) && isC(b)) return eConst(binop(k, a->c, b->c, w), rw);
  // canonical: constant on the right for commutative operators
  if ((k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ)) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  uint64_t m = maskw(w);
  switch (k) {
  case K_ADD:
    if (isC(b) && b->c == 0) return a;
    if (isC(b) && a->k == K_ADD && isC(a->b)) return eBin(K_ADD, a->a, eConst(a->b->c + b->c, w));
    break;
  case K_SUB:
    if (a == b) return eConst(0, w);
    if (isC(b)) return eBin(K_ADD, a, eConst(0 - b->c, w));
    break;
  case K_MUL: if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; } break;
  case K_AND:
    if (a == b) return a;
    if (isC(b)) { if (b->c == 0) return b; if (b->c == m) return a;
      if (a->k == K_ZEXT && (b->c & maskw(a->a->width)) == maskw(a->a->width)) return a; }
    if (w == 1 && ((a->k == K_XOR && isC(a->b) && a->a == b) || (b->k == K_XOR && isC(b->b) && b->a == a))) return eConst(0, 1);
    break;
  case K_OR:
    if (a == b) return a;
    if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
    if (w == 1 && ((a->k == K_XOR && isC(a->b) && a->a == b) || (b->k == K_XOR && isC(b->b) && b->a == a))) return eConst(1, 1);
    break;
  case K_XOR:
    if (a == b) return eConst(0, w);
    if (isC(b)) { if (b->c == 0) return a; if (a->k == K_XOR && isC(a->b)) return eBin(K_XOR, a->a, eConst(a->b->c ^ b->c, w)); }
    break;
  case K_SHL: case K_LSHR: case K_ASHR:
    if (isC(b) && b->c == 0) return a;
    if (isC(b) && b->c >= w && k != K_ASHR) return eConst(0, w);
    break;
  case K_EQ:
    if (a == b) return eConst(1, 1);
    if (isC(b)) {
      if (w == 1) return b->c ? a : eNot(a);
      if (a->k == K_ZEXT) { if (b->c > maskw(a->a->width)) return eConst(0, 1); return eBin(K_EQ, a->a, eConst(b->c, a->a->width)); }
      if (a->k == K_SEXT) { unsigned iw = a->a->width; if ((uint64_t)(sx(b->c, iw)) != (uint64_t)sx(b->c, w)) return eConst(0, 1); return eBin(K_EQ, a->a, eConst(b->c, iw)); }
      if (a->k == K_ADD && isC(a->b)) return eBin(K_EQ, a->a, eConst(b->c - a->b->c, w));
      if (a->k == K_XOR && isC(a->b)) return eBin(K_EQ, a->a, eConst(b->c ^ a->b->c, w));
      if (a->k == K_ITE) {
        bool ca = isC(a->b), cb = isC(a->d);
        if (ca && cb) { bool x = a->b->c == b->c, y = a->d->c == b->c; if (x && y) return eConst(1, 1); if (!x && !y) return eConst(0, 1); return x ? a->a : eNot(a->a); }
        if (ca) { if (a->b->c == b->c) return eBin(K_OR, a->a, eBin(K_EQ, a->d, b)); return eBin(K_AND, eNot(a->a), eBin(K_EQ, a->d, b)); }
        if (cb) { if (a->d->c == b->c) return eBin(K_OR, eNot(a->a), eBin(K_EQ, a->b, b)); return eBin(K_AND, a->a, eBin(K_EQ, a->b, b)); }
      }
      if (a->k == K_CONCAT) return eBin(K_AND, eBin(K_EQ, a->a, eConst(b->c >> a->b->width, a->a->width)), eBin(K_EQ, a->b, eConst(b->c, a->b->width)));
      if (a->k == K_SUB) return eBin(K_EQ, a->a, eBin(K_ADD, a->b, b));
    }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->width == b->a->width) return eBin(K_EQ, a->a, b->a);
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->width == b->a->width) return eBin(K_EQ, a->a, b->a);
    break;
  case K_ULT:
    if (a == b) return eConst(0, 1);
    if (isC(b)) { if (b->c == 0) return eConst(0, 1); if (b->c == 1) return eBin(K_EQ, a, eConst(0, w));
      if (a->k == K_ZEXT) { if (b->c > maskw(a->a->width)) return eConst(1, 1); return eBin(K_ULT, a->a, eConst(b->c, a->a->width)); } }
    if (isC(a)) { if (a->c == m) return eConst(0, 1);
      if (b->k == K_ZEXT) { if (a->c >= maskw(b->a->width)) return eConst(0, 1); return eBin(K_ULT, eConst(a->c, b->a->width), b->a); } }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->width == b->a->width) return eBin(K_ULT, a->a, b->a);
    break;
  case K_ULE: return eNot(eBin(K_ULT, b, a));
  case K_SLT:
    if (a == b) return eConst(0, 1);
    if (a->k == K_ZEXT && isC(b) && a->width > a->a->width) { int64_t v = sx(b->c, w); if (v <= 0) return eConst(0, 1); return eBin(K_ULT, a, b); }
    if (b->k == K_ZEXT && isC(a) && b->width > b->a->width) { int64_t v = sx(a->c, w); if (v < 0) return eConst(1, 1); return eBin(K_ULT, a, b); }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->width > a->a->width && b->width > b->a->width) return eBin(K_ULT, a, b);
    if (a->k == K_SEXT && isC(b)) { unsigned iw = a->a->width; int64_t v = sx(b->c, w); int64_t mx = (int64_t)maskw(iw - 1), mn = -mx - 1; if (v > mx) return eConst(1, 1); if (v <= mn) return eConst(0, 1); return eBin(K_SLT, a->a, eConst(v, iw)); }
    if (b->k == K_SEXT && isC(a)) { unsigned iw = b->a->width; int64_t v = sx(a->c, w); int64_t mx = (int64_t)maskw(iw - 1), mn = -mx - 1; if (v >= mx) return eConst(0, 1); if (v < mn) return eConst(1, 1); return eBin(K_SLT, eConst(v, iw), b->a); }
    break;
  case K_SLE: return eNot(eBin(K_SLT, b, a));
  default: break;
  }
  // push through ITE with two constant arms when the other side is constant
  if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->d)) {
    return eIte(a->a, eConst(binop(k, a->b->c, b->c, w), rw), eConst(binop(k, a->d->c, b->c, w), rw));
  }
  return mk(k, rw, a, b);
}
static Expr *eNot(Expr *a) {
  if (isC(a)) return eConst(!a->c, 1);
  if (a->k == K_XOR && isC(a->b)) return a->a;
  return mk(K_XOR, 1, a, eConst(1, 1));
}
static Expr *eIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K_XOR && isC(c->b)) return eIte(c->a, b, a);
  if (a->width == 1) {
    if (isC(a)) return a->c ? eBin(K_OR, c, b) : eBin(K_AND, eNot(c), b);
    if (isC(b)) return b->c ? eBin(K_OR, eNot(c), a) : eBin(K_AND, c, a);
  }
  return mk(K_ITE, a->width, c, a, b);
}
static Expr *eExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->width) return a;
  if (isC(a)) return eConst(a->c >> lo, w);
  switch (a->k) {
  case K_EXTRACT: return eExtract(a->a, a->lo + lo, w);
  case K_CONCAT: {
    unsigned lw = a->b->width;
    if (lo + w <= lw) return eExtract(a->b, lo, w);
    if (lo >= lw) return eExtract(a->a, lo - lw, w);
    break;
  }
  case K_ZEXT:
    if (lo + w <= a->a->width) return eExtract(a->a, lo, w);
    if (lo >= a->a->width) return eConst(0, w);
    break;
  case K_SEXT:
    if (lo + w <= a->a->width) return eExtract(a->a, lo, w);
    break;
  case K_ITE:
    return eIte(a->a, eExtract(a->b, lo, w), eExtract(a->d, lo, w));
  case K_AND: case K_OR: case K_XOR:
    return eBin(a->k, eExtract(a->a, lo, w), eExtract(a->b, lo, w));
  case K_ADD: case K_SUB: case K_MUL:
    if (lo == 0) return eBin(a->k, eExtract(a->a, 0, w), eExtract(a->b, 0, w));
    break;
  default: break;
  }
  return mk(K_EXTRACT, w, a, 0, 0, 0, lo);
}
static Expr *eConcat(Expr *hi, Expr *lo) {
  if (isC(hi) && isC(lo)) return eConst((hi->c << lo->width) | lo->c, hi->width + lo->width);
  if (isC(hi) && hi->c == 0) return eZext(lo, hi->width + lo->width);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->width) return eExtract(hi->a, lo->lo, hi->width + lo->width);
  return mk(K_CONCAT, hi->width + lo->width, hi, lo);
}
static Expr *eZext(Expr *a, unsigned w) {
  if (w == a->width) return a;
  if (isC(a)) return eConst(a->c, w);
  if (a->k == K_ZEXT) return eZext(a->a, w);
  if (a->k == K_ITE && isC(a->b) && isC(a->d)) return eIte(a->a, eConst(a->b->c, w), eConst(a->d->c, w));
  return mk(K_ZEXT, w, a);
}
static Expr *eSext(Expr *a, unsigned w) {
  if (w == a->width) return a;
  if (isC(a)) return eConst((uint64_t)sx(a->c, a->width), w);
  if (a->k == K_ZEXT && a->width > a->a->width) return eZext(a->a, w);
  if (a->k == K_ITE && isC(a->b) && isC(a->d)) return eIte(a->a, eSext(a->b, w), eSext(a->d, w));
  return mk(K_SEXT, w, a);
}

// evaluation under a model (memoised per epoch); caller bumps g_epoch
static uint64_t evalRec(Expr *e, const std::vector<uint8_t> &m) {
  if (e->k == K_CONST) return e->c;
  if (e->k == K_VAR) return e->c < m.size() ? m[e->c] : 0;
  if (e->epoch == g_epoch) return e->val;
  uint64_t v;
  switch (e->k) {
  case K_ITE: v = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
  case K_CONCAT: v = (evalRec(e->a, m) << e->b->width) | evalRec(e->b, m); break;
  case K_EXTRACT: v = (evalRec(e->a, m) >> e->lo) & maskw(e->width); break;
  case K_ZEXT: v = evalRec(e->a, m); break;
  case K_SEXT: v = (uint64_t)sx(evalRec(e->a, m), e->a->width) & maskw(e->width); break;
  default: v = binop(e->k, evalRec(e->a, m), evalRec(e->b, m), e->a->width); break;
  }
  e->epoch = g_epoch; e->val = v;
  return v;
}
static uint64_t evalExpr(Expr *e, const std::vector<uint8_t> &m) { if (e->k == K_CONST) return e->c; ++g_epoch; return evalRec(e, m); }
