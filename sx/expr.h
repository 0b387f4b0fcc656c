// Hash-consed bit-vector expressions with integer ranges and algebraic simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>

typedef unsigned _BitInt(256) U;   // constants (widths up to 256)
typedef _BitInt(320) I;            // exact integers for ranges
typedef unsigned __int128 VarMask;

enum Op : uint8_t { CONST, VAR, LIN, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                    EQ, ULT, SLT, NOT, ITE, SEXT, CONCAT, EXTRACT, TABLE, APX, APXB };
static const char *opname[] = {"const","var","lin","mul","udiv","urem","sdiv","srem","and","or","xor","shl","lshr","ashr",
                    "eq","ult","slt","not","ite","sext","concat","extract","table","apx","apxb"};

struct Expr {
  Op op; unsigned w; unsigned id; unsigned aux;   // aux: var id / extract lo / table id
  unsigned nk; const Expr **k; U *co;             // kids, LIN coefficients
  U val;                                          // CONST value / LIN constant
  I lo, hi;                                       // some integer in [lo,hi] is congruent to the value mod 2^w
  VarMask vars; unsigned size;
  mutable void *z; mutable uint64_t stamp; mutable U ev; mutable const Expr *alias;
};
typedef const Expr *E;

static inline U maskU(unsigned w) { return w >= 256 ? ~(U)0 : (((U)1 << w) - 1); }
static inline I pow2I(unsigned w) { return (I)1 << w; }
static inline unsigned bitlenU(U v) {
  unsigned n = 0;
  for (int i = 3; i >= 0; i--) { uint64_t l = (uint64_t)(v >> (64 * i)); if (l) return 64 * i + 64 - __builtin_clzll(l); }
  return n;
}
static inline unsigned ctzU(U v) { for (int i = 0; i < 4; i++) { uint64_t l = (uint64_t)(v >> (64 * i)); if (l) return 64 * i + __builtin_ctzll(l); } return 256; }
static inline I sgn(U v, unsigned w) { I x = (I)v; if ((v >> (w - 1)) & 1) x -= pow2I(w); return x; }
static inline U toU(I v, unsigned w) { return (U)(v & (pow2I(w) - 1)) & maskU(w); }
static inline bool fitsU(E e) { return e->lo >= 0 && e->hi < pow2I(e->w); }
static inline bool fitsS(E e) { return e->lo >= -pow2I(e->w - 1) && e->hi < pow2I(e->w - 1); }
static std::string strU(U v) { if (!v) return "0"; std::string s; while (v) { s += char('0' + (int)(v % 10)); v /= 10; } std::reverse(s.begin(), s.end()); return s; }
static std::string strI(I v) { return v < 0 ? "-" + strU((U)(-v)) : strU((U)v); }

struct Var { std::string name; unsigned w; I lo, hi; bool input; };
struct Tab { unsigned w; std::vector<U> v; };

struct Ctx {
  struct H { size_t operator()(E e) const {
      uint64_t h = e->op * 0x9e3779b97f4a7c15ULL + e->w * 1000003 + e->aux * 7919;
      for (unsigned i = 0; i < e->nk; i++) h = (h ^ e->k[i]->id) * 0x100000001b3ULL + (h >> 29);
      if (e->co) for (unsigned i = 0; i < e->nk; i++) h = (h ^ (uint64_t)e->co[i] ^ (uint64_t)(e->co[i] >> 64)) * 0x100000001b3ULL;
      h ^= (uint64_t)e->val * 0xff51afd7ed558ccdULL ^ (uint64_t)(e->val >> 64) * 31 ^ (uint64_t)(e->val >> 128);
      if (e->op == VAR) h ^= (uint64_t)e->lo * 77 ^ (uint64_t)e->hi * 131;
      return h ^ (h >> 31); } };
  struct Q { bool operator()(E a, E b) const {
      if (a->op != b->op || a->w != b->w || a->aux != b->aux || a->nk != b->nk || a->val != b->val) return false;
      if (a->op == VAR && (a->lo != b->lo || a->hi != b->hi)) return false;
      for (unsigned i = 0; i < a->nk; i++) if (a->k[i] != b->k[i]) return false;
      if (a->co) for (unsigned i = 0; i < a->nk; i++) if (a->co[i] != b->co[i]) return false;
      return true; } };
  std::unordered_set<E, H, Q> tab;
  std::vector<Var> vars;
  std::vector<Tab> tables;
  std::unordered_map<uint64_t, std::vector<unsigned>> tabIntern;
  unsigned nextId = 1; uint64_t stamp = 1; bool tabOn = false, inTab = false; unsigned long ntab = 0;
  struct Apx { unsigned s1; U M; unsigned s2; U K; }; std::vector<Apx> apx;
  // bump allocator
  char *cur = nullptr, *end = nullptr; size_t total = 0;
  void *alloc(size_t n) { n = (n + 63) & ~(size_t)63; if (cur + n > end) { size_t s = 1 << 22; if (n > s) s = n; cur = (char *)aligned_alloc(64, s); end = cur + s; total += s; } void *p = cur; cur += n; return p; }
};
static Ctx X;

static E mkConst(unsigned w, U v);
static E mkLin(unsigned w, std::vector<std::pair<U, E>> t, U c);
static E mkExtract(E e, unsigned hi, unsigned lo);
static E mkConcat(const std::vector<E> &ks);
static E mkZExt(E e, unsigned w);
static E mkSExt(E e, unsigned w);
static E mkBit(Op op, E a, E b);
static E mkUDivX(E a, E b, bool fromExtract);
static inline E mkUDiv(E a, E b) { return mkUDivX(a, b, false); }
static E mkURem(E a, E b);
static E mkEq(E a, E b);
static E mkUlt(E a, E b);
static E mkSlt(E a, E b);
static E mkNot(E a);
static E mkIte(E c, E a, E b);
static E mkTable(unsigned w, const std::vector<U> &v, E idx);
static E mkMul(E a, E b);
static E rebuild(E e, const std::vector<E> &k);

static U evalOp(E e, const U *a);
static E tabulate(E e);
typedef std::vector<U> Model;

static E intern(Op op, unsigned w, unsigned aux, const std::vector<E> &k, const std::vector<U> *co, U val, I lo, I hi) {
  Expr t; t.op = op; t.w = w; t.aux = aux; t.nk = k.size(); t.k = (const Expr **)k.data(); t.co = co ? (U *)co->data() : nullptr; t.val = val; t.lo = lo; t.hi = hi;
  auto it = X.tab.find(&t);
  if (it != X.tab.end()) return (*it)->alias && !X.inTab ? (*it)->alias : *it;
  Expr *e = (Expr *)X.alloc(sizeof(Expr));
  *e = t; e->id = X.nextId++; e->z = nullptr; e->stamp = 0; e->alias = nullptr;
  if (t.nk) { e->k = (const Expr **)X.alloc(sizeof(E) * t.nk); memcpy(e->k, k.data(), sizeof(E) * t.nk); }
  if (co && t.nk) { e->co = (U *)X.alloc(sizeof(U) * t.nk); memcpy(e->co, co->data(), sizeof(U) * t.nk); } else e->co = nullptr;
  VarMask m = 0; uint64_t sz = 1;
  for (unsigned i = 0; i < t.nk; i++) { m |= k[i]->vars; sz += k[i]->size; }
  if (op == VAR) m = (VarMask)1 << (aux < 127 ? aux : 127);
  e->vars = m; e->size = sz > 1000000000 ? 1000000000 : (unsigned)sz;
  X.tab.insert(e);
  if (X.tabOn && !X.inTab && m && op != VAR && op != TABLE && !(op == UDIV && aux == 77)) { E r = tabulate(e); if (r) { e->alias = r; return r; } }
  return e;
}

static E mkConst(unsigned w, U v) { v &= maskU(w); return intern(CONST, w, 0, {}, nullptr, v, (I)v, (I)v); }
static inline bool isC(E e) { return e->op == CONST; }
static inline bool isC(E e, U v) { return e->op == CONST && e->val == v; }
static E mkVarNode(unsigned id, I lo, I hi) {
  unsigned w = X.vars[id].w;
  if (lo == hi) return mkConst(w, toU(lo, w));
  return intern(VAR, w, id, {}, nullptr, 0, lo, hi);
}
static E newVar(unsigned w, I lo, I hi, const std::string &name, bool input) {
  X.vars.push_back({name, w, lo, hi, input});
  return mkVarNode(X.vars.size() - 1, lo, hi);
}
static inline E T1() { return mkConst(1, 1); }
static inline E F1() { return mkConst(1, 0); }

// ---- pointwise folding over a single table index
static E tableFold(Op op, unsigned w, unsigned aux, const std::vector<E> &k, const std::vector<U> *co, U val) {
  E t = nullptr;
  for (E x : k) {
    if (x->op == CONST) continue;
    if (x->op != TABLE) return nullptr;
    if (t && t->k[0] != x->k[0]) return nullptr;
    t = x;
  }
  if (!t) return nullptr;
  size_t n = X.tables[t->aux].v.size();
  std::vector<U> r(n);
  Expr tmp; tmp.op = op; tmp.w = w; tmp.aux = aux; tmp.nk = k.size(); tmp.k = (const Expr **)k.data(); tmp.co = co ? (U *)co->data() : nullptr; tmp.val = val;
  std::vector<U> a(k.size());
  for (size_t i = 0; i < n; i++) {
    bool ok = true;
    for (size_t j = 0; j < k.size(); j++) {
      if (k[j]->op == CONST) a[j] = k[j]->val;
      else { auto &tv = X.tables[k[j]->aux].v; if (i >= tv.size()) { ok = false; break; } a[j] = tv[i]; }
    }
    if (!ok) return nullptr;
    r[i] = evalOp(&tmp, a.data());
  }
  return mkTable(w, r, t->k[0]);
}

static E raw(Op op, unsigned w, const std::vector<E> &k, I lo, I hi, unsigned aux = 0) {
  if (lo == hi) return mkConst(w, toU(lo, w));
  bool hasT = false; for (E x : k) if (x->op == TABLE) hasT = true;
  if (hasT && op != TABLE) { E r = tableFold(op, w, aux, k, nullptr, 0); if (r) return r; }
  return intern(op, w, aux, k, nullptr, 0, lo, hi);
}
static E rawFull(Op op, unsigned w, const std::vector<E> &k, unsigned aux = 0) { return raw(op, w, k, 0, pow2I(w) - 1, aux); }

static U sdivU(U a, U b, unsigned w) { I x = sgn(a, w), y = sgn(b, w); if (y == 0) return maskU(w); return toU(x / y, w); }
static U sremU(U a, U b, unsigned w) { I x = sgn(a, w), y = sgn(b, w); if (y == 0) return a; return toU(x % y, w); }
static U evalOp(E e, const U *a) {
  unsigned w = e->w; U m = maskU(w);
  switch (e->op) {
    case CONST: return e->val;
    case LIN: { U s = e->val; for (unsigned i = 0; i < e->nk; i++) s += e->co[i] * a[i]; return s & m; }
    case MUL: return (a[0] * a[1]) & m;
    case UDIV: return a[1] ? a[0] / a[1] : m;
    case UREM: return a[1] ? a[0] % a[1] : a[0];
    case SDIV: return sdivU(a[0], a[1], w);
    case SREM: return sremU(a[0], a[1], w);
    case AND: return a[0] & a[1];
    case OR: return a[0] | a[1];
    case XOR: return a[0] ^ a[1];
    case SHL: return a[1] >= w ? (U)0 : (a[0] << (unsigned)a[1]) & m;
    case LSHR: return a[1] >= w ? (U)0 : a[0] >> (unsigned)a[1];
    case ASHR: { I x = sgn(a[0], w); unsigned s = a[1] >= w ? w - 1 : (unsigned)a[1]; return toU(x >> s, w); }
    case EQ: return a[0] == a[1];
    case ULT: return a[0] < a[1];
    case SLT: { unsigned kw = e->k[0]->w; return sgn(a[0], kw) < sgn(a[1], kw); }
    case NOT: return a[0] ^ 1;
    case ITE: return a[0] ? a[1] : a[2];
    case SEXT: return toU(sgn(a[0], e->k[0]->w), w);
    case CONCAT: { U r = 0; for (unsigned i = 0; i < e->nk; i++) r = (r << e->k[i]->w) | a[i]; return r & m; }
    case EXTRACT: return (a[0] >> e->aux) & m;
    case TABLE: { auto &t = X.tables[e->aux].v; return a[0] < (U)t.size() ? t[(size_t)a[0]] : (U)0; }
    case APX: { auto &p = X.apx[e->aux]; return (((a[0] >> p.s1) * p.M) >> p.s2) & m; }
    case APXB: { auto &p = X.apx[e->aux]; return a[0] / p.K != ((a[0] >> p.s1) * p.M) >> p.s2; }
    default: abort();
  }
}
// ((x >> s1) * M) >> s2, known to be x/K or x/K - 1 over the range of x; APXB is 1 in the second case
static E mkApx(Op op, E x, unsigned id, unsigned w) {
  auto &p = X.apx[id];
  if (isC(x)) { U v = ((x->val >> p.s1) * p.M) >> p.s2; return mkConst(w, op == APX ? v : (U)(x->val / p.K != v)); }
  if (op == APXB) return rawFull(APXB, 1, {x}, id);
  return raw(APX, w, {x}, 0, x->hi / (I)p.K, id);
}
static unsigned apxId(unsigned s1, U M, unsigned s2, U K) { for (unsigned i = 0; i < X.apx.size(); i++) if (X.apx[i].s1 == s1 && X.apx[i].M == M && X.apx[i].s2 == s2 && X.apx[i].K == K) return i; X.apx.push_back({s1, M, s2, K}); return X.apx.size() - 1; }

static E mkTable(unsigned w, const std::vector<U> &v, E idx) {
  if (idx->op == CONST) return mkConst(w, idx->val < (U)v.size() ? v[(size_t)idx->val] : (U)0);
  size_t lo = 0, hi = v.size() - 1;
  if (fitsU(idx)) { if (idx->lo > 0) lo = (size_t)(uint64_t)idx->lo; if (idx->hi < (I)hi) hi = (size_t)(uint64_t)idx->hi; }
  if (lo > hi) { lo = 0; hi = v.size() - 1; }
  // composition of tables
  E base = idx;
  if (base->op == CONCAT && base->nk == 2 && isC(base->k[0], 0) && base->k[1]->op == TABLE) base = base->k[1];
  if (base->op == TABLE) {
    auto tv = X.tables[base->aux].v;
    std::vector<U> r(tv.size());
    for (size_t i = 0; i < tv.size(); i++) r[i] = tv[i] < (U)v.size() ? v[(size_t)tv[i]] : (U)0;
    return mkTable(w, r, base->k[0]);
  }
  bool same = true, ident = true; U mn = v[lo], mx = v[lo];
  for (size_t i = lo; i <= hi; i++) { if (v[i] != v[lo]) same = false; if (v[i] != (U)i) ident = false; if (v[i] < mn) mn = v[i]; if (v[i] > mx) mx = v[i]; }
  if (same) return mkConst(w, v[lo]);
  if (ident) { if (w >= idx->w) return mkZExt(idx, w); return mkExtract(idx, w - 1, 0); }
  if (hi - lo >= 1 && fitsU(idx)) {   // affine on its domain
    U d = (v[lo + 1] - v[lo]) & maskU(w); bool aff = true;
    for (size_t i = lo; i < hi && aff; i++) if (((v[i + 1] - v[i]) & maskU(w)) != d) aff = false;
    if (aff && idx->hi < (I)v.size()) { E x = idx->w >= w ? mkExtract(idx, w - 1, 0) : mkZExt(idx, w); return mkLin(w, {{d, x}}, v[lo] - d * (U)lo); }
  }
  if (idx->op == CONCAT && isC(idx->k[0], 0)) { std::vector<E> ks(idx->k + 1, idx->k + idx->nk); return mkTable(w, v, mkConcat(ks)); }
  std::vector<U> vv(v.begin(), v.begin() + hi + 1);
  for (size_t i = 0; i < lo; i++) vv[i] = vv[lo];   // unreachable entries: canonical
  uint64_t hh = w; for (auto &q : vv) hh = (hh ^ (uint64_t)q ^ (uint64_t)(q >> 64) * 31 ^ (uint64_t)(q >> 128) * 17) * 0x100000001b3ULL + (hh >> 31);
  auto &ids = X.tabIntern[hh]; unsigned id = ~0u;
  for (unsigned c : ids) if (X.tables[c].w == w && X.tables[c].v == vv) id = c;
  if (id == ~0u) { id = X.tables.size(); X.tables.push_back({w, vv}); ids.push_back(id); }
  return intern(TABLE, w, id, {idx}, nullptr, 0, (I)mn, (I)mx);
}

// ---- linear forms
static bool isZExt(E e) { return e->op == CONCAT && isC(e->k[0], 0); }
// the same natural number without zero extension or lossless truncation
static E core(E e) {
  for (;;) {
    if (isZExt(e)) { if (e->nk == 2) { e = e->k[1]; continue; } std::vector<E> ks(e->k + 1, e->k + e->nk); e = mkConcat(ks); continue; }
    if (e->op == EXTRACT && e->aux == 0 && e->k[0]->lo >= 0 && e->k[0]->hi < pow2I(e->w)) { e = e->k[0]; continue; }
    return e;
  }
}
static E stripZ(E e) { if (!isZExt(e)) return e; if (e->nk == 2) return e->k[1]; std::vector<E> ks(e->k + 1, e->k + e->nk); return mkConcat(ks); }

// integer range of  sum co[i]*t[i] + c  (terms through their ranges); cs = integer chosen for the constant
static bool linRange(unsigned w, const std::vector<std::pair<U, E>> &t, U c, I &lo, I &hi, I *cs) {
  I l = 0, h = 0;
  for (auto &p : t) { I k = sgn(p.first, w); if (k >= 0) { l += k * p.second->lo; h += k * p.second->hi; } else { l += k * p.second->hi; h += k * p.second->lo; } }
  I M = pow2I(w), c1 = sgn(c, w), c2 = (I)c;
  I cand[2] = {c1, c2};
  bool ctype = w == 8 || w == 16 || w == 32 || w == 64 || w == 128;      // other widths come from unsigned bit fields
  for (int pass = 0; pass < 3; pass++)
    for (I cc : cand) {
      I a = l + cc, b = h + cc;
      bool u = a >= 0 && b < M, s = a >= -(M >> 1) && b < (M >> 1);
      if (pass == 0 ? (u && s) : pass == 1 ? (ctype ? s : u) : (u || s)) { lo = a; hi = b; if (cs) *cs = cc; return true; }
    }
  if (h - l < M) {      // a valid window even if it straddles; keep it when it is narrower
    // normalise so that lo is in [-2^(w-1), 2^w)
    I a = l + c1, b = h + c1;
    if (a >= -M && b < 2 * M && (b - a) < (M >> 1)) { lo = a; hi = b; if (cs) *cs = c1; return true; }
  }
  lo = 0; hi = M - 1; if (cs) *cs = c1;
  return false;
}
static bool linTermsOk(E e);
// the linear form is an exact integer sum within its range (no wrap-around)
static bool linExact(E e) {
  if (!linTermsOk(e)) return false;
  std::vector<std::pair<U, E>> t; for (unsigned i = 0; i < e->nk; i++) t.push_back({e->co[i], e->k[i]});
  I lo, hi; return linRange(e->w, t, e->val, lo, hi, nullptr);
}

static E mkLin(unsigned w, std::vector<std::pair<U, E>> t, U c) {
  const U m = maskU(w);
  c &= m;
  // flatten
  std::vector<std::pair<U, E>> f;
  std::vector<std::pair<U, E>> st(t.rbegin(), t.rend());
  while (!st.empty()) {
    auto [k, e] = st.back(); st.pop_back();
    k &= m; if (!k) continue;
    if (e->op == CONST) { c = (c + k * e->val) & m; continue; }
    if (e->op == LIN) { c = (c + k * e->val) & m; for (int i = e->nk - 1; i >= 0; i--) st.push_back({(k * e->co[i]) & m, e->k[i]}); continue; }
    if (e->op == MUL && e->k[1]->op == CONST) { st.push_back({(k * e->k[1]->val) & m, e->k[0]}); continue; }
    if (e->op == CONCAT) {
      // constant pieces go to the constant, trailing zeros to the coefficient
      U cv = 0; bool hasc = false; std::vector<E> ks; 
      for (unsigned i = 0; i < e->nk; i++) { cv <<= e->k[i]->w; if (isC(e->k[i])) { cv |= e->k[i]->val; if (e->k[i]->val) hasc = true; ks.push_back(mkConst(e->k[i]->w, 0)); } else ks.push_back(e->k[i]); }
      if (hasc) { c = (c + k * cv) & m; st.push_back({k, mkConcat(ks)}); continue; }
      if (isC(e->k[e->nk - 1], 0)) {
        unsigned n = e->k[e->nk - 1]->w;
        std::vector<E> k2; k2.push_back(mkConst(n, 0)); for (unsigned i = 0; i + 1 < e->nk; i++) k2.push_back(e->k[i]);
        st.push_back({(k << n) & m, mkConcat(k2)}); continue;
      }
    }
    {   // k*(y mod 2^n) with k a multiple of 2^t, n+t >= w:  the truncation is irrelevant
      E y = stripZ(e); unsigned tz = ctzU(k);
      if (y->op == EXTRACT && y->aux == 0 && y->w < w && y->w + tz >= w) { E b = y->k[0]; E n = b->w >= w ? mkExtract(b, w - 1, 0) : mkZExt(b, w); bool self = n == e || n == y; for (unsigned i = 0; i < n->nk && !self; i++) self = n->k[i] == y; if (!self) { st.push_back({k, n}); continue; } }
    }
    f.push_back({k, e});
  }
  std::sort(f.begin(), f.end(), [](auto &a, auto &b) { return a.second->id < b.second->id; });
  std::vector<std::pair<U, E>> g;
  for (auto &p : f) { if (!g.empty() && g.back().second == p.second) { g.back().first = (g.back().first + p.first) & m; if (!g.back().first) g.pop_back(); } else g.push_back(p); }
  // K*(x/K) + x%K  ->  x   (directly or below a zero extension)
  for (size_t i = 0; i < g.size(); i++) {
    E r = core(g[i].second);
    if (r->op != UREM || !isC(r->k[1])) continue;
    for (size_t j = 0; j < g.size(); j++) {
      E d = core(g[j].second);
      if (j == i || d->op != UDIV || core(d->k[0]) != core(r->k[0]) || !isC(d->k[1]) || d->k[1]->val != r->k[1]->val) continue;
      if (((g[i].first * r->k[1]->val) & m) != g[j].first) continue;
      U k = g[i].first; E x = core(r->k[0]);
      std::vector<std::pair<U, E>> n; for (size_t q = 0; q < g.size(); q++) if (q != i && q != j) n.push_back(g[q]);
      n.push_back({k, x->w > w ? mkExtract(x, w - 1, 0) : mkZExt(x, w)});
      return mkLin(w, n, c);
    }
  }
  // k*APX + k*APXB  ->  k*(x/K)
  for (size_t i = 0; i < g.size(); i++) {
    E b = core(g[i].second); if (b->op != APXB) continue;
    for (size_t j = 0; j < g.size(); j++) {
      E a = core(g[j].second); if (a->op == EXTRACT && a->aux == 0 && a->w == w) a = a->k[0];
      if (a->op != APX || a->k[0] != b->k[0] || a->aux != b->aux || g[i].first != g[j].first) continue;
      U k = g[i].first; E q = mkUDiv(a->k[0], mkConst(a->k[0]->w, X.apx[a->aux].K)); q = q->w >= w ? mkExtract(q, w - 1, 0) : mkZExt(q, w);
      std::vector<std::pair<U, E>> n; for (size_t t = 0; t < g.size(); t++) if (t != i && t != j) n.push_back(g[t]);
      n.push_back({k, q}); return mkLin(w, n, c);
    }
  }
  // k*y - k*K*(y/K)  ->  k*(y % K)
  for (size_t j = 0; j < g.size(); j++) {
    E d = core(g[j].second);
    if (d->op == EXTRACT && d->aux == 0 && d->w == w) d = d->k[0];
    if (d->op != APX && (d->op != UDIV || !isC(d->k[1]))) continue;
    U K = d->op == APX ? X.apx[d->aux].K : d->k[1]->val; if (bitlenU(K) > w) continue;
    I cd = -sgn(g[j].first, w); if (cd % (I)K != 0) continue; I kk = cd / (I)K; if (kk == 0) continue; U k = toU(kk, w);
    E y = core(d->k[0]); if (y->op != LIN && y->w < d->w) y = d->k[0]; E yz = y->w >= w ? mkExtract(y, w - 1, 0) : mkZExt(y, w);
    std::vector<std::pair<U, E>> yt; U yc = 0;
    if (yz->op == LIN) { yc = yz->val; for (unsigned i = 0; i < yz->nk; i++) yt.push_back({yz->co[i], yz->k[i]}); } else yt.push_back({1, yz});
    bool all = true; 
    for (auto &p : yt) { bool found = false; for (size_t i = 0; i < g.size(); i++) if (i != j && (g[i].second == p.second || core(g[i].second) == core(p.second)) && g[i].first == ((k * p.first) & m)) found = true; if (!found) { all = false; break; } }
    if (!all) continue;
    std::vector<std::pair<U, E>> n;
    for (size_t i = 0; i < g.size(); i++) { if (i == j) continue; bool drop = false; for (auto &p : yt) if (p.second == g[i].second || core(p.second) == core(g[i].second)) drop = true; if (!drop) n.push_back(g[i]); }
    E r = mkURem(d->k[0], mkConst(d->k[0]->w, K)); r = r->w >= w ? mkExtract(r, w - 1, 0) : mkZExt(r, w);
    n.push_back({k, r}); if (d->op == APX) n.push_back({(k * K) & m, mkZExt(mkApx(APXB, d->k[0], d->aux, 1), w)});
    return mkLin(w, n, (c - k * yc) & m);
  }
  if (g.empty()) return mkConst(w, c);
  if (g.size() == 1 && c == 0) {
    if (g[0].first == 1) return g[0].second;
    U k = g[0].first;
    if ((k & (k - 1)) == 0) { unsigned s = ctzU(k); return mkConcat({mkExtract(g[0].second, w - s - 1, 0), mkConst(s, 0)}); }
  }
  I lo, hi; linRange(w, g, c, lo, hi, nullptr);
  // disjoint bit fields -> concatenation
  {
    bool ok = lo >= 0 && hi < pow2I(w); 
    struct S { unsigned s, n; E e; };
    std::vector<S> sl;
    for (auto &p : g) {
      if (!ok) break;
      U k = p.first; if (k & (k - 1)) { ok = false; break; }
      if (!fitsU(p.second)) { ok = false; break; }
      unsigned s = ctzU(k), n = bitlenU((U)p.second->hi);
      if (s + n > w || n == 0) { ok = false; break; }
      sl.push_back({s, n, p.second});
    }
    if (ok) {
      std::sort(sl.begin(), sl.end(), [](const S &a, const S &b) { return a.s > b.s; });
      for (size_t i = 0; ok && i + 1 < sl.size(); i++) if (sl[i + 1].s + sl[i + 1].n > sl[i].s) ok = false;
      for (auto &s : sl) if ((c >> s.s) & maskU(s.n)) ok = false;
    }
    if (ok) {
      std::vector<E> ks; unsigned top = w;
      for (auto &s : sl) {
        if (s.s + s.n < top) ks.push_back(mkConst(top - s.s - s.n, c >> (s.s + s.n)));
        ks.push_back(mkExtract(s.e, s.n - 1, 0)); top = s.s;
      }
      if (top) ks.push_back(mkConst(top, c));
      return mkConcat(ks);
    }
  }
  std::vector<E> k; std::vector<U> co;
  for (auto &p : g) { k.push_back(p.second); co.push_back(p.first); }
  bool hasT = false; for (E x : k) if (x->op == TABLE) hasT = true;
  if (hasT) { E r = tableFold(LIN, w, 0, k, &co, c); if (r) return r; }
  if (lo == hi) return mkConst(w, toU(lo, w));
  return intern(LIN, w, 0, k, &co, c, lo, hi);
}
static E mkAdd(E a, E b) { if (a->w == 1) return mkBit(XOR, a, b); return mkLin(a->w, {{1, a}, {1, b}}, 0); }
static E mkSub(E a, E b) { if (a->w == 1) return mkBit(XOR, a, b); return mkLin(a->w, {{1, a}, {maskU(a->w), b}}, 0); }
static E mkNeg(E a) { return mkLin(a->w, {{maskU(a->w), a}}, 0); }
static E mkMul(E a, E b) {
  if (a->w == 1) return mkBit(AND, a, b);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) return mkLin(a->w, {{b->val, a}}, 0);
  if (a->id > b->id) std::swap(a, b);
  unsigned w = a->w;
  if (fitsU(a) && fitsU(b)) { I h = a->hi * b->hi; if (h < pow2I(w)) return raw(MUL, w, {a, b}, a->lo * b->lo, h); }
  if (fitsS(a) && fitsS(b)) {
    I c[4] = {a->lo * b->lo, a->lo * b->hi, a->hi * b->lo, a->hi * b->hi}; I l = c[0], h = c[0];
    for (I x : c) { if (x < l) l = x; if (x > h) h = x; }
    if (l >= -pow2I(w - 1) && h < pow2I(w - 1)) return raw(MUL, w, {a, b}, l, h);
  }
  return rawFull(MUL, w, {a, b});
}

// the LIN e, widened to w2 bits as an exact integer (valid when its range fits the chosen window)
static E linWiden(E e, unsigned w2) {
  std::vector<std::pair<U, E>> t; for (unsigned i = 0; i < e->nk; i++) t.push_back({e->co[i], e->k[i]});
  I lo, hi, cs; linRange(e->w, t, e->val, lo, hi, &cs);
  std::vector<std::pair<U, E>> r;
  for (auto &p : t) {
    E x = p.second;
    E y = (fitsU(x)) ? mkZExt(x, w2) : mkSExt(x, w2);
    r.push_back({toU(sgn(p.first, e->w), w2), y});
  }
  return mkLin(w2, r, toU(cs, w2));
}
static bool linTermsOk(E e) { // every term has a faithful integer interpretation
  for (unsigned i = 0; i < e->nk; i++) if (!fitsU(e->k[i]) && !fitsS(e->k[i])) return false;
  return true;
}

static E mkZExt(E e, unsigned w) {
  if (w == e->w) return e;
  if (isC(e)) return mkConst(w, e->val);
  if (e->op == LIN && fitsU(e) && linExact(e)) return linWiden(e, w);
  return mkConcat({mkConst(w - e->w, 0), e});
}
static E mkSExt(E e, unsigned w) {
  if (w == e->w) return e;
  if (isC(e)) return mkConst(w, toU(sgn(e->val, e->w), w));
  if (e->lo >= 0 && e->hi < pow2I(e->w - 1)) return mkZExt(e, w);
  if (e->op == LIN && fitsS(e) && linExact(e)) return linWiden(e, w);
  if (e->op == SEXT) return mkSExt(e->k[0], w);
  if (e->op == ITE && (isC(e->k[1]) || isC(e->k[2]))) return mkIte(e->k[0], mkSExt(e->k[1], w), mkSExt(e->k[2], w));
  if (fitsS(e)) return raw(SEXT, w, {e}, e->lo, e->hi);
  return raw(SEXT, w, {e}, -pow2I(e->w - 1), pow2I(e->w - 1) - 1);
}

static E mkConcat(const std::vector<E> &in) {
  std::vector<E> k;
  std::vector<E> st(in.rbegin(), in.rend());
  unsigned w = 0;
  while (!st.empty()) {
    E e = st.back(); st.pop_back();
    if (e->w == 0) continue;
    if (e->op == CONCAT) { for (int i = e->nk - 1; i >= 0; i--) st.push_back(e->k[i]); continue; }
    w += e->w;
    if (!k.empty()) {
      E p = k.back();
      if (isC(p) && isC(e)) { k.back() = mkConst(p->w + e->w, (p->val << e->w) | e->val); continue; }
      if (p->op == EXTRACT && !isC(e)) {
        E b = p->k[0]; unsigned lo = p->aux;
        if (lo >= e->w && (e->vars == b->vars) && mkExtract(b, lo - 1, lo - e->w) == e) {
          w -= e->w; w -= p->w; k.pop_back();
          st.push_back(mkExtract(b, lo + p->w - 1, lo - e->w));
          // re-process (may merge with previous)
          continue;
        }
      }
      // sign-extension bits in front of a value: leave
    }
    k.push_back(e);
  }
  if (k.size() == 1) return k[0];
  // zext of LIN as exact integer
  if (k.size() == 2 && isC(k[0]) && k[1]->op == LIN && fitsU(k[1]) && linExact(k[1])) {
    static int depth = 0; struct G { G() { depth++; } ~G() { depth--; } } guard;   // mkLin may split the same value into fields again
    if (depth < 6) { E l = linWiden(k[1], w); return isC(k[0], 0) ? l : mkLin(w, {{1, l}}, k[0]->val << k[1]->w); }
  }
  // range
  I lo = 0, hi = 0;
  for (E e : k) { I l = 0, h = pow2I(e->w) - 1; if (fitsU(e)) { l = e->lo; h = e->hi; } lo = (lo << e->w) + l; hi = (hi << e->w) + h; }
  return raw(CONCAT, w, k, lo, hi);
}

static E mkExtract(E e, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1;
  if (hi < lo || hi >= e->w) { fprintf(stderr, "bad extract %u %u of %u\n", hi, lo, e->w); abort(); }
  if (w == e->w) return e;
  switch (e->op) {
    case CONST: return mkConst(w, e->val >> lo);
    case EXTRACT: return mkExtract(e->k[0], hi + e->aux, lo + e->aux);
    case CONCAT: {
      std::vector<E> ks; unsigned top = e->w;
      for (unsigned i = 0; i < e->nk; i++) {
        unsigned l = top - e->k[i]->w, h = top - 1;
        if (l <= hi && h >= lo) ks.push_back(mkExtract(e->k[i], std::min(h, hi) - l, std::max(l, lo) - l));
        top = l;
      }
      return mkConcat(ks);
    }
    case AND: case OR: case XOR: return mkBit(e->op, mkExtract(e->k[0], hi, lo), mkExtract(e->k[1], hi, lo));
    case ITE: if ((isC(e->k[1]) || isC(e->k[2])) || e->size < 200) return mkIte(e->k[0], mkExtract(e->k[1], hi, lo), mkExtract(e->k[2], hi, lo)); break;
    case SEXT: { E s = e->k[0]; if (hi < s->w) return mkExtract(s, hi, lo); if (lo < s->w) return mkSExt(lo ? mkExtract(s, s->w - 1, lo) : s, w); break; }
    default: break;
  }
  if (lo && e->op == LIN && fitsU(e) && linExact(e)) {
    E q = mkUDivX(e, mkConst(e->w, (U)1 << lo), true); E d = q ? core(q) : nullptr;
    if (d && ((d->op == UDIV && isC(d->k[1]) && (d->k[1]->val & (d->k[1]->val - 1))) || d->op == APX)) return mkExtract(q, w - 1, 0);
  }
  // bits above the range are constant
  if (e->lo >= -pow2I(e->w) && (e->hi < 0 || fitsU(e))) {
    I off = e->hi < 0 ? pow2I(e->w) : (I)0; U ul = (U)(e->lo + off), uh = (U)(e->hi + off);
    unsigned n = bitlenU(ul ^ uh);
    if (n <= lo) return mkConst(w, ul >> lo);
    if (hi >= n) return mkConcat({mkConst(hi - n + 1, ul >> n), mkExtract(e, n - 1, lo)});
    if (lo && n < e->w && e->op == LIN && (ul >> n)) { E t = mkExtract(e, n - 1, 0); if (t->op != EXTRACT || t->k[0] != e) return mkExtract(t, hi, lo); }
  }
  if (lo == 0) {
    if (e->op == LIN) { std::vector<std::pair<U, E>> t; for (unsigned i = 0; i < e->nk; i++) t.push_back({e->co[i], mkExtract(e->k[i], hi, 0)}); return mkLin(w, t, e->val); }
    if (e->op == MUL) return mkMul(mkExtract(e->k[0], hi, 0), mkExtract(e->k[1], hi, 0));
  } else if (fitsU(e)) {
    if (e->op == LIN && linExact(e)) {
      E q = mkUDivX(e, mkConst(e->w, (U)1 << lo), true);
      if (q && (q->op != UDIV || (isC(q->k[1]) && (q->k[1]->val & (q->k[1]->val - 1)))) && !(q->op == CONCAT && q->nk >= 1 && stripZ(q)->op == EXTRACT && stripZ(q)->k[0] == e)) return mkExtract(q, w - 1, 0);
    }
    if (e->op == UDIV && isC(e->k[1]) && bitlenU(e->k[1]->val) + lo <= e->w) return mkExtract(mkUDiv(e->k[0], mkConst(e->w, e->k[1]->val << lo)), w - 1, 0);
  }
  if (fitsU(e) && e->hi < pow2I(hi + 1)) return raw(EXTRACT, w, {e}, e->lo >> lo, e->hi >> lo, lo);
  return rawFull(EXTRACT, w, {e}, lo);
}

static E mkShl(E a, E b) {
  unsigned w = a->w;
  if (isC(b)) { if (b->val >= w) return mkConst(w, 0); unsigned s = (unsigned)b->val; if (!s) return a; return mkConcat({mkExtract(a, w - s - 1, 0), mkConst(s, 0)}); }
  if (isC(a, 0)) return a;
  return rawFull(SHL, w, {a, b});
}
static E mkLShr(E a, E b) {
  unsigned w = a->w;
  if (isC(b)) { if (b->val >= w) return mkConst(w, 0); unsigned s = (unsigned)b->val; if (!s) return a; return mkZExt(mkExtract(a, w - 1, s), w); }
  if (isC(a, 0)) return a;
  if (fitsU(a)) return raw(LSHR, w, {a, b}, 0, a->hi);
  return rawFull(LSHR, w, {a, b});
}
static E mkAShr(E a, E b) {
  unsigned w = a->w;
  if (isC(b)) { unsigned s = b->val >= w ? w - 1 : (unsigned)b->val; if (!s) return a; return mkSExt(mkExtract(a, w - 1, s), w); }
  if (a->lo >= 0 && a->hi < pow2I(w - 1)) return mkLShr(a, b);
  return rawFull(ASHR, w, {a, b});
}

static E mkBit(Op op, E a, E b) {
  unsigned w = a->w;
  if (isC(a)) std::swap(a, b);
  U m = maskU(w);
  if (isC(a) && isC(b)) return mkConst(w, op == AND ? a->val & b->val : op == OR ? a->val | b->val : a->val ^ b->val);
  if (a == b) return op == XOR ? mkConst(w, 0) : a;
  if (isC(b)) {
    if (op == AND) { if (!b->val) return b; if (b->val == m) return a; }
    if (op == OR) { if (!b->val) return a; if (b->val == m) return b; }
    if (op == XOR && !b->val) return a;
  }
  if (w == 1) {
    if (op == XOR) { if (isC(b)) return mkNot(a); if (a->op == NOT) return mkNot(mkBit(XOR, a->k[0], b)); if (b->op == NOT) return mkNot(mkBit(XOR, a, b->k[0])); }
    if (a->op == NOT && a->k[0] == b) return op == AND ? F1() : op == OR ? T1() : T1();
    if (b->op == NOT && b->k[0] == a) return op == AND ? F1() : op == OR ? T1() : T1();
    if (op == AND || op == OR) {
      // absorption with a nested same-op
      for (int s = 0; s < 2; s++) { E x = s ? b : a, y = s ? a : b; if (x->op == op && (x->k[0] == y || x->k[1] == y)) return x; }
    }
    if (a->id > b->id && !isC(b)) std::swap(a, b);
    return rawFull(op, 1, {a, b});
  }
  // slice on constant runs and concatenation boundaries
  std::vector<bool> cut(w + 1, false); bool any = false;
  auto mark = [&](E e) {
    if (e->op == CONCAT) { unsigned top = e->w; for (unsigned i = 0; i < e->nk; i++) { top -= e->k[i]->w; if (top) { cut[top] = true; any = true; } 
        if (isC(e->k[i])) { U v = e->k[i]->val; for (unsigned j = 1; j < e->k[i]->w; j++) if (((v >> j) & 1) != ((v >> (j - 1)) & 1)) { cut[top + j] = true; any = true; } } } }
    if (isC(e)) { for (unsigned j = 1; j < w; j++) if (((e->val >> j) & 1) != ((e->val >> (j - 1)) & 1)) { cut[j] = true; any = true; } }
    if (e->op != CONCAT && !isC(e) && fitsU(e)) { unsigned n = bitlenU((U)e->hi); if (n && n < w) { cut[n] = true; any = true; } }
    if (e->op == SEXT) { cut[e->k[0]->w] = true; any = true; }
  };
  mark(a); mark(b);
  if (any) {
    std::vector<E> ks; unsigned h = w;
    for (int i = w - 1; i >= 0; i--) if (cut[i] || i == 0) { ks.push_back(mkBit(op, mkExtract(a, h - 1, i), mkExtract(b, h - 1, i))); h = i; }
    return mkConcat(ks);
  }
  if (a->id > b->id && !isC(b)) std::swap(a, b);
  if (op == AND && fitsU(a) && fitsU(b)) { I h = a->hi < b->hi ? a->hi : b->hi; return raw(AND, w, {a, b}, 0, h); }
  return rawFull(op, w, {a, b});
}
static E mkNot(E a) {
  if (isC(a)) return mkConst(1, !a->val);
  if (a->op == NOT) return a->k[0];
  return rawFull(NOT, 1, {a});
}

static U gcdU(U a, U b) { while (b) { U t = a % b; a = b; b = t; } return a; }

static E mkUDivX(E a, E b, bool fromExtract) {
  unsigned w = a->w;
  if (isC(b)) {
    U K = b->val;
    if (K == 0) return mkConst(w, maskU(w));
    if (K == 1) return a;
    if (isC(a)) return mkConst(w, a->val / K);
    if (fitsU(a)) {
      if (a->hi < (I)K) return mkConst(w, 0);
      if (a->lo / (I)K == a->hi / (I)K) return mkConst(w, toU(a->lo / (I)K, w));
    }
    if (a->op == LIN && fitsU(a) && linExact(a)) {
      // exact integer linear form: peel multiples of K
      std::vector<std::pair<U, E>> t; for (unsigned i = 0; i < a->nk; i++) t.push_back({a->co[i], a->k[i]});
      I lo, hi, cs; linRange(w, t, a->val, lo, hi, &cs);
      I IK = (I)K;
      // common factor
      U g = K; for (auto &p : t) { I k = sgn(p.first, w); g = gcdU(g, (U)(k < 0 ? -k : k)); }
      bool single = false;
      std::vector<std::pair<U, E>> q, r; bool termsU = true;
      for (auto &p : t) { I k = sgn(p.first, w); if (k % IK == 0) q.push_back({toU(k / IK, w), p.second}); else r.push_back(p); if (!fitsU(p.second)) termsU = termsU; }
      I cq = cs / IK, cr = cs % IK; if (cr < 0) { cr += IK; cq -= 1; }
      I rl = cr, rh = cr;
      for (auto &p : r) { I k = sgn(p.first, w); if (k >= 0) { rl += k * p.second->lo; rh += k * p.second->hi; } else { rl += k * p.second->hi; rh += k * p.second->lo; } }
      if (!q.empty() || cq != 0) {
        // floor((K*Q + R)/K) = Q + floor(R/K)
        I fl = rl >= 0 ? rl / IK : -((-rl + IK - 1) / IK), fh = rh >= 0 ? rh / IK : -((-rh + IK - 1) / IK);
        if (fl == fh) return mkLin(w, q, toU(cq + fl, w));
        if (rl >= 0 && rh < pow2I(w)) {
          E R = mkLin(w, r, toU(cr, w));
          if (R->op != LIN || (R->lo == rl && R->hi == rh)) {
            if (R->lo >= 0 && R->hi < pow2I(w)) { q.push_back({1, mkUDiv(R, b)}); return mkLin(w, q, toU(cq, w)); }
          }
        }
      }
      // common factor:  (g*Q + c)/ (g*K') = (Q + floor(c/g)) / K'
      if (g > 1 && g < K) {
        std::vector<std::pair<U, E>> d; for (auto &p : t) d.push_back({toU(sgn(p.first, w) / (I)g, w), p.second});
        I cg = cs >= 0 ? cs / (I)g : -((-cs + (I)g - 1) / (I)g);
        E n = mkLin(w, d, toU(cg, w));
        if (fitsU(n) || isC(n)) return mkUDiv(n, mkConst(w, K / g));
      }
      (void)single;
      // multiply-and-shift division by a constant: (M*x) >> s  with K = 2^s
      if ((K & (K - 1)) == 0) {
        U ga = (U)(cs < 0 ? -cs : cs); for (auto &p : t) { I k = sgn(p.first, w); ga = gcdU(ga, (U)(k < 0 ? -k : k)); }
        if (ga > 1) {
          E n; if (a->nk == 1 && cs == 0) n = a->k[0]; else { std::vector<std::pair<U, E>> d; for (auto &p : t) d.push_back({toU(sgn(p.first, w) / (I)ga, w), p.second}); n = mkLin(w, d, toU(cs / (I)ga, w)); }
          if (fitsU(n)) {
            I M = (I)ga, P = (I)K, x = n->hi;
            I D = (P + M - 1) / M;            // candidate divisor
            I e = M * D - P;
            if (D >= 1 && e >= 0 && e * x < P && D < pow2I(w)) return mkUDiv(n, mkConst(w, (U)D));
            E t = core(n);
            if (t->op == LIN && t->nk == 1 && t->co[0] == 1 && linExact(t) && core(t->k[0])->op == EXTRACT && core(t->k[0])->aux) {      // (x>>s) + c0 = (x + c0*2^s) >> s
              E x0 = core(t->k[0]); E L0 = x0->k[0]; I c0 = t->lo - t->k[0]->lo;
              if (c0 > 0 && fitsU(L0) && L0->hi < pow2I(x0->aux + x0->w)) {
                unsigned W = std::max<unsigned>(L0->w, bitlenU((U)L0->hi + ((U)c0 << x0->aux)) + 1);
                E L1 = mkLin(W, {{1, mkZExt(L0, W)}}, (U)c0 << x0->aux);
                if (fitsU(L1)) { E q = raw(EXTRACT, W - x0->aux, {L1}, L1->lo >> x0->aux, L1->hi >> x0->aux, x0->aux); t = q; }
              }
            }
            if (t->op == EXTRACT && t->aux && fitsU(t->k[0]) && t->k[0]->hi < pow2I(t->aux + t->w) && bitlenU((U)M) + t->aux + bitlenU((U)t->k[0]->hi) < 250) {
              I S = pow2I(t->aux), D1 = (S * P) / M, Lm = t->k[0]->hi;
              if (D1 >= 10 && D1 % 10 == 0 && Lm * (S * P - M * D1) + (S - 1) * M * D1 < S * P * D1) {
                E q = mkApx(APX, t->k[0], apxId(t->aux, (U)M, ctzU(K), (U)D1), t->k[0]->w);
                return q->w >= w ? mkExtract(q, w - 1, 0) : mkZExt(q, w);
              }
            }
          }
        }
      }
    }
    if (a->op == EXTRACT && a->aux && fitsU(a->k[0]) && a->k[0]->hi < pow2I(a->aux + a->w) && bitlenU(K) + a->aux <= a->k[0]->w) { E q = mkUDiv(a->k[0], mkConst(a->k[0]->w, K << a->aux)); return q->w > w ? mkExtract(q, w - 1, 0) : mkZExt(q, w); }
    if (a->op == UDIV && isC(a->k[1])) { U p = a->k[1]->val; if (bitlenU(p) + bitlenU(K) <= 250) { U pk = p * K; if (bitlenU(pk) > w) return mkConst(w, 0); return mkUDiv(a->k[0], mkConst(w, pk)); } }
    if (isZExt(a)) {
      E s = stripZ(a);
      if (s->op == UDIV && isC(s->k[1])) { U p = s->k[1]->val; U pk = p * K; if (bitlenU(p) + bitlenU(K) <= 250) { if (bitlenU(pk) > s->w) return mkConst(w, 0); return mkZExt(mkUDiv(s->k[0], mkConst(s->w, pk)), w); } }
    }
    if ((K & (K - 1)) == 0) { if (fromExtract) return nullptr; return mkZExt(mkExtract(a, w - 1, ctzU(K)), w); }
    // narrow
    if (fitsU(a)) {
      unsigned n = std::max(bitlenU((U)a->hi), bitlenU(K));
      if (n < w) return mkZExt(mkUDiv(mkExtract(a, n - 1, 0), mkConst(n, K)), w);
      return raw(UDIV, w, {a, b}, a->lo / (I)K, a->hi / (I)K);
    }
    return raw(UDIV, w, {a, b}, 0, (pow2I(w) - 1) / (I)K);
  }
  if (isC(a, 0)) return a;
  if (fitsU(a) && fitsU(b)) {
    unsigned n = std::max(bitlenU((U)a->hi), bitlenU((U)b->hi)); if (n == 0) n = 1;
    if (n < w && b->lo > 0) return mkZExt(mkUDiv(mkExtract(a, n - 1, 0), mkExtract(b, n - 1, 0)), w);
    if (b->lo > 0) return raw(UDIV, w, {a, b}, a->lo / b->hi, a->hi / b->lo);
  }
  return rawFull(UDIV, w, {a, b});
}
static E mkURem(E a, E b) {
  unsigned w = a->w;
  if (isC(b)) {
    U K = b->val;
    if (K == 0) return a;
    if (K == 1) return mkConst(w, 0);
    if (isC(a)) return mkConst(w, a->val % K);
    if (fitsU(a) && a->hi < (I)K) return a;
    if ((K & (K - 1)) == 0) { unsigned s = ctzU(K); return mkZExt(mkExtract(a, s - 1, 0), w); }
    if (fitsU(a) && a->lo / (I)K == a->hi / (I)K) return mkLin(w, {{1, a}}, toU(-(a->lo / (I)K) * (I)K, w));
    if (a->op == LIN && fitsU(a) && linExact(a)) {
      std::vector<std::pair<U, E>> t; for (unsigned i = 0; i < a->nk; i++) t.push_back({a->co[i], a->k[i]});
      I lo, hi, cs; linRange(w, t, a->val, lo, hi, &cs); I IK = (I)K;
      std::vector<std::pair<U, E>> r; bool ch = false; I cr = cs % IK; if (cr < 0) cr += IK; if (cr != cs) ch = true;
      I rl = cr, rh = cr;
      for (auto &p : t) {
        I k = sgn(p.first, w); I kr = k % IK; if (kr < 0) kr += IK; if (kr != k) ch = true;
        if (kr == 0) continue; if (!(p.second->lo >= 0)) { ch = false; r.clear(); rl = -1; break; }
        r.push_back({toU(kr, w), p.second}); rl += kr * p.second->lo; rh += kr * p.second->hi; }
      if (ch && rl >= 0 && rh < pow2I(w)) { E R = mkLin(w, r, toU(cr, w)); if (fitsU(R) && R != a) return mkURem(R, b); }
    }
    if (a->op == UREM && isC(a->k[1]) && a->k[1]->val % K == 0) return mkURem(a->k[0], b);
    if (isZExt(a)) { E s = stripZ(a); if (s->op == UREM && isC(s->k[1]) && s->k[1]->val % K == 0) return mkZExt(mkURem(s->k[0], mkConst(s->w, K)), w); }
    if (fitsU(a)) { unsigned n = std::max(bitlenU((U)a->hi), bitlenU(K)); if (n < w) return mkZExt(mkURem(mkExtract(a, n - 1, 0), mkConst(n, K)), w); }
    return raw(UREM, w, {a, b}, 0, (I)K - 1);
  }
  if (fitsU(a) && fitsU(b) && b->lo > 0) {
    if (a->hi < b->lo) return a;
    unsigned n = std::max(bitlenU((U)a->hi), bitlenU((U)b->hi));
    if (n < w) return mkZExt(mkURem(mkExtract(a, n - 1, 0), mkExtract(b, n - 1, 0)), w);
    return raw(UREM, w, {a, b}, 0, std::min(a->hi, b->hi - 1));
  }
  return rawFull(UREM, w, {a, b});
}
static E mkSDiv(E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b) && b->val) return mkConst(w, sdivU(a->val, b->val, w));
  bool an = a->lo >= 0 && a->hi < pow2I(w - 1), bn = b->lo >= 0 && b->hi < pow2I(w - 1);
  if (an && bn) return mkUDiv(a, b);
  if (isC(b) && bn && b->val && fitsS(a)) {   // exact: sign split
    E neg = mkSlt(a, mkConst(w, 0));
    if (isC(neg, 1)) return mkNeg(mkUDiv(mkNeg(a), b));
    return mkIte(neg, mkNeg(mkUDiv(mkIte(neg, mkNeg(a), mkConst(w, 0)), b)), mkUDiv(mkIte(neg, mkConst(w, 0), a), b));
  }
  return rawFull(SDIV, w, {a, b});
}
static E mkSRem(E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b) && b->val) return mkConst(w, sremU(a->val, b->val, w));
  bool an = a->lo >= 0 && a->hi < pow2I(w - 1), bn = b->lo >= 0 && b->hi < pow2I(w - 1);
  if (an && bn) return mkURem(a, b);
  if (isC(b) && b->val && fitsS(a)) return mkSub(a, mkMul(mkSDiv(a, b), b));
  return rawFull(SREM, w, {a, b});
}

static E mkIte(E c, E a, E b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == NOT) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->val ? c : mkNot(c);
    if (isC(a)) return a->val ? mkBit(OR, c, b) : mkBit(AND, mkNot(c), b);
    if (isC(b)) return b->val ? mkBit(OR, mkNot(c), a) : mkBit(AND, c, a);
    if (a == c) return mkBit(OR, c, b);
    if (b == c) return mkBit(AND, c, a);
  }
  auto under = [&](E x, bool val) -> E {       // the arm, knowing the condition
    if (x->op == CONCAT && x->nk == 2 && x->k[1] == c && isC(x->k[0])) return mkConst(x->w, (x->k[0]->val << 1) | (val ? 1 : 0));
    if (x->op != LIN) return x;
    std::vector<std::pair<U, E>> t; bool ch = false;
    for (unsigned i = 0; i < x->nk; i++) { E k = core(x->k[i]); if (k == c) { if (val) t.push_back({x->co[i], mkConst(x->w, 1)}); ch = true; } else if (k->op == NOT && k->k[0] == c) { if (!val) t.push_back({x->co[i], mkConst(x->w, 1)}); ch = true; } else t.push_back({x->co[i], x->k[i]}); }
    return ch ? mkLin(x->w, t, x->val) : x;
  };
  a = under(a, true); b = under(b, false); if (a == b) return a;
  if (a->op == ITE && a->k[0] == c) a = a->k[1];
  if (b->op == ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  unsigned w = a->w;
  // common concat prefix/suffix
  if (isC(a) && isC(b) && w > 1) {
    U d = a->val ^ b->val;
    if (d == 1 ) { return mkConcat({mkConst(w - 1, a->val >> 1), mkIte(c, mkConst(1, a->val), mkConst(1, b->val))}); }
  }
  if (w > 1 && (isZExt(a) || isC(a)) && (isZExt(b) || isC(b)) && !(isC(a) && isC(b))) {
    unsigned n = std::max(bitlenU(fitsU(a) ? (U)a->hi : maskU(w)), bitlenU(fitsU(b) ? (U)b->hi : maskU(w)));
    if (n < w && n > 0) return mkZExt(mkIte(c, mkExtract(a, n - 1, 0), mkExtract(b, n - 1, 0)), w);
  }
  I lo = 0, hi = pow2I(w) - 1;
  if ((fitsU(a) && fitsU(b)) || (fitsS(a) && fitsS(b))) { lo = std::min(a->lo, b->lo); hi = std::max(a->hi, b->hi); }
  return raw(ITE, w, {c, a, b}, lo, hi);
}

static E mkEq(E a, E b) {
  if (a == b) return T1();
  if (isC(a)) std::swap(a, b);
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(1, a->val == b->val);
  if (w == 1) { if (isC(b)) return b->val ? a : mkNot(a); return mkNot(mkBit(XOR, a, b)); }
  if ((fitsU(a) && fitsU(b)) || (fitsS(a) && fitsS(b))) if (a->hi < b->lo || b->hi < a->lo) return F1();
  if (isC(b) && fitsS(a) && !fitsU(a)) { I v = sgn(b->val, w); if (v < a->lo || v > a->hi) return F1(); }
  if (isC(b)) {
    U v = b->val;
    if (a->op == CONCAT) {
      unsigned top = w; std::vector<std::pair<E, U>> rest;
      for (unsigned i = 0; i < a->nk; i++) {
        top -= a->k[i]->w; U pv = (v >> top) & maskU(a->k[i]->w);
        if (isC(a->k[i])) { if (a->k[i]->val != pv) return F1(); } else rest.push_back({a->k[i], pv});
      }
      E r = T1(); for (auto &p : rest) { r = mkBit(AND, r, mkEq(p.first, mkConst(p.first->w, p.second))); if (isC(r, 0)) return r; }
      return r;
    }
    if (a->op == LIN) {
      if (a->nk == 1) {
        U k = a->co[0], d = (v - a->val) & maskU(w);
        if (k == 1) return mkEq(a->k[0], mkConst(w, d));
        if (k == maskU(w)) return mkEq(a->k[0], mkConst(w, (0 - d) & maskU(w)));
        // integer solution when no wrap is possible
        std::vector<std::pair<U, E>> t{{k, a->k[0]}}; I lo, hi, cs; bool ex = linRange(w, t, a->val, lo, hi, &cs) && linTermsOk(a);
        bool u = lo >= 0 && hi < pow2I(w), s = lo >= -pow2I(w - 1) && hi < pow2I(w - 1);
        if (ex && (u || s)) { I target = (u ? (I)v : sgn(v, w)) - cs, kk = sgn(k, w); if (target % kk != 0) return F1(); I q = target / kk; if (q < a->k[0]->lo || q > a->k[0]->hi) return F1(); return mkEq(a->k[0], mkConst(w, toU(q, w))); }
      } else if (a->val) {
        std::vector<std::pair<U, E>> t; for (unsigned i = 0; i < a->nk; i++) t.push_back({a->co[i], a->k[i]});
        return mkEq(mkLin(w, t, 0), mkConst(w, (v - a->val) & maskU(w)));
      }
      if (v == 0 && a->val == 0) {   // all terms non-negative, positive coefficients, no wrap: each zero
        bool ok = fitsU(a) && linExact(a); for (unsigned i = 0; i < a->nk && ok; i++) if (!fitsU(a->k[i]) || sgn(a->co[i], w) < 0) ok = false;
        if (ok && a->nk > 1) { E r = T1(); for (unsigned i = 0; i < a->nk; i++) r = mkBit(AND, r, mkEq(a->k[i], mkConst(w, 0))); return r; }
      }
    }
    if (a->op == UDIV && isC(a->k[1]) && v == 0 && a->k[1]->val) return mkUlt(a->k[0], a->k[1]);
    if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
    if (a->op == SEXT) { E s = a->k[0]; if (toU(sgn(v & maskU(s->w), s->w), w) != v) return F1(); return mkEq(s, mkConst(s->w, v)); }
    if (a->op == XOR && isC(a->k[1])) return mkEq(a->k[0], mkConst(w, v ^ a->k[1]->val));
    if (fitsU(a)) { unsigned n = bitlenU((U)a->hi); if (n < w && a->op != VAR) { E x = mkExtract(a, n - 1, 0); if (x->op != EXTRACT) return mkEq(x, mkConst(n, v)); } }
  } else {
    if (isZExt(a) && isZExt(b)) { unsigned n = w - std::min(a->k[0]->w, b->k[0]->w); return mkEq(mkExtract(a, n - 1, 0), mkExtract(b, n - 1, 0)); }
    if (a->op == LIN || b->op == LIN) {
      E d = mkSub(a, b);
      if (isC(d)) return mkConst(1, d->val == 0);
      if (d->op != LIN || d->nk + 0 <= 1) return mkEq(d, mkConst(w, 0));
      // canonical sign: first coefficient non-negative
      if (sgn(d->co[0], w) < 0) d = mkNeg(d);
      if (d->op == LIN) {
        if ((fitsS(d) || fitsU(d)) && (d->lo > 0 || d->hi < 0)) return F1();
        // keep in two-sided form: positives == negatives
        std::vector<std::pair<U, E>> p, n; U m = maskU(w);
        for (unsigned i = 0; i < d->nk; i++) if (sgn(d->co[i], w) >= 0) p.push_back({d->co[i], d->k[i]}); else n.push_back({(0 - d->co[i]) & m, d->k[i]});
        E l = mkLin(w, p, 0), r = mkLin(w, n, (0 - d->val) & m);
        if (isC(r)) return raw(EQ, 1, {l, r}, 0, 1);
        if (l->id > r->id) std::swap(l, r);
        return raw(EQ, 1, {l, r}, 0, 1);
      }
      return mkEq(d, mkConst(w, 0));
    }
    if (a->op == CONCAT && b->op == CONCAT) {
      // same boundaries: split
      bool same = a->nk == b->nk; for (unsigned i = 0; same && i < a->nk; i++) if (a->k[i]->w != b->k[i]->w) same = false;
      if (same) { E r = T1(); for (unsigned i = 0; i < a->nk; i++) { r = mkBit(AND, r, mkEq(a->k[i], b->k[i])); if (isC(r, 0)) return r; } return r; }
    }
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return rawFull(EQ, 1, {a, b});
}

static E mkUlt(E a, E b) {
  if (a == b) return F1();
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(1, a->val < b->val);
  if (w == 1) return mkBit(AND, mkNot(a), b);
  if (isC(b, 0)) return F1();
  if (isC(a, maskU(w))) return F1();
  if (fitsU(a) && fitsU(b)) { if (a->hi < b->lo) return T1(); if (a->lo >= b->hi) return F1(); }
  if (isC(b, 1)) return mkEq(a, mkConst(w, 0));
  if (isC(a, 0)) return mkNot(mkEq(b, a));
  if (isC(a)) return mkNot(mkUlt(b, mkConst(w, a->val + 1)));     // c < b  <=>  !(b < c+1)
  if (isC(b)) {
    U v = b->val;
    if (a->op == CONCAT && isC(a->k[a->nk - 1])) { unsigned s = a->k[a->nk - 1]->w; U low = v & maskU(s); U lv = a->k[a->nk - 1]->val; E h = mkExtract(a, w - 1, s); // (h:lv) < v <=> h < vh or (h==vh and lv<low)
      U vh = v >> s; if (lv < low) { if (vh == maskU(w - s)) return T1(); return mkUlt(h, mkConst(w - s, vh + 1)); } return mkUlt(h, mkConst(w - s, vh)); }
    if (fitsU(a)) {
      if (a->op == LIN && a->nk == 1) {
        std::vector<std::pair<U, E>> t{{a->co[0], a->k[0]}}; I lo, hi, cs; bool ex = linRange(w, t, a->val, lo, hi, &cs);
        I k = sgn(a->co[0], w), d = (I)v - cs;   // k*t < d
        E x = a->k[0];
        if (ex && fitsU(x) && lo == a->lo && hi == a->hi) {
          if (k > 0) { I q = d > 0 ? (d + k - 1) / k : 0; if (q <= x->lo) return F1(); if (q > x->hi) return T1(); return mkUlt(x, mkConst(w, toU(q, w))); }
          if (k < 0) { // t > d/k : -|k| t < d <=> t > -d/|k| <=> t >= floor(-d/|k|)+1
            I n = -d, ak = -k; I f = n >= 0 ? n / ak : -((-n + ak - 1) / ak); I q = f + 1; if (q <= x->lo) return T1(); if (q > x->hi) return F1(); return mkNot(mkUlt(x, mkConst(w, toU(q, w)))); }
        }
      }
      if (a->op == LIN && a->nk > 1 && linExact(a)) {      // one term decides
        std::vector<std::pair<U, E>> t; for (unsigned i = 0; i < a->nk; i++) t.push_back({a->co[i], a->k[i]}); I lo, hi, cs; linRange(w, t, a->val, lo, hi, &cs);
        I sl = cs, sh = cs; for (auto &p : t) { I k = sgn(p.first, w); if (k >= 0) { sl += k * p.second->lo; sh += k * p.second->hi; } else { sl += k * p.second->hi; sh += k * p.second->lo; } }
        if (sl == a->lo && sh == a->hi) for (auto &p : t) {
          E x = p.second; if (!fitsU(x)) continue; I k = sgn(p.first, w), V = (I)v;
          I rl = sl - (k >= 0 ? k * x->lo : k * x->hi), rh = sh - (k >= 0 ? k * x->hi : k * x->lo);
          if (k > 0) { I n = V - rl; I t0 = n > 0 ? (n + k - 1) / k : (I)0; if (t0 > x->lo && t0 <= x->hi && (t0 - 1) * k + rh < V) return mkUlt(x, mkConst(w, toU(t0, w))); }
          else { I ak = -k, n = rh - V; I t0 = n >= 0 ? n / ak + 1 : (I)0; if (t0 > x->lo && t0 <= x->hi && rl - ak * (t0 - 1) >= V) return mkNot(mkUlt(x, mkConst(w, toU(t0, w)))); }
        }
      }
      if (a->op == UDIV && isC(a->k[1]) && a->k[1]->val) { U p = a->k[1]->val; if (bitlenU(p) + bitlenU(v) <= 250) { U pv = p * v; if (bitlenU(pv) > w) return T1(); return mkUlt(a->k[0], mkConst(w, pv)); } }
      unsigned n = std::max(bitlenU((U)a->hi), bitlenU(v));
      if (n < w) { E x = mkExtract(a, n - 1, 0); if (!(x->op == EXTRACT && x->k[0] == a)) return mkUlt(x, mkConst(n, v)); }
    }
    if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
    return raw(ULT, 1, {a, b}, 0, 1);
  }
  if (isZExt(a) && isZExt(b)) { unsigned n = w - std::min(a->k[0]->w, b->k[0]->w); return mkUlt(mkExtract(a, n - 1, 0), mkExtract(b, n - 1, 0)); }
  if (fitsU(a) && fitsU(b) && (a->op == LIN || b->op == LIN) && (a->op != LIN || linExact(a)) && (b->op != LIN || linExact(b))) {
    // exact integers: decide through the difference when it is small
    unsigned w2 = w + 2; E d = mkSub(mkZExt(a, w2), mkZExt(b, w2));
    if (isC(d)) return mkConst(1, sgn(d->val, w2) < 0);
    if (d->lo >= -pow2I(w) && d->hi < pow2I(w)) { if (d->hi < 0) return T1(); if (d->lo >= 0) return F1(); }
    if (d->op == LIN && d->nk == 1 && fitsS(d) && linExact(d)) return mkSlt(d, mkConst(w2, 0));
  }
  return raw(ULT, 1, {a, b}, 0, 1);
}
static E mkSlt(E a, E b) {
  if (a == b) return F1();
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(1, sgn(a->val, w) < sgn(b->val, w));
  if (w == 1) return mkBit(AND, a, mkNot(b));
  bool an = a->lo >= 0 && a->hi < pow2I(w - 1), bn = b->lo >= 0 && b->hi < pow2I(w - 1);
  if (an && bn) return mkUlt(a, b);
  I al = -pow2I(w - 1), ah = pow2I(w - 1) - 1, bl = al, bh = ah;
  if (isC(b)) bl = bh = sgn(b->val, w); else if (fitsS(b)) { bl = b->lo; bh = b->hi; }
  if (isC(a)) al = ah = sgn(a->val, w); else if (fitsS(a)) { al = a->lo; ah = a->hi; }
  if (ah < bl) return T1();
  if (al >= bh) return F1();
  if (isC(a)) return mkNot(mkSlt(b, mkConst(w, toU(al + 1, w))));       // c < b <=> !(b < c+1)   (c != max since al<bh)
  if (isC(b)) {
    if (a->op == LIN && a->nk == 1 && fitsS(a)) {
      std::vector<std::pair<U, E>> t{{a->co[0], a->k[0]}}; I lo, hi, cs; bool ex = linRange(w, t, a->val, lo, hi, &cs);
      I k = sgn(a->co[0], w), d = bl - cs; E x = a->k[0];
      if (ex && lo == a->lo && hi == a->hi && (fitsU(x) || fitsS(x))) {
        bool xn = x->lo >= 0 && fitsU(x);
        if (k > 0) { I q = d >= 0 ? (d + k - 1) / k : -((-d) / k); /* ceil */ if (q <= x->lo) return F1(); if (q > x->hi) return T1(); return xn ? mkUlt(x, mkConst(w, toU(q, w))) : (fitsS(x) ? mkSlt(x, mkConst(w, toU(q, w))) : raw(SLT, 1, {a, b}, 0, 1)); }
        if (k < 0) { I n = -d, ak = -k; I f = n >= 0 ? n / ak : -((-n + ak - 1) / ak); I q = f + 1; if (q <= x->lo) return T1(); if (q > x->hi) return F1(); return mkNot(xn ? mkUlt(x, mkConst(w, toU(q, w))) : mkSlt(x, mkConst(w, toU(q, w)))); }
      }
    }
    if (bl == 0 && a->op == SEXT) return mkExtract(a->k[0], a->k[0]->w - 1, a->k[0]->w - 1);
    if (a->op == SEXT) { E s = a->k[0]; I m = pow2I(s->w - 1); if (bl <= -m) return F1(); if (bl >= m) return T1(); return mkSlt(s, mkConst(s->w, toU(bl, s->w))); }
    if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
    if (bl == 0 && !fitsS(a)) return mkExtract(a, w - 1, w - 1);
    return raw(SLT, 1, {a, b}, 0, 1);
  }
  if (fitsS(a) && fitsS(b) && (a->op == LIN || b->op == LIN)) {
    unsigned w2 = w + 2; E d = mkSub(mkSExt(a, w2), mkSExt(b, w2));
    if (isC(d)) return mkConst(1, sgn(d->val, w2) < 0);
    if (fitsS(d)) { if (d->hi < 0) return T1(); if (d->lo >= 0) return F1(); if (d->op != LIN || d->nk == 1) return mkSlt(d, mkConst(w2, 0)); }
  }
  return raw(SLT, 1, {a, b}, 0, 1);
}

static E rebuild(E e, const std::vector<E> &k) {
  switch (e->op) {
    case LIN: { std::vector<std::pair<U, E>> t; for (unsigned i = 0; i < e->nk; i++) t.push_back({e->co[i], k[i]}); return mkLin(e->w, t, e->val); }
    case MUL: return mkMul(k[0], k[1]);
    case UDIV: return mkUDiv(k[0], k[1]);
    case UREM: return mkURem(k[0], k[1]);
    case SDIV: return mkSDiv(k[0], k[1]);
    case SREM: return mkSRem(k[0], k[1]);
    case AND: case OR: case XOR: return mkBit(e->op, k[0], k[1]);
    case SHL: return mkShl(k[0], k[1]);
    case LSHR: return mkLShr(k[0], k[1]);
    case ASHR: return mkAShr(k[0], k[1]);
    case EQ: return mkEq(k[0], k[1]);
    case ULT: return mkUlt(k[0], k[1]);
    case SLT: return mkSlt(k[0], k[1]);
    case NOT: return mkNot(k[0]);
    case ITE: return mkIte(k[0], k[1], k[2]);
    case SEXT: return mkSExt(k[0], e->w);
    case CONCAT: return mkConcat(k);
    case EXTRACT: return mkExtract(k[0], e->aux + e->w - 1, e->aux);
    case TABLE: { auto v = X.tables[e->aux].v; return mkTable(e->w, v, k[0]); }
    case APX: case APXB: return mkApx(e->op, k[0], e->aux, e->w);
    default: return e;
  }
}

// evaluation under a model
typedef std::vector<U> Model;
static U evalE(E e, const Model &m) {
  if (e->op == CONST) return e->val;
  if (e->stamp == X.stamp) return e->ev;
  U r;
  if (e->op == VAR) r = (e->aux < m.size() ? m[e->aux] : toU(X.vars[e->aux].lo, e->w)) & maskU(e->w);
  else if (e->op == ITE) r = evalE(e->k[0], m) ? evalE(e->k[1], m) : evalE(e->k[2], m);
  else {
    U buf[8]; std::vector<U> big; U *a = buf; if (e->nk > 8) { big.resize(e->nk); a = big.data(); }
    for (unsigned i = 0; i < e->nk; i++) a[i] = evalE(e->k[i], m);
    r = evalOp(e, a);
  }
  e->stamp = X.stamp; e->ev = r;
  return r;
}
static U evalFresh(E e, const Model &m) { X.stamp++; return evalE(e, m); }

static std::string show(E e, int depth = 6) {
  if (e->op == CONST) return strU(e->val) + ":" + std::to_string(e->w);
  if (e->op == VAR) return X.vars[e->aux].name + "[" + strI(e->lo) + "," + strI(e->hi) + "]";
  if (depth == 0) return "..";
  std::string s = "("; s += opname[e->op]; if (e->op == EXTRACT) s += "[" + std::to_string(e->aux + e->w - 1) + ":" + std::to_string(e->aux) + "]";
  if (e->op == TABLE) s += std::to_string(e->aux);
  for (unsigned i = 0; i < e->nk; i++) { s += " "; if (e->co) s += strI(sgn(e->co[i], e->w)) + "*"; s += show(e->k[i], depth - 1); }
  if (e->op == LIN) s += " + " + strI(sgn(e->val, e->w));
  return s + ")";
}

// finite-domain simplification: a term over one variable with a small domain becomes a table over that variable
static bool tabVar(E e, E &v, int d) {
  if (e->op == VAR) { if (v && v != e) return false; v = e; return true; }
  if (!e->vars) return true;
  if (d > 40) return false;
  for (unsigned i = 0; i < e->nk; i++) if (!tabVar(e->k[i], v, d + 1)) return false;
  return true;
}
static E tabulate(E e) {
  VarMask m = e->vars; if ((m & (m - 1)) || (m >> 127)) return nullptr;
  if (e->op == LIN && e->nk == 1 && e->k[0]->op == VAR) return nullptr;
  if (e->op == CONCAT && e->nk == 2 && isC(e->k[0], 0) && e->k[1]->op == VAR) return nullptr;
  E v = nullptr; if (e->size > 400 || !tabVar(e, v, 0) || !v || v->lo < 0 || v->hi > 1023) return nullptr;
  X.inTab = true; X.ntab++;
  Model md(v->aux + 1, 0); std::vector<U> r((size_t)(uint64_t)v->hi + 1, 0);
  for (size_t x = (size_t)(uint64_t)v->lo; x < r.size(); x++) { md[v->aux] = (U)x; r[x] = evalFresh(e, md); }
  for (size_t x = 0; x < (size_t)(uint64_t)v->lo; x++) r[x] = r[(size_t)(uint64_t)v->lo];
  E t = mkTable(e->w, r, v);
  X.inTab = false;
  return t == e ? nullptr : t;
}
