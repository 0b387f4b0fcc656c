// sx: path-forking symbolic executor over LLVM IR (bit-precise, concrete addresses).
#include <set>
#include <memory>
#include <cmath>
#include <llvm/IR/IRBuilder.h>
#include "expr.h"
#include <cfenv>
#include "solver.h"
#include <signal.h>
#include <fcntl.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

typedef uint64_t u64; typedef int64_t s64;
static Solver *SV;
static Module *M; static const DataLayout *DL;

struct Cell { E e; unsigned idx; };               // byte idx of e; e==nullptr: uninitialised
struct Obj { u64 base, size; bool alive = true, ro = false, heap = false; std::string name; std::vector<Cell> b; };
typedef std::shared_ptr<Obj> ObjP;

struct Ins { unsigned op, sub, w; int dst; std::vector<int> a; const Instruction *I; std::vector<std::pair<int, s64>> gep; s64 off = 0; u64 sz = 0; Function *callee = nullptr; std::vector<int> tgt; std::vector<U> cv; int ext = -1; unsigned xlo = 0; };
struct Fn { Function *F; int nreg; std::vector<Ins> code; std::vector<int> bbStart; std::map<const BasicBlock *, int> bbi; std::vector<int> insBB; std::vector<E> pool; int nargs; unsigned long calls = 0; };
struct Frame { Fn *f; int pc, prev; std::vector<E> r; std::vector<u64> allocas; std::vector<std::pair<E,unsigned>> va; };

struct State {
  std::vector<Frame> st;
  std::map<u64, ObjP> mem;
  std::vector<E> cons;
  Model model;
  std::vector<E> subst; VarMask smask = 0;
  std::unordered_map<E, E> memo;
  std::vector<std::pair<std::string, E>> inputs, outs;
  u64 nextAddr, steps = 0; unsigned nvars; bool stale = false; unsigned forks = 0;
  State() {}
  State(const State &o) : st(o.st), mem(o.mem), cons(o.cons), model(o.model), subst(o.subst), smask(o.smask), inputs(o.inputs), outs(o.outs), nextAddr(o.nextAddr), steps(o.steps), nvars(o.nvars), stale(o.stale), forks(o.forks) {}
};

static std::vector<State *> work;
static std::map<u64, ObjP> globalsMem;
static std::map<const GlobalValue *, u64> gaddr;
static std::map<u64, Function *> faddr;
static std::map<Function *, Fn *> fns;
static std::vector<long> params;
struct Viol { std::string msg; std::vector<std::pair<std::string, U>> in; std::string where; };
static std::vector<Viol> viols; static std::map<std::string, unsigned> violCount;
static std::map<std::string, unsigned long> covers, asserts;
static std::vector<std::string> undecided;
static unsigned long npaths = 0, ninfeasible = 0, nsteps = 0, nforks = 0, nfolded = 0, nasserts = 0, nassumeKill = 0;
struct Wit { std::vector<std::pair<std::string, U>> in, out; };
static std::vector<Wit> wits; static unsigned maxWit = 12;
static u64 maxSteps = 3000000; static double deadline = 1e300; static unsigned long maxPaths = 100000000;
static unsigned maxViolPerMsg = 4;

struct PathEnd { };               // path finished (normally or killed)
[[noreturn]] static void toolError(const std::string &s);
static State *cur;
static std::string whereS(State &s) { std::string r; for (auto it = s.st.rbegin(); it != s.st.rend(); ++it) { if (!r.empty()) r += " < "; r += it->f->F->getName().str(); } return r; }
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; sprintf(b, "\\u%04x", c); r += b; } else r += c; } return r; }
static void report(const char *status, const std::string &err);
[[noreturn]] static void toolError(const std::string &s) { report("error", s + (cur ? "  at " + whereS(*cur) : "")); exit(3); }

// ------------------------------------------------------------- substitution, facts
static E applyS(State &s, E e) {
  if (!(e->vars & s.smask)) return e;
  if (e->op == VAR) { if (e->aux < s.subst.size() && s.subst[e->aux]) return s.subst[e->aux]; return e; }
  auto it = s.memo.find(e); if (it != s.memo.end()) return it->second;
  bool ch = false; std::vector<E> k(e->nk); for (unsigned i = 0; i < e->nk; i++) { k[i] = applyS(s, e->k[i]); if (k[i] != e->k[i]) ch = true; }
  E r = ch ? rebuild(e, k) : e; s.memo[e] = r; return r;
}
static bool changed;
static void setVar(State &s, E v, I lo, I hi) {
  E c = applyS(s, v); if (isC(c)) { return; }
  I l = std::max(lo, c->lo), h = std::min(hi, c->hi);
  if (l > h) { s.cons.push_back(F1()); return; }
  if (l == c->lo && h == c->hi) return;
  if (s.subst.size() <= v->aux) s.subst.resize(v->aux + 1, nullptr);
  s.subst[v->aux] = mkVarNode(v->aux, l, h); s.smask |= (VarMask)1 << (v->aux < 127 ? v->aux : 127); s.memo.clear(); changed = true;
}
static void fact(State &s, E c, int depth);
static void refine(State &s, E e, I lo, I hi, int d) {
  if (d > 12 || isC(e)) return;
  if (lo <= e->lo && hi >= e->hi) return;
  lo = std::max(lo, e->lo); hi = std::min(hi, e->hi); if (lo > hi) return;
  switch (e->op) {
    case VAR: setVar(s, e, lo, hi); break;
    case CONCAT: {
      if (lo < 0) return; unsigned rest = e->w - e->k[0]->w;
      std::vector<E> ks(e->k + 1, e->k + e->nk); E tail = mkConcat(ks);
      if (isC(e->k[0])) { I b = (I)e->k[0]->val << rest; if (fitsU(tail)) refine(s, tail, std::max((I)0, lo - b), std::min(pow2I(rest) - 1, hi - b), d + 1); return; }
      if (fitsU(e->k[0])) refine(s, e->k[0], lo >> rest, hi >> rest, d + 1);
      if ((lo >> rest) == (hi >> rest) && fitsU(tail)) refine(s, tail, lo - ((lo >> rest) << rest), hi - ((lo >> rest) << rest), d + 1);
      return; }
    case LIN: {
      if (!fitsU(e) && !fitsS(e)) return; if (!linTermsOk(e)) return;
      std::vector<std::pair<U, E>> t; for (unsigned i = 0; i < e->nk; i++) t.push_back({e->co[i], e->k[i]});
      I l, h, cs; linRange(e->w, t, e->val, l, h, &cs); if (l != e->lo || h != e->hi) return;
      // check that the range was really the exact integer sum
      I sl = cs, sh = cs; for (auto &p : t) { I k = sgn(p.first, e->w); if (k >= 0) { sl += k * p.second->lo; sh += k * p.second->hi; } else { sl += k * p.second->hi; sh += k * p.second->lo; } }
      if (sl != l || sh != h) return;
      for (auto &p : t) {
        I k = sgn(p.first, e->w); E x = p.second;
        I ml = k >= 0 ? k * x->lo : k * x->hi, mh = k >= 0 ? k * x->hi : k * x->lo;
        I tl = lo - (sh - mh), th = hi - (sl - ml);        // k*x in [tl,th]
        I a, b; auto fl = [](I n, I q) { return n >= 0 ? n / q : -((-n + q - 1) / q); }; auto ce = [&](I n, I q) { return -fl(-n, q); };
        if (k > 0) { a = ce(tl, k); b = fl(th, k); } else { a = ce(-th, -k); b = fl(-tl, -k); }
        if (a > x->lo || b < x->hi) refine(s, x, a, b, d + 1);
      }
      return; }
    case UDIV: if (isC(e->k[1]) && e->k[1]->val && fitsU(e->k[0])) { I K = (I)e->k[1]->val; refine(s, e->k[0], lo * K, hi * K + K - 1, d + 1); } return;
    case EXTRACT: if (e->aux + e->w == e->k[0]->w && fitsU(e->k[0]) && lo >= 0) refine(s, e->k[0], lo << e->aux, ((hi + 1) << e->aux) - 1, d + 1);
      else if (e->k[0]->hi < pow2I(e->aux + e->w) && fitsU(e->k[0]) && lo >= 0) refine(s, e->k[0], lo << e->aux, ((hi + 1) << e->aux) - 1, d + 1);
      return;
    case SEXT: if (fitsS(e->k[0])) refine(s, e->k[0], lo, hi, d + 1); return;
    case TABLE: { auto &v = X.tables[e->aux].v; if (!fitsU(e->k[0])) return; s64 a = -1, b = -1; for (size_t i = (size_t)(u64)e->k[0]->lo; i < v.size() && (I)i <= e->k[0]->hi; i++) if ((I)v[i] >= lo && (I)v[i] <= hi) { if (a < 0) a = i; b = i; } if (a >= 0) refine(s, e->k[0], a, b, d + 1); return; }
    case ITE: { E x = e->k[1], y = e->k[2]; bool xo = x->hi < lo || x->lo > hi, yo = y->hi < lo || y->lo > hi; 
      bool okx = (fitsU(e) && fitsU(x) && fitsU(y)) || (fitsS(e) && fitsS(x) && fitsS(y)); if (!okx) return;
      if (xo && !yo) { fact(s, mkNot(e->k[0]), d + 1); refine(s, y, lo, hi, d + 1); } else if (yo && !xo) { fact(s, e->k[0], d + 1); refine(s, x, lo, hi, d + 1); } return; }
    default: return;
  }
}
static void refU(State &s, E a, I lo, I hi, int d) {           // unsigned value of a in [lo,hi]
  if (isC(a)) return;
  if (fitsU(a)) refine(s, a, lo, hi, d);
  else if (fitsS(a) && hi < pow2I(a->w - 1)) refine(s, a, lo, hi, d);
}
static void refS(State &s, E a, I lo, I hi, int d) {
  if (isC(a)) return;
  if (fitsS(a)) refine(s, a, lo, hi, d);
  else if (fitsU(a) && lo >= 0) refine(s, a, lo, hi, d);
}
static void fact(State &s, E c, int d) {
  if (d > 12) return;
  bool neg = false; if (c->op == NOT) { neg = true; c = c->k[0]; }
  if (c->op == AND && c->w == 1 && !neg) { fact(s, c->k[0], d + 1); fact(s, c->k[1], d + 1); return; }
  if (c->op == OR && c->w == 1 && neg) { fact(s, mkNot(c->k[0]), d + 1); fact(s, mkNot(c->k[1]), d + 1); return; }
  if (c->w == 1 && c->op == VAR) { setVar(s, c, neg ? 0 : 1, neg ? 0 : 1); return; }
  if (c->w == 1 && c->op == EXTRACT) { refU(s, c, neg ? 0 : 1, neg ? 0 : 1, d); return; }
  if (c->w == 1 && c->op == TABLE) { refU(s, c, neg ? 0 : 1, neg ? 0 : 1, d); return; }
  if (c->op == EQ) {
    E a = c->k[0], b = c->k[1];
    if (!neg) {
      if (isC(b)) { if (fitsU(a)) refU(s, a, (I)b->val, (I)b->val, d); else refS(s, a, sgn(b->val, b->w), sgn(b->val, b->w), d); }
      else if (fitsU(a) && fitsU(b)) { refU(s, a, b->lo, b->hi, d); refU(s, b, a->lo, a->hi, d); }
    } else if (isC(b)) {
      I v = fitsU(a) ? (I)b->val : sgn(b->val, b->w);
      if (fitsU(a) || fitsS(a)) { if (a->lo == v) refine(s, a, v + 1, a->hi, d); else if (a->hi == v) refine(s, a, a->lo, v - 1, d); }
    }
    return;
  }
  if (c->op == ULT) {
    E a = c->k[0], b = c->k[1];
    if (!neg) {
      if (isC(b)) refU(s, a, 0, (I)b->val - 1, d);
      else if (fitsU(a) && fitsU(b)) { refU(s, a, 0, b->hi - 1, d); refU(s, b, a->lo + 1, b->hi, d); }
    } else {
      if (isC(b)) { if (fitsU(a)) refU(s, a, (I)b->val, pow2I(a->w) - 1, d); }
      else if (fitsU(a) && fitsU(b)) { refU(s, a, b->lo, a->hi, d); refU(s, b, 0, a->hi, d); }
    }
    return;
  }
  if (c->op == SLT) {
    E a = c->k[0], b = c->k[1]; I mn = -pow2I(a->w - 1), mx = pow2I(a->w - 1) - 1;
    if (isC(b)) { I v = sgn(b->val, b->w); if (!neg) refS(s, a, mn, v - 1, d); else refS(s, a, v, mx, d); }
    else if (fitsS(a) && fitsS(b)) { if (!neg) { refS(s, a, mn, b->hi - 1, d); refS(s, b, a->lo + 1, mx, d); } else { refS(s, a, b->lo, mx, d); refS(s, b, mn, a->hi, d); } }
    return;
  }
}
// a condition over one variable with a small domain: the hull of the values that satisfy it
struct Hull { bool ok = false, full = false, none = false; I lo = 0, hi = 0; E v = nullptr; };
static std::unordered_map<E, Hull> hullMemo;
static E onlyVar(E e) { for (;;) { if (e->op == VAR) return e; E n = nullptr; for (unsigned i = 0; i < e->nk; i++) if (e->k[i]->vars) { n = e->k[i]; break; } if (!n) return nullptr; e = n; } }
static Hull &hull(E c) {
  auto it = hullMemo.find(c); if (it != hullMemo.end()) return it->second;
  Hull &h = hullMemo[c];
  if (__builtin_popcountll((u64)c->vars) + __builtin_popcountll((u64)(c->vars >> 64)) != 1 || (c->vars >> 127)) return h;
  E v = onlyVar(c); if (!v || v->hi - v->lo > 2047) return h;
  h.ok = true; h.v = v; Model m(v->aux + 1, 0); I first = 1, last = 0; I cnt = 0;
  for (I x = v->lo; x <= v->hi; x++) { m[v->aux] = toU(x, v->w); X.stamp++; if (evalE(c, m)) { if (!cnt++) first = x; last = x; } }
  if (!cnt) { h.none = true; return h; }
  h.lo = first; h.hi = last; h.full = cnt == last - first + 1;
  return h;
}
static void addCons(State &s, E c) {      // c is simplified and true under s.model (unless stale)
  std::vector<E> add{c};
  while (!add.empty()) {
    E x = add.back(); add.pop_back();
    if (isC(x, 1)) continue;
    if (x->op == AND && x->w == 1) { add.push_back(x->k[0]); add.push_back(x->k[1]); continue; }
    if (x->op == NOT && x->k[0]->op == OR) { add.push_back(mkNot(x->k[0]->k[0])); add.push_back(mkNot(x->k[0]->k[1])); continue; }
    s.cons.push_back(x);
  }
  for (int it = 0; it < 30; it++) {
    changed = false; size_t n = s.cons.size();
    for (size_t i = 0; i < n; i++) {
      Hull &h = hull(s.cons[i]);
      if (h.ok && !h.none) { setVar(s, h.v, h.lo, h.hi); if (h.full) { s.cons[i] = T1(); changed = true; } }
      else fact(s, s.cons[i], 0);
    }
    if (!changed) break;
    std::vector<E> nc; std::unordered_set<E> seen;
    std::vector<E> todo(s.cons.rbegin(), s.cons.rend());
    while (!todo.empty()) {
      E x = todo.back(); todo.pop_back(); x = applyS(s, x);
      if (isC(x, 1)) continue;
      if (x->op == AND && x->w == 1) { todo.push_back(x->k[0]); todo.push_back(x->k[1]); continue; }
      if (x->op == NOT && x->k[0]->op == OR) { todo.push_back(mkNot(x->k[0]->k[0])); todo.push_back(mkNot(x->k[0]->k[1])); continue; }
      if (seen.insert(x).second) nc.push_back(x);
    }
    s.cons.swap(nc);
  }
}
static void checkModel(State &s) {
  if (s.stale) return;
  X.stamp++;
  for (E c : s.cons) if (!evalE(c, s.model)) toolError("internal: model does not satisfy constraint " + show(c, 10));
  for (unsigned i = 0; i < s.subst.size(); i++) if (s.subst[i]) { E v = s.subst[i]; U mv = i < s.model.size() ? s.model[i] : toU(X.vars[i].lo, X.vars[i].w); I x = (I)mv; if (v->lo < 0) x = sgn(mv, v->w); if (isC(v) ? v->val != mv : (x < v->lo || x > v->hi)) toolError("internal: model outside refined range of " + X.vars[i].name); }
}
static void vidRec(E e, std::unordered_set<E> &seen, std::set<unsigned> &ids) { if (!seen.insert(e).second) return; if (e->op == VAR) ids.insert(e->aux); for (unsigned i = 0; i < e->nk; i++) vidRec(e->k[i], seen, ids); }
// constraints connected to e
static std::vector<E> slice(State &s, E e) {
  VarMask m = e->vars; std::vector<E> out; std::vector<bool> in(s.cons.size(), false); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.cons.size(); i++) if (!in[i] && (s.cons[i]->vars & m)) { in[i] = true; m |= s.cons[i]->vars; out.push_back(s.cons[i]); ch = true; } }
  return out;
}
static Solver::R query(State &s, E c, Model &m2, bool hard) {
  std::vector<E> q = s.stale ? s.cons : slice(s, c); q.push_back(c);
  std::vector<std::pair<unsigned, U>> mm; Solver::R r = SV->check(q, mm, hard);
  if (r == Solver::SAT) { m2 = s.model; for (auto &p : mm) { if (m2.size() <= p.first) m2.resize(p.first + 1, 0); m2[p.first] = p.second; } }
  return r;
}
static U evalM(State &s, E e) { return evalFresh(e, s.model); }
static void fixStale(State &s) {
  if (!s.stale) return;
  Model m; Solver::R r = query(s, T1(), m, true);
  if (r == Solver::SAT) { s.model = m; s.stale = false; }
  else if (r == Solver::UNSAT) { ninfeasible++; throw PathEnd(); }
  else { undecided.push_back("path feasibility at " + whereS(s)); throw PathEnd(); }
}
static bool known(State &s, E c, bool &v) {
  if (isC(c)) { v = c->val != 0; return true; }
  E n = mkNot(c);
  for (E x : s.cons) { if (x == c) { v = true; return true; } if (x == n) { v = false; return true; } }
  return false;
}
static bool decide(State &s, E c) {
  c = applyS(s, c); bool v;
  if (known(s, c, v)) return v;
  fixStale(s);
  bool b = evalM(s, c) != 0;
  E mine = b ? c : mkNot(c), other = b ? mkNot(c) : c;
  Model m2; Solver::R r = query(s, other, m2, false);
  if (r == Solver::UNK) r = query(s, other, m2, true);
  if (r != Solver::UNSAT) {
    State *o = new State(s); nforks++; o->forks++; s.forks++;
    if (r == Solver::SAT) o->model = m2; else o->stale = true;
    addCons(*o, other); checkModel(*o);
    work.push_back(o);
    addCons(s, mine);
  } else {
    // implied: use it for range refinement only
    addCons(s, mine);
  }
  checkModel(s);
  return b;
}
static U concretize(State &s, E e) {
  E prev = nullptr;
  for (;;) {
    e = applyS(s, e); if (isC(e)) return e->val;
    fixStale(s);
    bool stuck = e == prev; prev = e;
    if (!stuck && (e->op == VAR || (e->op == LIN && e->nk == 1)) && fitsU(e) && e->hi - e->lo > 1) { I mid = (e->lo + e->hi) / 2; decide(s, mkUlt(e, mkConst(e->w, toU(mid + 1, e->w)))); continue; }
    U v = evalM(s, e);
    if (getenv("SX_DBGC")) fprintf(stderr, "concretize %s [%s,%s] at %s %d\n", show(e, 5).c_str(), strI(e->lo).c_str(), strI(e->hi).c_str(), whereS(s).c_str(), s.st.back().pc);
    if (decide(s, mkEq(e, mkConst(e->w, v)))) return v;
  }
}
// products of two symbolic values may be abstracted by a fresh variable; the definition is only used to confirm a violation
static bool opaqueMul = false; static std::map<std::pair<E, E>, E> prodVar; static std::vector<std::pair<E, E>> prodDefs;
static E unrefine(E e, std::unordered_map<E, E> &memo) {
  if (e->op == CONST) return e;
  if (e->op == VAR) return mkVarNode(e->aux, X.vars[e->aux].lo, X.vars[e->aux].hi);
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  std::vector<E> k; bool ch = false; for (unsigned i = 0; i < e->nk; i++) { k.push_back(unrefine(e->k[i], memo)); if (k[i] != e->k[i]) ch = true; }
  E r = ch ? rebuild(e, k) : e; memo[e] = r; return r;
}
static E mulOp(E a, E b) {
  if (!opaqueMul || isC(a) || isC(b) || !fitsU(a) || !fitsU(b)) return mkMul(a, b);
  for (int side = 0; side < 2; side++) {                 // distribute over concatenations and sums
    E p = side ? b : a, q = side ? a : b; unsigned w = a->w, nz = 0;
    if (p->op == CONCAT) { for (unsigned i = 0; i < p->nk; i++) nz += !isC(p->k[i]); }
    if (p->op == CONCAT && (nz > 1 || (nz == 1 && isC(p->k[p->nk - 1])))) {
      std::vector<std::pair<U, E>> t; unsigned sh = 0; U c = 0;
      for (unsigned i = p->nk; i-- > 0;) { if (isC(p->k[i])) c |= p->k[i]->val << sh; else t.push_back({(U)1 << sh, mulOp(mkZExt(p->k[i], w), q)}); sh += p->k[i]->w; }
      if (c) t.push_back({c, q});
      return mkLin(w, t, 0);
    }
    if (p->op == LIN && linExact(p)) { std::vector<std::pair<U, E>> t; for (unsigned i = 0; i < p->nk; i++) t.push_back({p->co[i], mulOp(p->k[i], q)}); t.push_back({p->val, q}); return mkLin(w, t, 0); }
  }
  std::unordered_map<E, E> memo; E x = core(unrefine(a, memo)), y = core(unrefine(b, memo));
  if (!fitsU(x) || !fitsU(y) || bitlenU((U)x->hi) + bitlenU((U)y->hi) <= 12) return mkMul(a, b);
  if (x->id > y->id) std::swap(x, y);
  E &p = prodVar[{x, y}];
  if (!p) { unsigned W = bitlenU((U)(x->hi * y->hi)); p = newVar(W, x->lo * y->lo, x->hi * y->hi, "prod" + std::to_string(prodDefs.size()), false); prodDefs.push_back({p, mkMul(mkZExt(x, std::max(W, x->w)), mkZExt(y, std::max(W, x->w)))}); auto &d = prodDefs.back(); unsigned WW = std::max(W, std::max(x->w, y->w)); d.second = mkEq(mkZExt(p, WW), mkMul(mkZExt(x, WW), mkZExt(y, WW))); }
  return p->w > a->w ? mkExtract(p, a->w - 1, 0) : mkZExt(p, a->w);
}
static bool defsHold(const Model &m) { X.stamp++; for (auto &d : prodDefs) if (!evalE(d.second, m)) return false; return true; }
// make m satisfy the product definitions too; false: the violation is spurious
static bool realise(State &s, E extra, Model &m, const std::string &msg) {
  if (prodDefs.empty() || defsHold(m)) return true;
  std::vector<E> q = s.cons; q.push_back(extra); for (auto &d : prodDefs) q.push_back(applyS(s, d.second));
  std::vector<std::pair<unsigned, U>> mm; Solver::R r = SV->check(q, mm, true);
  if (r == Solver::UNSAT) return false;
  if (r == Solver::UNK) { undecided.push_back("product abstraction: " + msg + " at " + whereS(s)); return false; }
  m = s.model; for (auto &p : mm) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; }
  return true;
}
static void record(State &s, const std::string &msg, const Model &m) {
  if (violCount[msg]++ < maxViolPerMsg) {
    Viol v; v.msg = msg; v.where = whereS(s); for (auto &p : s.inputs) v.in.push_back({p.first, evalFresh(p.second, m)}); viols.push_back(v);
  }
}
[[noreturn]] static void violation(State &s, const std::string &msg) { fixStale(s); Model m = s.model; if (realise(s, T1(), m, msg)) record(s, msg, m); throw PathEnd(); }
static void doAssert(State &s, E c, const std::string &msg) {
  asserts[msg]++; nasserts++;
  c = applyS(s, c); bool v;
  if (known(s, c, v)) { if (v) { nfolded++; return; } violation(s, msg); }
  Model m2; Solver::R r = query(s, mkNot(c), m2, true);
  if (r == Solver::UNSAT) { return; }
  if (r == Solver::UNK) { undecided.push_back(msg + " at " + whereS(s)); if (getenv("SX_DBG")) { fprintf(stderr, "UNDEC %s\n   %s\n", msg.c_str(), show(c, 30).c_str()); for (E x : s.cons) fprintf(stderr, "     pc %s\n", show(x, 30).c_str()); } return; }
  if (realise(s, mkNot(c), m2, msg)) record(s, msg, m2);
  // continue where it holds, if anywhere
  Model m3; r = query(s, c, m3, true);
  if (r == Solver::UNSAT) throw PathEnd();
  if (r == Solver::SAT) { if (!evalM(s, c) || s.stale) { s.model = m3; s.stale = false; } } else s.stale = true;
  addCons(s, c); checkModel(s);
}
static void doAssume(State &s, E c) {
  c = applyS(s, c); bool v;
  if (known(s, c, v)) { if (v) return; nassumeKill++; throw PathEnd(); }
  fixStale(s);
  if (!evalM(s, c)) {
    Model m2; Solver::R r = query(s, c, m2, true);
    if (r == Solver::UNSAT) { nassumeKill++; throw PathEnd(); }
    if (r == Solver::SAT) s.model = m2; else s.stale = true;
  }
  addCons(s, c); checkModel(s);
}

// ------------------------------------------------------------- memory
static ObjP findObj(State &s, u64 a) {
  auto it = s.mem.upper_bound(a);
  if (it != s.mem.begin()) { --it; if (a >= it->first && a < it->first + std::max<u64>(it->second->size, 1)) return it->second; }
  auto g = globalsMem.upper_bound(a);
  if (g != globalsMem.begin()) { --g; if (a >= g->first && a < g->first + std::max<u64>(g->second->size, 1)) return g->second; }
  return nullptr;
}
static ObjP checkAcc(State &s, u64 a, u64 n, const char *what) {
  ObjP o = findObj(s, a);
  if (!o || !o->alive || a + n > o->base + o->size) {
    char b[128]; snprintf(b, sizeof b, "memory safety: %s of %lu bytes at offset %ld of %s", what, n, o ? (long)(a - o->base) : (long)a, o ? (o->name.empty() ? "object" : o->name.c_str()) : "no object");
    violation(s, b);
  }
  return o;
}
static u64 allocObj(State &s, u64 size, const std::string &name, bool heap) {
  ObjP o = std::make_shared<Obj>(); o->base = s.nextAddr; o->size = size; o->heap = heap; o->name = name; o->b.assign(size, Cell{nullptr, 0});
  s.nextAddr += (size + 64 + 63) & ~63ULL; s.mem[o->base] = o; return o->base;
}
static Obj *writable(State &s, const ObjP &o) {
  if (o->ro) violation(s, "memory safety: write to read-only object " + o->name);
  auto it = s.mem.find(o->base);
  if (it == s.mem.end()) { ObjP n = std::make_shared<Obj>(*o); s.mem[o->base] = n; return n.get(); }
  if (it->second.use_count() > 2) { ObjP n = std::make_shared<Obj>(*it->second); it->second = n; return n.get(); }
  return it->second.get();
}
static E freshUninit(State &s, unsigned w) { E v = newVar(w, 0, pow2I(w) - 1, "uninit" + std::to_string(X.vars.size()), false); return v; }
static E cellByte(State &s, Obj *o, u64 off) {
  Cell &c = o->b[off];
  if (!c.e) { E v = freshUninit(s, 8); c.e = v; c.idx = 0; }
  return mkExtract(c.e, c.idx * 8 + 7, c.idx * 8);
}
static E readMem(State &s, const ObjP &o, u64 off, u64 n) {
  Cell &c0 = o->b[off];
  if (c0.e && c0.idx == 0 && c0.e->w == 8 * n) { bool ok = true; for (u64 i = 1; i < n; i++) if (o->b[off + i].e != c0.e || o->b[off + i].idx != i) { ok = false; break; } if (ok) return c0.e; }
  bool un = false; for (u64 i = 0; i < n; i++) if (!o->b[off + i].e) un = true;
  Obj *p = o.get(); if (un) { bool r = o->ro; (void)r; p = writable(s, o); }
  std::vector<E> ks; for (u64 i = n; i-- > 0;) ks.push_back(cellByte(s, p, off + i));
  return mkConcat(ks);
}
static void writeMem(State &s, Obj *o, u64 off, E v) {
  u64 n = (v->w + 7) / 8; if (v->w % 8) v = mkZExt(v, n * 8);
  for (u64 i = 0; i < n; i++) { o->b[off + i].e = v; o->b[off + i].idx = i; }
}
// symbolic load: table or ITE chain, or concretise
static E loadSym(State &s, E addr, u64 n, unsigned w) {
  fixStale(s);
  u64 a = (u64)evalM(s, addr); ObjP o = findObj(s, a);
  if (!o || !o->alive) { checkAcc(s, (u64)concretize(s, addr), n, "read"); }
  E off = mkSub(addr, mkConst(64, o->base));
  // in bounds for every value?
  u64 lim = o->size >= n ? o->size - n + 1 : 0;
  if (!decide(s, mkUlt(off, mkConst(64, lim)))) { u64 v = (u64)concretize(s, addr); ObjP oo = checkAcc(s, v, n, "read"); return readMem(s, oo, v - oo->base, n); }
  off = applyS(s, off);
  if (isC(off)) return readMem(s, o, (u64)off->val, n);
  if (off->op == TABLE && X.tables[off->aux].v.size() >= 150) {     // table of offsets: map through memory
    auto tv = X.tables[off->aux].v; bool ok = true; std::vector<U> r(tv.size(), 0); E ix = off->k[0];
    std::vector<bool> have(tv.size(), false); U any = 0;
    for (size_t i = 0; i < tv.size() && ok; i++) {
      if (fitsU(ix) && ((I)i < ix->lo || (I)i > ix->hi)) continue;
      u64 p = (u64)tv[i]; if (tv[i] >= (U)lim) continue;      // excluded by the bounds decision above
      for (u64 j = 0; j < n; j++) if (!o->b[p + j].e || !isC(o->b[p + j].e)) ok = false;
      if (ok) { r[i] = readMem(s, o, p, n)->val; have[i] = true; any = r[i]; }
    }
    if (ok) { for (size_t i = 0; i < r.size(); i++) if (!have[i]) r[i] = any; return mkTable(n * 8, r, ix); }
  }
  I cs = 0; U g = 0; I lo = off->lo, hi = off->hi; if (!fitsU(off)) { lo = 0; hi = lim - 1; }
  if (hi > (I)(lim - 1)) hi = lim - 1;
  if (off->op == LIN) { cs = (I)off->val; for (unsigned i = 0; i < off->nk; i++) { I k = sgn(off->co[i], 64); g = gcdU(g, (U)(k < 0 ? -k : k)); } }
  else if (off->op == CONCAT && isC(off->k[off->nk - 1])) { g = (U)1 << off->k[off->nk - 1]->w; cs = (I)off->k[off->nk - 1]->val; }
  else g = 1;
  cs = (I)((U)cs % g);
  u64 G = (u64)g, c0 = (u64)cs;
  u64 first = lo > (I)c0 ? (u64)((lo - (I)c0 + (I)G - 1) / (I)G) : 0, last = (u64)((hi - (I)c0) / (I)G);
  u64 cnt = last - first + 1;
  bool conc = cnt <= 5000;
  std::vector<U> tv;
  if (conc) { tv.assign(last + 1, 0); for (u64 i = first; i <= last && conc; i++) { u64 p = c0 + i * G; if (p + n > o->size) { tv.resize(i); break; } E v = nullptr; bool un = false; for (u64 j = 0; j < n; j++) if (!o->b[p + j].e || !isC(o->b[p + j].e)) un = true; if (un) { conc = false; break; } v = readMem(s, o, p, n); tv[i] = v->val; } for (u64 i = 0; i < first; i++) tv[i] = tv[first]; }
  if (conc && cnt > 2 && (o->size / G >= 200 || off->size > 60)) { E idx = mkUDiv(mkSub(off, mkConst(64, c0)), mkConst(64, G)); return mkTable(n * 8, tv, idx); }
  u64 v = (u64)concretize(s, addr); ObjP oo = checkAcc(s, v, n, "read"); return readMem(s, oo, v - oo->base, n);
}

// ------------------------------------------------------------- program loading
static u64 nextGlob = 0x10000000ULL;
static unsigned bitW(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80;
  if (auto *st = dyn_cast<StructType>(t)) { unsigned w = 0; for (auto *e : st->elements()) w += bitW(e); return w; }
  if (auto *at = dyn_cast<ArrayType>(t)) return bitW(at->getElementType()) * at->getNumElements();
  if (t->isVoidTy()) return 0;
  std::string s; raw_string_ostream os(s); t->print(os); toolError("unsupported type " + os.str());
}
static unsigned elemLo(Type *t, unsigned i) {
  unsigned lo = 0; if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) lo += bitW(st->getElementType(j)); return lo; }
  return bitW(cast<ArrayType>(t)->getElementType()) * i;
}
static Type *elemTy(Type *t, unsigned i) { if (auto *st = dyn_cast<StructType>(t)) return st->getElementType(i); return cast<ArrayType>(t)->getElementType(); }
static u64 globalAddr(const GlobalValue *g);
static U apU(const APInt &a) { U v = 0; for (unsigned i = 0; i < a.getNumWords() && i < 4; i++) v |= (U)a.getRawData()[i] << (64 * i); return v; }
static E constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return mkConst(ci->getBitWidth(), apU(ci->getValue()));
  if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); return mkConst(a.getBitWidth(), apU(a)); }
  if (isa<ConstantPointerNull>(c)) return mkConst(64, 0);
  if (isa<UndefValue>(c)) return mkConst(bitW(c->getType()), 0);
  if (isa<ConstantAggregateZero>(c)) return mkConst(bitW(c->getType()), 0);
  if (auto *g = dyn_cast<GlobalValue>(c)) return mkConst(64, globalAddr(g));
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { std::vector<E> ks; for (unsigned i = ca->getNumOperands(); i-- > 0;) ks.push_back(constVal(ca->getOperand(i))); return mkConcat(ks); }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<E> ks; for (unsigned i = cd->getNumElements(); i-- > 0;) ks.push_back(constVal(cd->getElementAsConstant(i))); return mkConcat(ks); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) toolError("gep const"); return mkAdd(constVal(ce->getOperand(0)), mkConst(64, apU(off))); }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { E e = constVal(ce->getOperand(0)); unsigned w = bitW(ce->getType()); return w <= e->w ? mkExtract(e, w - 1, 0) : mkZExt(e, w); }
      case Instruction::Add: return mkAdd(constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
      case Instruction::Sub: return mkSub(constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
      case Instruction::Trunc: return mkExtract(constVal(ce->getOperand(0)), bitW(ce->getType()) - 1, 0);
      case Instruction::ICmp: { E a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b)); case CmpInst::ICMP_ULT: return mkUlt(a, b); default: break; } break; }
      default: break;
    }
  }
  if (auto *al = dyn_cast<GlobalAlias>(c)) return constVal(al->getAliasee());
  std::string s; raw_string_ostream os(s); c->print(os); toolError("unsupported constant " + os.str());
}
static void initCells(Obj &o, u64 off, const Constant *c) {
  Type *t = c->getType();
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(st);
    if (isa<UndefValue>(c)) return;
    for (unsigned i = 0; i < st->getNumElements(); i++) initCells(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    if (isa<ConstantAggregateZero>(c)) { E z = mkConst(8, 0); for (u64 i = 0; i < DL->getTypeAllocSize(t); i++) o.b[off + i] = Cell{z, 0}; return; }
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) initCells(o, off + i * es, c->getAggregateElement(i));
    return;
  }
  E v = constVal(c); u64 n = (v->w + 7) / 8; v = mkZExt(v, n * 8);
  for (u64 i = 0; i < n; i++) o.b[off + i] = Cell{v, (unsigned)i};
}
static std::vector<const GlobalVariable *> pendingInit;
static u64 globalAddr(const GlobalValue *g) {
  if (auto *al = dyn_cast<GlobalAlias>(g)) { E e = constVal(al->getAliasee()); return (u64)e->val; }
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  u64 a = nextGlob; gaddr[g] = a;
  if (isa<Function>(g)) { nextGlob += 64; faddr[a] = (Function *)cast<Function>(g); return a; }
  auto *gv = cast<GlobalVariable>(g); u64 sz = DL->getTypeAllocSize(gv->getValueType()); nextGlob += (sz + 64 + 63) & ~63ULL;
  ObjP o = std::make_shared<Obj>(); o->base = a; o->size = sz; o->name = gv->getName().str(); o->ro = gv->isConstant(); o->b.assign(sz, Cell{nullptr, 0});
  globalsMem[a] = o;
  if (gv->hasInitializer()) { Cell z{mkConst(8, 0), 0}; for (auto &c : o->b) c = z; initCells(*o, 0, gv->getInitializer()); }
  else { toolError("external data object " + gv->getName().str()); }
  return a;
}
static std::string extName(const std::string &n) { return n; }
static Fn *getFn(Function *F) {
  auto it = fns.find(F); if (it != fns.end()) return it->second;
  Fn *f = new Fn; fns[F] = f; f->F = F; f->nreg = 0;
  std::map<const Value *, int> reg; std::map<E, int> pool;
  for (auto &a : F->args()) reg[&a] = f->nreg++;
  f->nargs = f->nreg;
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) reg[&I] = f->nreg++;
  auto opnd = [&](const Value *v) -> int {
    if (auto *c = dyn_cast<Constant>(v)) { E e = constVal(c); auto p = pool.find(e); if (p != pool.end()) return p->second; f->pool.push_back(e); int id = -(int)f->pool.size(); pool[e] = id; return id; }
    auto r = reg.find(v); if (r == reg.end()) { std::string s; raw_string_ostream os(s); v->print(os); toolError("operand " + os.str()); } return r->second;
  };
  int n = 0; for (auto &B : *F) { f->bbi[&B] = n++; }
  for (auto &B : *F) {
    f->bbStart.push_back(f->code.size());
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Ins in; in.I = &I; in.op = I.getOpcode(); in.sub = 0; in.dst = I.getType()->isVoidTy() ? -1 : reg[&I]; in.w = I.getType()->isVoidTy() ? 0 : bitW(I.getType());
      if (auto *c = dyn_cast<CmpInst>(&I)) in.sub = c->getPredicate();
      if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        in.a.push_back(opnd(g->getPointerOperand()));
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          Value *ix = gi.getOperand();
          if (auto *st = gi.getStructTypeOrNull()) in.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { s64 es = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) in.off += es * ci->getSExtValue(); else in.gep.push_back({opnd(ix), es}); }
        }
      } else if (auto *c = dyn_cast<CallBase>(&I)) {
        for (auto &a : c->args()) { if (a->getType()->isMetadataTy()) in.a.push_back(opnd(ConstantInt::get(Type::getInt8Ty(M->getContext()), 0))); else in.a.push_back(opnd(a)); }
        const Value *cv = c->getCalledOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
        if (isa<InlineAsm>(cv)) toolError("inline asm in " + F->getName().str());
        in.callee = (Function *)dyn_cast<Function>(cv);
        if (!in.callee) in.a.push_back(opnd(c->getCalledOperand()));
      } else if (auto *b = dyn_cast<BranchInst>(&I)) {
        if (b->isConditional()) in.a.push_back(opnd(b->getCondition()));
        for (unsigned i = 0; i < b->getNumSuccessors(); i++) in.tgt.push_back(f->bbi[b->getSuccessor(i)]);
      } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        in.a.push_back(opnd(sw->getCondition())); in.tgt.push_back(f->bbi[sw->getDefaultDest()]);
        for (auto &cs : sw->cases()) { in.cv.push_back(apU(cs.getCaseValue()->getValue())); in.tgt.push_back(f->bbi[cs.getCaseSuccessor()]); }
      } else if (auto *p = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { in.a.push_back(opnd(p->getIncomingValue(i))); in.tgt.push_back(f->bbi[p->getIncomingBlock(i)]); }
      } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
        in.a.push_back(opnd(ev->getAggregateOperand())); Type *t = ev->getAggregateOperand()->getType(); for (unsigned ix : ev->indices()) { in.xlo += elemLo(t, ix); t = elemTy(t, ix); }
      } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
        in.a.push_back(opnd(iv->getAggregateOperand())); in.a.push_back(opnd(iv->getInsertedValueOperand())); Type *t = iv->getType(); for (unsigned ix : iv->indices()) { in.xlo += elemLo(t, ix); t = elemTy(t, ix); }
      } else if (auto *al = dyn_cast<AllocaInst>(&I)) { in.a.push_back(opnd(al->getArraySize())); in.sz = DL->getTypeAllocSize(al->getAllocatedType()); }
      else {
        for (auto &o : I.operands()) in.a.push_back(opnd(o));
        if (auto *ld = dyn_cast<LoadInst>(&I)) { in.sz = DL->getTypeStoreSize(ld->getType()); }
        if (auto *sd = dyn_cast<StoreInst>(&I)) { in.sz = DL->getTypeStoreSize(sd->getValueOperand()->getType()); if (sd->getValueOperand()->getType()->isAggregateType() && bitW(sd->getValueOperand()->getType()) != in.sz * 8) toolError("padded aggregate store"); }
      }
      f->code.push_back(in); f->insBB.push_back(f->bbi[&B]);
    }
  }
  return f;
}

// ------------------------------------------------------------- floating point
static double asD(U v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(U v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static U ofD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static U ofF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
// integer -> float, round to nearest even, by case split on the bit length
/* the host's inexact flag: the model keeps it in the_fe (h/rt.c) */
static void hwInexact(State &s, E c) {
  if (isC(c, 0)) return;
  GlobalVariable *g = M->getGlobalVariable("the_fe", true); if (!g) return;
  u64 a = globalAddr(g); ObjP o = checkAcc(s, a, 4, "read"); E v = readMem(s, o, a - o->base, 4); if (v->w > 32) v = mkExtract(v, 31, 0);
  v = mkBit(OR, v, mkConcat({mkConst(26, 0), c, mkConst(5, 0)})); o = checkAcc(s, a, 4, "write"); writeMem(s, writable(s, o), a - o->base, v);
}
static E intToFp(State &s, E x, bool sg, unsigned fw) {
  unsigned mb = fw == 64 ? 52 : 23, bias = fw == 64 ? 1023 : 127; unsigned w = x->w;
  E sign = mkConst(1, 0);
  if (sg) { if (decide(s, mkSlt(x, mkConst(w, 0)))) { sign = mkConst(1, 1); x = mkNeg(applyS(s, x)); } x = applyS(s, x); }
  if (decide(s, mkEq(x, mkConst(w, 0)))) return mkConst(fw, 0);
  x = applyS(s, x);
  U v = evalM(s, x); unsigned n = bitlenU(v);
  if (n < w && !decide(s, mkUlt(x, mkConst(w, (U)1 << n)))) return nullptr;
  x = applyS(s, x);
  if (decide(s, mkUlt(x, mkConst(w, (U)1 << (n - 1))))) return nullptr;
  x = applyS(s, x);
  if (n <= mb + 1) {
    E f = mkExtract(mkSub(x, mkConst(w, (U)1 << (n - 1))), n - 1 ? n - 2 : 0, 0);
    if (n == 1) return mkConcat({sign, mkConst(fw - 1, (U)bias << mb)});
    std::vector<E> k{sign, mkConst(fw - 1 - mb, bias + n - 1), f}; if (mb > n - 1) k.push_back(mkConst(mb - (n - 1), 0)); return mkConcat(k);
  }
  unsigned sh = n - mb - 1;                       // q = x >> sh, round to nearest even
  E q = mkUDiv(x, mkConst(w, (U)1 << sh)), r = mkURem(x, mkConst(w, (U)1 << sh));
  hwInexact(s, mkNot(mkEq(r, mkConst(w, 0))));
  U half = (U)1 << (sh - 1);
  E up = mkBit(OR, mkUlt(mkConst(w, half), r), mkBit(AND, mkEq(r, mkConst(w, half)), mkExtract(q, 0, 0)));
  E bits = mkAdd(mkConst(fw, ((U)(bias + n - 1) << mb)), mkZExt(mkExtract(mkSub(q, mkConst(w, (U)1 << mb)), mb - 1, 0), fw));
  bits = mkAdd(bits, mkZExt(up, fw));
  return isC(sign, 1) ? mkConcat({sign, mkExtract(bits, fw - 2, 0)}) : bits;
}
static E fpToInt(State &s, E x, unsigned w, bool sg) {
  unsigned fw = x->w, mb = fw == 64 ? 52 : 23; int bias = fw == 64 ? 1023 : 127;
  int e = (int)concretize(s, mkExtract(x, fw - 2, mb)) - bias; x = applyS(s, x);
  U sign = concretize(s, mkExtract(x, fw - 1, fw - 1)); x = applyS(s, x);
  E r;
  if (e < 0) r = mkConst(w, 0);
  else {
    E m = mkConcat({mkConst(1, 1), mkExtract(x, mb - 1, 0)}); unsigned W = std::max<unsigned>(w, 128); m = mkZExt(m, W);
    if (e > 100) toolError("fp to int out of range");
    m = (unsigned)e >= mb ? mkShl(m, mkConst(W, e - mb)) : mkLShr(m, mkConst(W, mb - e));
    r = mkExtract(m, w - 1, 0);
  }
  return sign ? mkNeg(r) : r;
}

// ------------------------------------------------------------- execution
static E fetch(State &s, Frame &f, int o) { if (o < 0) return f.f->pool[-o - 1]; E e = f.r[o]; if (!e) toolError("unset register"); if (e->vars & s.smask) { E n = applyS(s, e); f.r[o] = n; return n; } return e; }
static void pushFrame(State &s, Function *F, const std::vector<E> &args, const std::vector<std::pair<E,unsigned>> &va) {
  Fn *f = getFn(F); f->calls++;
  if (s.st.size() > 200) violation(s, "recursion deeper than 200 frames");
  Frame fr; fr.f = f; fr.pc = 0; fr.prev = -1; fr.r.assign(f->nreg, nullptr); for (size_t i = 0; i < args.size(); i++) fr.r[i] = args[i]; fr.va = va;
  s.st.push_back(std::move(fr));
}
static std::string cstr(State &s, E p) { u64 a = (u64)concretize(s, p); std::string r; for (int i = 0; i < 4096; i++) { ObjP o = checkAcc(s, a + i, 1, "read"); E e = applyS(s, readMem(s, o, a + i - o->base, 1)); if (!isC(e)) toolError("symbolic string name"); if (!e->val) break; r += (char)(int)e->val; } return r; }
static void jump(State &s, Frame &f, int bb) { int from = f.f->insBB[f.pc]; f.prev = from; f.pc = f.f->bbStart[bb];
  // phis in parallel
  std::vector<std::pair<int, E>> vals;
  while (f.f->code[f.pc].op == Instruction::PHI) { Ins &in = f.f->code[f.pc]; bool ok = false; for (size_t i = 0; i < in.tgt.size(); i++) if (in.tgt[i] == from) { vals.push_back({in.dst, fetch(s, f, in.a[i])}); ok = true; break; } if (!ok) toolError("phi"); f.pc++; }
  for (auto &v : vals) f.r[v.first] = v.second;
}
static void copyMem(State &s, u64 d, u64 sr, u64 n) {
  if (!n) return;
  ObjP so = checkAcc(s, sr, n, "read"); ObjP po = checkAcc(s, d, n, "write");
  std::vector<Cell> tmp(so->b.begin() + (sr - so->base), so->b.begin() + (sr - so->base) + n);
  so.reset(); 
  Obj *w = writable(s, po); for (u64 i = 0; i < n; i++) w->b[d - w->base + i] = tmp[i];
}
static E arith(unsigned op, E a, E b) {
  switch (op) {
    case Instruction::Add: return mkAdd(a, b); case Instruction::Sub: return mkSub(a, b); case Instruction::Mul: return mulOp(a, b);
    case Instruction::UDiv: return mkUDiv(a, b); case Instruction::URem: return mkURem(a, b); case Instruction::SDiv: return mkSDiv(a, b); case Instruction::SRem: return mkSRem(a, b);
    case Instruction::And: return mkBit(AND, a, b); case Instruction::Or: return mkBit(OR, a, b); case Instruction::Xor: return mkBit(XOR, a, b);
    case Instruction::Shl: return mkShl(a, b); case Instruction::LShr: return mkLShr(a, b); case Instruction::AShr: return mkAShr(a, b);
  }
  abort();
}
static E icmp(unsigned p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_UGE: return mkNot(mkUlt(a, b)); case CmpInst::ICMP_UGT: return mkUlt(b, a); case CmpInst::ICMP_ULE: return mkNot(mkUlt(b, a));
    case CmpInst::ICMP_SLT: return mkSlt(a, b); case CmpInst::ICMP_SGE: return mkNot(mkSlt(a, b)); case CmpInst::ICMP_SGT: return mkSlt(b, a); case CmpInst::ICMP_SLE: return mkNot(mkSlt(b, a));
  }
  abort();
}
// pointwise evaluation over a small-domain variable (floating point of tabulated values)
template <class F> static E tabMap(const std::vector<E> &a, unsigned w, F fn) {
  if (!X.tabOn) return nullptr;
  E v = nullptr; for (E e : a) { if (e->size > 400 || !tabVar(e, v, 0)) return nullptr; }
  if (!v || v->lo < 0 || v->hi > 1023) return nullptr;
  Model md(v->aux + 1, 0); size_t lo = (size_t)(uint64_t)v->lo, hi = (size_t)(uint64_t)v->hi; std::vector<U> r(hi + 1, 0), q(a.size());
  for (size_t x = lo; x <= hi; x++) { md[v->aux] = (U)x; for (size_t i = 0; i < a.size(); i++) q[i] = isC(a[i]) ? a[i]->val : evalFresh(a[i], md); r[x] = fn(q.data()); }
  for (size_t x = 0; x < lo; x++) r[x] = r[lo];
  return mkTable(w, r, v);
}
static U intToFpC(U v, unsigned aw, bool sg, unsigned fw, bool &inex) {
  U m = sg && sgn(v, aw) < 0 ? (U)-sgn(v, aw) : v; int b = bitlenU(m), z = m ? ctzU(m) : 0; inex = b - z > (fw == 64 ? 53 : 24);
  return fw == 64 ? ofD(sg ? (double)(__int128)sgn(v, aw) : (double)(unsigned __int128)v) : ofF(sg ? (float)(__int128)sgn(v, aw) : (float)(unsigned __int128)v);
}
static U fpToIntC(U v, unsigned fw, unsigned w, bool sg) {
  double d = fw == 64 ? asD(v) : asF(v); if (!(d > -1e38 && d < 1e38)) return 0;
  return sg ? toU((I)(__int128)d, w) : d < 0 ? toU((I)(__int128)d, w) : (U)(unsigned __int128)d & maskU(w);
}
static U fpBinC(unsigned op, unsigned fw, U a, U b, bool &inex) {
  U r; feclearexcept(FE_INEXACT);
  if (fw == 64) { volatile double x = asD(a), y = asD(b), z; z = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : x / y; r = ofD(z); }
  else { volatile float x = asF(a), y = asF(b), z; z = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : x / y; r = ofF(z); }
  inex = fetestexcept(FE_INEXACT) != 0; return r;
}
static bool fcmpC(unsigned p, double a, double b) {
  bool un = a != a || b != b;
  switch (p) { case CmpInst::FCMP_OEQ: return a == b; case CmpInst::FCMP_OGT: return a > b; case CmpInst::FCMP_OGE: return a >= b; case CmpInst::FCMP_OLT: return a < b; case CmpInst::FCMP_OLE: return a <= b; case CmpInst::FCMP_ONE: return !un && a != b; case CmpInst::FCMP_ORD: return !un;
    case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_UEQ: return un || a == b; case CmpInst::FCMP_UGT: return un || a > b; case CmpInst::FCMP_UGE: return un || a >= b; case CmpInst::FCMP_ULT: return un || a < b; case CmpInst::FCMP_ULE: return un || a <= b; case CmpInst::FCMP_UNE: return a != b || un; case CmpInst::FCMP_TRUE: return true; }
  return false;
}
static bool callSoft(State &s, Frame &f, Ins &in, const char *name, std::vector<E> args);
struct Redo {};

// returns true when the call was handled without a frame
static bool builtin(State &s, Ins &in, Function *F, std::vector<E> &a, E &res) {
  std::string n = F->getName().str();
  auto isI = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  res = nullptr;
  if (n == "sx_range") { std::string nm = cstr(s, a[0]); E lo = a[1], hi = a[2]; if (!isC(lo) || !isC(hi)) toolError("sx_range bounds");
    for (auto &p : s.inputs) if (p.first == nm) toolError("duplicate input " + nm);
    E v = newVar(64, (I)lo->val, (I)hi->val, nm, true); s.inputs.push_back({nm, v}); if (v->op == VAR) { if (s.model.size() <= v->aux) s.model.resize(v->aux + 1, 0); s.model[v->aux] = lo->val; } res = v; return true; }
  if (n == "sx_assume") { doAssume(s, mkNot(mkEq(a[0], mkConst(a[0]->w, 0)))); return true; }
  if (n == "sx_assert") { std::string m = cstr(s, a[1]); doAssert(s, mkNot(mkEq(a[0], mkConst(a[0]->w, 0))), m); return true; }
  if (n == "sx_cover") { covers[cstr(s, a[0])]++; return true; }
  if (n == "sx_out") { s.outs.push_back({cstr(s, a[0]), a[1]}); return true; }
  if (n == "sx_param") { size_t i = (size_t)a[0]->val; if (i >= params.size()) toolError("missing parameter"); res = mkConst(64, (U)(u64)params[i]); return true; }
  if (n == "sx_opaque_mul") { opaqueMul = a[0]->val != 0; return true; }
  if (n == "sx_tabulate") { X.tabOn = a[0]->val != 0; return true; }
  if (n == "sx_concretize") { res = mkConst(a[0]->w, concretize(s, a[0])); return true; }
  if (n == "sx_split") { // decide a condition here (forks)
    bool b = decide(s, mkNot(mkEq(a[0], mkConst(a[0]->w, 0)))); res = mkConst(32, b); return true; }
  if (n == "sx_symbolic") { res = mkConst(32, 1); return true; }
  if (n == "sx_print") { fprintf(stderr, "print %s: %s [%s,%s]\n", cstr(s, a[0]).c_str(), show(applyS(s, a[1]), 12).c_str(), strI(a[1]->lo).c_str(), strI(a[1]->hi).c_str()); return true; }
  if (n == "sx_fail") { violation(s, cstr(s, a[0])); }
  if (isI("llvm.lifetime") || isI("llvm.dbg") || isI("llvm.experimental.noalias") || isI("llvm.assume") || isI("llvm.prefetch") || isI("llvm.stackrestore") || isI("llvm.va_end")) return true;
  if (isI("llvm.stacksave")) { res = mkConst(64, 0); return true; }
  if (isI("llvm.expect")) { res = a[0]; return true; }
  if (isI("llvm.is.constant")) { res = mkConst(1, 0); return true; }
  if (isI("llvm.objectsize")) { res = mkConst(in.w, maskU(in.w)); return true; }
  if (isI("llvm.trap") || n == "abort") { violation(s, "abort reached"); }
  if (n == "__assert_fail") { violation(s, "assertion failed"); }
  if (isI("llvm.memcpy") || isI("llvm.memmove") || n == "memcpy" || n == "memmove") { u64 nn = (u64)concretize(s, a[2]); u64 d = (u64)concretize(s, a[0]), sr = (u64)concretize(s, a[1]); copyMem(s, d, sr, nn); res = a[0]; return true; }
  if (isI("llvm.memset") || n == "memset") { u64 nn = (u64)concretize(s, a[2]); u64 d = (u64)concretize(s, a[0]); E v = mkExtract(a[1], 7, 0); if (nn) { ObjP o = checkAcc(s, d, nn, "write"); Obj *w = writable(s, o); for (u64 i = 0; i < nn; i++) w->b[d - w->base + i] = Cell{v, 0}; } res = a[0]; return true; }
  if (isI("llvm.umin")) { res = mkIte(mkUlt(a[0], a[1]), a[0], a[1]); return true; }
  if (isI("llvm.umax")) { res = mkIte(mkUlt(a[0], a[1]), a[1], a[0]); return true; }
  if (isI("llvm.smin")) { res = mkIte(mkSlt(a[0], a[1]), a[0], a[1]); return true; }
  if (isI("llvm.smax")) { res = mkIte(mkSlt(a[0], a[1]), a[1], a[0]); return true; }
  if (isI("llvm.abs")) { E z = mkConst(a[0]->w, 0); res = mkIte(mkSlt(a[0], z), mkNeg(a[0]), a[0]); return true; }
  if (isI("llvm.usub.sat")) { res = mkIte(mkUlt(a[0], a[1]), mkConst(a[0]->w, 0), mkSub(a[0], a[1])); return true; }
  if (isI("llvm.uadd.sat")) { E t = mkAdd(a[0], a[1]); res = mkIte(mkUlt(t, a[0]), mkConst(a[0]->w, maskU(a[0]->w)), t); return true; }
  if (isI("llvm.uadd.with.overflow")) { E t = mkAdd(mkZExt(a[0], a[0]->w + 1), mkZExt(a[1], a[0]->w + 1)); res = t; return true; }
  if (isI("llvm.usub.with.overflow")) { res = mkConcat({mkUlt(a[0], a[1]), mkSub(a[0], a[1])}); return true; }
  if (isI("llvm.umul.with.overflow")) { unsigned w = a[0]->w; E t = mkMul(mkZExt(a[0], 2 * w), mkZExt(a[1], 2 * w)); res = mkConcat({mkNot(mkEq(mkExtract(t, 2 * w - 1, w), mkConst(w, 0))), mkExtract(t, w - 1, 0)}); return true; }
  if (isI("llvm.sadd.with.overflow") || isI("llvm.ssub.with.overflow") || isI("llvm.smul.with.overflow")) { unsigned w = a[0]->w, W = 2 * w; E x = mkSExt(a[0], W), y = mkSExt(a[1], W); E t = isI("llvm.sadd") ? mkAdd(x, y) : isI("llvm.ssub") ? mkSub(x, y) : mkMul(x, y); E lo = mkExtract(t, w - 1, 0); res = mkConcat({mkNot(mkEq(t, mkSExt(lo, W))), lo}); return true; }
  if (isI("llvm.fshl") || isI("llvm.fshr")) { unsigned w = a[0]->w; u64 sh = (u64)(concretize(s, a[2]) % w); E c = mkConcat({applyS(s, a[0]), applyS(s, a[1])}); if (isI("llvm.fshl")) res = mkExtract(c, 2 * w - 1 - sh, w - sh); else res = mkExtract(c, w - 1 + sh, sh); return true; }
  if (isI("llvm.bswap")) { std::vector<E> ks; for (unsigned i = 0; i < a[0]->w / 8; i++) ks.push_back(mkExtract(a[0], i * 8 + 7, i * 8)); res = mkConcat(ks); return true; }
  if (isI("llvm.ctlz") || isI("llvm.cttz") || isI("llvm.ctpop")) {
    E x = applyS(s, a[0]); unsigned w = x->w;
    if (isI("llvm.ctpop")) { std::vector<std::pair<U, E>> t; for (unsigned i = 0; i < w; i++) t.push_back({1, mkZExt(mkExtract(x, i, i), w)}); res = mkLin(w, t, 0); return true; }
    if (decide(s, mkEq(x, mkConst(w, 0)))) { res = mkConst(w, w); return true; }
    x = applyS(s, x); U v = evalM(s, x);
    if (isI("llvm.ctlz")) { unsigned l = bitlenU(v); if (l < w && !decide(s, mkUlt(x, mkConst(w, (U)1 << l)))) throw Redo(); x = applyS(s, x); if (decide(s, mkUlt(x, mkConst(w, (U)1 << (l - 1))))) throw Redo(); res = mkConst(w, w - l); return true; }
    unsigned l = ctzU(v); if (!decide(s, mkEq(mkExtract(x, l, 0), mkConst(l + 1, (U)1 << l)))) throw Redo(); res = mkConst(w, l); return true; }
  if (isI("llvm.fabs")) { res = mkConcat({mkConst(1, 0), mkExtract(a[0], a[0]->w - 2, 0)}); return true; }
  if (isI("llvm.fmuladd") && isC(a[0]) && isC(a[1]) && isC(a[2])) { res = in.w == 64 ? mkConst(64, ofD(asD(a[0]->val) * asD(a[1]->val) + asD(a[2]->val))) : mkConst(32, ofF(asF(a[0]->val) * asF(a[1]->val) + asF(a[2]->val))); return true; }
  if (n == "malloc" || n == "__libc_malloc") { u64 sz = (u64)concretize(s, a[0]); res = mkConst(64, allocObj(s, sz, "heap block", true)); return true; }
  if (n == "calloc") { u64 sz = (u64)(concretize(s, a[0]) * concretize(s, a[1])); u64 p = allocObj(s, sz, "heap block", true); for (auto &c : s.mem[p]->b) c = Cell{mkConst(8, 0), 0}; res = mkConst(64, p); return true; }
  if (n == "free") { u64 p = (u64)concretize(s, a[0]); if (p) { ObjP o = findObj(s, p); if (!o || !o->heap || o->base != p || !o->alive) violation(s, "memory safety: bad free"); writable(s, o)->alive = false; } return true; }
  if (isI("llvm.va_start")) { // x86-64 va_list: gp_offset, fp_offset, overflow_arg_area, reg_save_area
    Frame &f = s.st.back(); u64 total = 0; for (auto &p : f.va) total += p.first->w > 64 ? 16 : 8;
    u64 area = allocObj(s, total + 8, "varargs", false); Obj *o = s.mem[area].get(); u64 off = 0;
    for (auto &p : f.va) { writeMem(s, o, off, p.first->w < 64 ? mkZExt(p.first, 64) : p.first); off += p.first->w > 64 ? 16 : 8; }
    u64 ap = (u64)concretize(s, a[0]); ObjP vo = checkAcc(s, ap, 24, "write"); Obj *w = writable(s, vo);
    writeMem(s, w, ap - w->base, mkConst(32, 48)); writeMem(s, w, ap - w->base + 4, mkConst(32, 304)); writeMem(s, w, ap - w->base + 8, mkConst(64, area)); writeMem(s, w, ap - w->base + 16, mkConst(64, 0)); return true; }
  if (isI("llvm.va_copy")) { copyMem(s, (u64)concretize(s, a[0]), (u64)concretize(s, a[1]), 24); return true; }
  return false;
}

static void step(State &s) {
  Frame *f = &s.st.back(); Ins &in = f->f->code[f->pc];
  s.steps++; nsteps++;
  auto op = [&](int i) { return fetch(s, *f, in.a[i]); };
  auto set = [&](E v) { if (v->w != in.w) { toolError("width mismatch " + std::to_string(v->w) + " vs " + std::to_string(in.w) + " in " + f->f->F->getName().str()); } f->r[in.dst] = v; f->pc++; };
  switch (in.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: set(arith(in.op, op(0), op(1))); return;
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      E a = op(0), b = op(1); if (!isC(b) && !isC(a)) { concretize(s, b); f = &s.st.back(); b = fetch(s, *f, in.a[1]); a = fetch(s, *f, in.a[0]); }
      else if (!isC(b) && b->w >= 16) { concretize(s, b); b = fetch(s, *f, in.a[1]); a = fetch(s, *f, in.a[0]); }
      { E r = arith(in.op, a, b);
        if (in.op == Instruction::AShr && isC(b) && r->op == SEXT && r->k[0]->w == 1) { bool neg = decide(s, r->k[0]); f = &s.st.back(); r = mkConst(r->w, neg ? maskU(r->w) : (U)0); }
        set(r); } return; }
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
      E b = op(1); if (!isC(b)) { if (decide(s, mkEq(b, mkConst(b->w, 0)))) violation(s, "division by zero"); b = op(1); } else if (!b->val) violation(s, "division by zero");
      E a = op(0);
      if (in.op == Instruction::SDiv || in.op == Instruction::SRem) {   // split on the sign of a non-constant dividend
        if (!isC(a) && a->lo < 0) { if (decide(s, mkSlt(a, mkConst(a->w, 0)))) { a = op(0); b = op(1); if (isC(b) || b->lo >= 0) { E na = mkNeg(a); if (fitsU(na) || na->lo >= 0) { if (in.op == Instruction::SDiv) { if (!isC(b) || sgn(b->val, b->w) > 0) { set(mkNeg(mkUDiv(na, b))); return; } } else if (!isC(b) || sgn(b->val, b->w) > 0) { set(mkNeg(mkURem(na, b))); return; } } } } a = op(0); b = op(1); }
      }
      set(arith(in.op, a, b)); return; }
    case Instruction::ICmp: set(icmp(in.sub, op(0), op(1))); return;
    case Instruction::Trunc: set(mkExtract(op(0), in.w - 1, 0)); return;
    case Instruction::ZExt: set(mkZExt(op(0), in.w)); return;
    case Instruction::SExt: { E a = op(0); if (a->w == 1 && !isC(a)) { bool b = decide(s, a); f = &s.st.back(); set(mkConst(in.w, b ? maskU(in.w) : (U)0)); return; } set(mkSExt(a, in.w)); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { E a = op(0); set(a->w == in.w ? a : a->w > in.w ? mkExtract(a, in.w - 1, 0) : mkZExt(a, in.w)); return; }
    case Instruction::Freeze: set(op(0)); return;
    case Instruction::Select: { E c = op(0); set(mkIte(c, op(1), op(2))); return; }
    case Instruction::GetElementPtr: {
      std::vector<std::pair<U, E>> t{{1, op(0)}};
      for (auto &g : in.gep) { E ix = fetch(s, *f, g.first); t.push_back({(U)(I)g.second & maskU(64), ix->w < 64 ? mkSExt(ix, 64) : ix}); }
      set(mkLin(64, t, toU(in.off, 64))); return; }
    case Instruction::ExtractValue: set(mkExtract(op(0), in.xlo + in.w - 1, in.xlo)); return;
    case Instruction::InsertValue: { E a = op(0), v = op(1); std::vector<E> k; if (in.xlo + v->w < a->w) k.push_back(mkExtract(a, a->w - 1, in.xlo + v->w)); k.push_back(v); if (in.xlo) k.push_back(mkExtract(a, in.xlo - 1, 0)); set(mkConcat(k)); return; }
    case Instruction::Alloca: { u64 n = (u64)concretize(s, op(0)); u64 a = allocObj(s, in.sz * n, "local " + in.I->getName().str() + " of " + f->f->F->getName().str(), false); f->allocas.push_back(a); set(mkConst(64, a)); return; }
    case Instruction::Load: {
      E p = op(0); E v;
      if (isC(p)) { u64 a = (u64)p->val; ObjP o = checkAcc(s, a, in.sz, "read"); v = readMem(s, o, a - o->base, in.sz); }
      else { v = loadSym(s, p, in.sz, in.w); f = &s.st.back(); }
      if (v->w > in.w) v = mkExtract(v, in.w - 1, 0);
      set(v); return; }
    case Instruction::Store: {
      E v = op(0); E p = op(1); u64 a = (u64)concretize(s, p); v = fetch(s, *f, in.a[0]);
      ObjP o = checkAcc(s, a, in.sz, "write"); writeMem(s, writable(s, o), a - o->base, v); f->pc++; return; }
    case Instruction::Br:
      if (in.a.empty()) { jump(s, *f, in.tgt[0]); return; }
      { bool b = decide(s, op(0)); jump(s, *f, in.tgt[b ? 0 : 1]); return; }
    case Instruction::Switch: {
      E c = op(0); U v;
      if (isC(c)) v = c->val;
      else {
        fixStale(s); v = evalM(s, c); bool listed = false; for (U x : in.cv) if (x == v) listed = true;
        if (listed) { if (!decide(s, mkEq(c, mkConst(c->w, v)))) return; }
        else { for (U x : in.cv) { c = op(0); if (decide(s, mkEq(c, mkConst(c->w, x)))) { v = x; break; } } }
      }
      for (size_t i = 0; i < in.cv.size(); i++) if (in.cv[i] == v) { jump(s, *f, in.tgt[i + 1]); return; }
      jump(s, *f, in.tgt[0]); return; }
    case Instruction::UIToFP: case Instruction::SIToFP: {
      E a = op(0); bool sg = in.op == Instruction::SIToFP;
      if (in.w > 64) toolError("long double");
      { bool ix; if (isC(a)) { U r = intToFpC(a->val, a->w, sg, in.w, ix); if (ix) hwInexact(s, mkConst(1, 1)); set(mkConst(in.w, r)); return; }
        E r = tabMap({a}, in.w, [&](const U *q) { return intToFpC(q[0], a->w, sg, in.w, ix); });
        if (r) { hwInexact(s, tabMap({a}, 1, [&](const U *q) { intToFpC(q[0], a->w, sg, in.w, ix); return (U)ix; })); set(r); return; } }
      E r = intToFp(s, a, sg, in.w); if (!r) return; set(r); return; }
    case Instruction::FPToUI: case Instruction::FPToSI: {
      E a = op(0);
      if (isC(a)) { set(mkConst(in.w, fpToIntC(a->val, a->w, in.w, in.op == Instruction::FPToSI))); return; }
      { E r = tabMap({a}, in.w, [&](const U *q) { return fpToIntC(q[0], a->w, in.w, in.op == Instruction::FPToSI); }); if (r) { set(r); return; } }
      set(fpToInt(s, a, in.w, in.op == Instruction::FPToSI)); return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      E a = op(0), b = op(1);
      { bool ix; if (isC(a) && isC(b)) { U r = fpBinC(in.op, in.w, a->val, b->val, ix); if (ix) hwInexact(s, mkConst(1, 1)); set(mkConst(in.w, r)); return; }
        E r = tabMap({a, b}, in.w, [&](const U *q) { return fpBinC(in.op, in.w, q[0], q[1], ix); });
        if (r) { hwInexact(s, tabMap({a, b}, 1, [&](const U *q) { fpBinC(in.op, in.w, q[0], q[1], ix); return (U)ix; })); set(r); return; } }
      const char *nm = in.w == 64 ? (in.op == Instruction::FAdd ? "__sxf_add64" : in.op == Instruction::FSub ? "__sxf_sub64" : in.op == Instruction::FMul ? "__sxf_mul64" : "__sxf_div64") : (in.op == Instruction::FAdd ? "__sxf_add32" : in.op == Instruction::FSub ? "__sxf_sub32" : in.op == Instruction::FMul ? "__sxf_mul32" : "__sxf_div32");
      Function *F = M->getFunction(nm); if (!F || F->isDeclaration()) toolError(std::string("symbolic floating point: ") + nm);
      pushFrame(s, F, {a, b}, {}); return; }
    case Instruction::FNeg: { E a = op(0); set(mkConcat({mkNot(mkExtract(a, in.w - 1, in.w - 1)), mkExtract(a, in.w - 2, 0)})); return; }
    case Instruction::FPExt: case Instruction::FPTrunc: { E a = op(0); if (isC(a) && in.w == 64 && a->w == 32) { set(mkConst(64, ofD(asF(a->val)))); return; } if (isC(a) && in.w == 32 && a->w == 64) { set(mkConst(32, ofF(asD(a->val)))); return; } E r = tabMap({a}, in.w, [&](const U *q) -> U { return in.w == 64 ? (a->w == 64 ? q[0] : (U)ofD(asF(q[0]))) : (U)ofF(asD(q[0])); }); if (r) { set(r); return; } toolError("symbolic fpext/fptrunc"); }
    case Instruction::FCmp: { E a = op(0), b = op(1); if (isC(a) && isC(b)) { set(mkConst(1, a->w == 64 ? fcmpC(in.sub, asD(a->val), asD(b->val)) : fcmpC(in.sub, asF(a->val), asF(b->val)))); return; } E r = tabMap({a, b}, 1, [&](const U *q) -> U { return a->w == 64 ? fcmpC(in.sub, asD(q[0]), asD(q[1])) : fcmpC(in.sub, asF(q[0]), asF(q[1])); }); if (r) { set(r); return; } toolError("symbolic fcmp"); }
    case Instruction::Ret: {
      E v = in.a.empty() ? nullptr : op(0);
      for (u64 a : f->allocas) { auto it = s.mem.find(a); if (it != s.mem.end()) s.mem.erase(it); }
      s.st.pop_back();
      if (s.st.empty()) throw PathEnd();
      Frame &c = s.st.back(); Ins &ci = c.f->code[c.pc]; if (ci.dst >= 0) { if (!v || v->w != ci.w) toolError("return width mismatch calling " + (ci.callee ? ci.callee->getName().str() : "?")); c.r[ci.dst] = v; }
      c.pc++; return; }
    case Instruction::Call: {
      Function *F = in.callee; std::vector<E> a; size_t na = in.a.size() - (F ? 0 : 1);
      for (size_t i = 0; i < na; i++) a.push_back(op(i));
      if (!F) { u64 p = (u64)concretize(s, op(na)); auto it = faddr.find(p); if (it == faddr.end()) violation(s, "memory safety: call through a bad pointer"); F = it->second; for (size_t i = 0; i < na; i++) a[i] = op(i); }
      E res;
      if (F->isDeclaration()) {
        try { if (!builtin(s, in, F, a, res)) toolError("unmodelled function " + F->getName().str()); } catch (Redo &) { return; }
        f = &s.st.back();
        if (in.dst >= 0) { if (!res) toolError("no result from " + F->getName().str()); set(res); } else f->pc++;
        return;
      }
      // by-value structures
      auto *cb = cast<CallBase>(in.I);
      for (size_t i = 0; i < a.size() && i < F->arg_size(); i++) if (cb->isByValArgument(i)) { u64 sz = DL->getTypeAllocSize(cb->getParamByValType(i)); u64 n = allocObj(s, sz, "byval", false); f->allocas.push_back(n); copyMem(s, n, (u64)concretize(s, a[i]), sz); a[i] = mkConst(64, n); }
      std::vector<std::pair<E,unsigned>> va; if (a.size() > F->arg_size()) { for (size_t i = F->arg_size(); i < a.size(); i++) va.push_back({a[i], 0}); a.resize(F->arg_size()); }
      pushFrame(s, F, a, va); return; }
    case Instruction::Unreachable: violation(s, "unreachable code reached (undefined behaviour)");
    default: { std::string t; raw_string_ostream os(t); in.I->print(os); toolError("unsupported instruction " + os.str()); }
  }
}

static const char *outFile; static double tStart;
static void report(const char *status, const std::string &err) {
  FILE *o = outFile ? fopen(outFile, "w") : stdout; if (!o) return;
  fprintf(o, "{\"status\":\"%s\",\"error\":\"%s\",\"paths\":%lu,\"infeasible\":%lu,\"assume_killed\":%lu,\"steps\":%lu,\"forks\":%lu,\"asserts\":%lu,\"folded\":%lu,\"queries\":%lu,\"cached\":%lu,\"unknown\":%lu,\"cvc5\":%lu,\"solver_s\":%.3f,\"solver_max_s\":%.3f,\"wall_s\":%.3f,\"exprs\":%u,\"mem_mb\":%lu,\n",
          status, jesc(err).c_str(), npaths, ninfeasible, nassumeKill, nsteps, nforks, nasserts, nfolded, SV->nq, SV->ncache, SV->nunk, SV->ncvc, SV->t, SV->tmax, now() - tStart, X.nextId, X.total >> 20);
  fprintf(o, "\"assert_msgs\":{"); bool c = false; for (auto &p : asserts) { fprintf(o, "%s\"%s\":%lu", c ? "," : "", jesc(p.first).c_str(), p.second); c = true; }
  fprintf(o, "},\n\"covers\":{"); c = false; for (auto &p : covers) { fprintf(o, "%s\"%s\":%lu", c ? "," : "", jesc(p.first).c_str(), p.second); c = true; }
  fprintf(o, "},\n\"undecided\":["); c = false; for (auto &p : undecided) { fprintf(o, "%s\"%s\"", c ? "," : "", jesc(p).c_str()); c = true; }
  fprintf(o, "],\n\"violations\":["); c = false;
  for (auto &v : viols) { fprintf(o, "%s{\"msg\":\"%s\",\"where\":\"%s\",\"inputs\":{", c ? "," : "", jesc(v.msg).c_str(), jesc(v.where).c_str()); bool d = false; for (auto &p : v.in) { fprintf(o, "%s\"%s\":%s", d ? "," : "", jesc(p.first).c_str(), strU(p.second).c_str()); d = true; } fprintf(o, "}}"); c = true; }
  fprintf(o, "],\n\"witnesses\":["); c = false;
  for (auto &v : wits) { fprintf(o, "%s{\"inputs\":{", c ? "," : ""); bool d = false; for (auto &p : v.in) { fprintf(o, "%s\"%s\":%s", d ? "," : "", jesc(p.first).c_str(), strU(p.second).c_str()); d = true; } fprintf(o, "},\"outs\":["); d = false; for (auto &p : v.out) { fprintf(o, "%s[\"%s\",%s]", d ? "," : "", jesc(p.first).c_str(), strU(p.second).c_str()); d = true; } fprintf(o, "]}"); c = true; }
  fprintf(o, "],\n\"functions\":["); c = false; for (auto &p : fns) if (p.second->calls) { fprintf(o, "%s\"%s\"", c ? "," : "", p.first->getName().str().c_str()); c = true; }
  fprintf(o, "]}\n"); if (outFile) fclose(o);
}
static void selfTest();
int main(int argc, char **argv) {
  tStart = now(); const char *bc = nullptr, *entry = "harness"; double tl = 800; bool verbose = false; unsigned witEvery = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-p") params.push_back(atol(argv[++i])); else if (a == "-o") outFile = argv[++i]; else if (a == "-e") entry = argv[++i]; else if (a == "-t") tl = atof(argv[++i]);
    else if (a == "-v") verbose = true; else if (a == "--wit") maxWit = atoi(argv[++i]); else if (a == "--maxpaths") maxPaths = atol(argv[++i]); else if (a == "--selftest") { selfTest(); return 0; } else bc = argv[i];
  }
  SV = new Solver; SV->deadline = deadline = tStart + tl;
  { static std::string of = outFile; signal(SIGALRM, [](int) { int fd = open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); const char *m = "{\"status\":\"error\",\"error\":\"time limit (inside one step)\"}"; if (write(fd, m, strlen(m)) < 0) {} _exit(0); }); alarm((unsigned)tl + 8); }
  static LLVMContext C; SMDiagnostic Err; auto mod = parseIRFile(bc, Err, C); if (!mod) { Err.print("sx", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  // addresses for every defined function so that indirect calls resolve
  Function *H = M->getFunction(entry); if (!H) toolError("no entry");
  if (Function *G = M->getFunction("sx_ctors")) if (G->isDeclaration()) { // run the constructors of the linked units
    IRBuilder<> B(BasicBlock::Create(C, "", G));
    if (GlobalVariable *L = M->getGlobalVariable("llvm.global_ctors")) if (auto *A = dyn_cast<ConstantArray>(L->getInitializer()))
      for (auto &op : A->operands()) if (auto *f = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts())) B.CreateCall(f->getFunctionType(), f);
    B.CreateRetVoid();
  }
  State *s0 = new State; s0->nextAddr = 0x7000000000ULL; s0->nvars = 0; pushFrame(*s0, H, {}, {}); work.push_back(s0);
  unsigned long ended = 0;
  while (!work.empty()) {
    State *s = work.back(); work.pop_back(); cur = s;
    try {
      fixStale(*s);
      for (;;) { step(*s); if ((nsteps & 1023) == 0 && now() > deadline) toolError("time limit"); if (s->steps > maxSteps) toolError("path longer than the step limit"); }
    } catch (PathEnd &) {}
    ended++;
    if (s->st.empty()) {
      npaths++;
      if (wits.size() < maxWit || (npaths % 97 == 0 && wits.size() < 4 * maxWit)) { fixStale(*s); if (!prodDefs.empty() && !defsHold(s->model)) { delete s; cur = nullptr; continue; } Wit w; for (auto &p : s->inputs) w.in.push_back({p.first, evalFresh(p.second, s->model)}); for (auto &p : s->outs) w.out.push_back({p.first, evalFresh(p.second, s->model)}); wits.push_back(w); }
      if (verbose) { fprintf(stderr, "path %lu steps %lu work %zu q %lu t %.1f solver %.1f\n", npaths, s->steps, work.size(), SV->nq, now() - tStart, SV->t); if (getenv("SX_PC")) for (E x : s->cons) fprintf(stderr, "     pc %s\n", show(x, 12).c_str()); }
      if (npaths > maxPaths) toolError("path limit");
    }
    delete s; cur = nullptr;
  }
  report("ok", ""); return 0;
}
// random differential test of the simplifier against direct evaluation
static U rnd() { U r = 0; for (int i = 0; i < 4; i++) r = (r << 64) | ((u64)random() << 40 ^ (u64)random() << 15 ^ (u64)random()); return r; }
static void selfTest() {
  srandom(1); unsigned long n = 0, bad = 0;
  for (int round = 0; round < 20000; round++) {
    unsigned w = (unsigned[]){8, 16, 32, 64, 128}[random() % 5];
    std::vector<E> pool; std::vector<std::pair<E, U>> vals; Model m;
    size_t v0 = X.vars.size(); m.resize(v0 + 3, 0);
    std::vector<U> vv; std::vector<E> es;
    for (int i = 0; i < 3; i++) { unsigned b = 1 + random() % w; U hi = maskU(b); U lo = random() % 3 ? (U)0 : (rnd() & hi) / 2; E v = newVar(w, (I)lo, (I)hi, "t", true); U x = lo + (hi > lo ? rnd() % (hi - lo + 1) : (U)0); if (random() % 5 == 0) x = lo; if (random() % 5 == 0) x = hi; m[v0 + i] = x; es.push_back(v); vv.push_back(x); }
    for (int i = 0; i < 3; i++) { U c = rnd() & maskU(w); int t = random() % 4; if (t == 0) c = random() % 20; if (t == 1) { static U p[] = {10, 100, 1000, 10000, 1000000, 1000000000}; c = p[random() % 6] & maskU(w); } if (t == 2) c = ((U)1 << (random() % w)); es.push_back(mkConst(w, c)); vv.push_back(c); }
    for (int i = 0; i < 14; i++) {
      size_t a = random() % es.size(), b = random() % es.size(), c = random() % es.size(); E x = es[a], y = es[b], z = es[c]; U p = vv[a], q = vv[b], r = vv[c]; E e; U v; unsigned W = w; U mk = maskU(W);
      switch (random() % 22) {
        case 0: e = mkAdd(x, y); v = (p + q) & mk; break; case 1: e = mkSub(x, y); v = (p - q) & mk; break; case 2: e = mkMul(x, y); v = (p * q) & mk; break;
        case 3: if (!q) continue; e = mkUDiv(x, y); v = q ? p / q : mk; break; case 4: if (!q) continue; e = mkURem(x, y); v = q ? p % q : p; break;
        case 5: e = mkBit(AND, x, y); v = p & q; break; case 6: e = mkBit(OR, x, y); v = p | q; break; case 7: e = mkBit(XOR, x, y); v = p ^ q; break;
        case 8: e = mkShl(x, y); v = q >= W ? (U)0 : (p << (unsigned)q) & mk; break; case 9: e = mkLShr(x, y); v = q >= W ? (U)0 : p >> (unsigned)q; break;
        case 10: { unsigned sft = random() % W; e = mkAShr(x, mkConst(W, sft)); v = toU(sgn(p, W) >> sft, W); break; }
        case 11: { E cc = mkUlt(x, y); e = mkIte(cc, y, z); v = p < q ? q : r; break; } case 12: { E cc = mkSlt(x, y); e = mkIte(cc, y, z); v = sgn(p, W) < sgn(q, W) ? q : r; break; }
        case 13: { E cc = mkEq(x, y); e = mkIte(cc, z, x); v = p == q ? r : p; break; }
        case 14: { unsigned lo = random() % W, hi = lo + random() % (W - lo); e = mkZExt(mkExtract(x, hi, lo), W); v = (p >> lo) & maskU(hi - lo + 1); break; }
        case 15: { unsigned lo = random() % W, hi = lo + random() % (W - lo); e = mkSExt(mkExtract(x, hi, lo), W); v = toU(sgn((p >> lo) & maskU(hi - lo + 1), hi - lo + 1), W); break; }
        case 16: { unsigned k = 1 + random() % (W - 1); e = mkConcat({mkExtract(x, W - 1, k), mkExtract(y, k - 1, 0)}); v = (p & ~maskU(k)) | (q & maskU(k)); break; }
        case 17: e = mkSDiv(x, y); if (!q) continue; v = sdivU(p, q, W); break; case 18: e = mkSRem(x, y); if (!q) continue; v = sremU(p, q, W); break;
        case 19: { e = mkLin(W, {{(U)(random() % 2000), x}, {(U)(random() % 2000), y}}, random() % 1000); v = evalFresh(e, m); break; }
        case 20: { std::vector<U> t; for (int j = 0; j < 300; j++) t.push_back((U)(j * 37 % 251) & mk); e = mkTable(W, t, mkZExt(mkExtract(x, std::min(W, 8u) - 1, 0), W)); U ix = p & maskU(std::min(W, 8u)); v = t[(size_t)ix] & mk; break; }
        default: { unsigned W2 = std::min(256u, W * 2); E t = mkZExt(x, W2), u2 = mkZExt(y, W2); U M2 = rnd() & maskU(W2 / 2); E mm2 = mkMul(mkAdd(t, u2), mkConst(W2, M2)); unsigned sft = random() % W2; e = mkExtract(mkLShr(mm2, mkConst(W2, sft)), W - 1, 0); v = ((((p + q) * M2) & maskU(W2)) >> sft) & mk; break; }
      }
      n++;
      U got = evalFresh(e, m);
      bool rng = isC(e) || ((got >= toU(e->lo, W) || e->lo < 0 || e->hi >= pow2I(W)) );
      if (fitsU(e) && ((I)got < e->lo || (I)got > e->hi)) rng = false; else if (!fitsU(e) && fitsS(e) && (sgn(got, W) < e->lo || sgn(got, W) > e->hi)) rng = false;
      if (got != v || !rng) { bad++; fprintf(stderr, "BAD w=%u got %s want %s range [%s,%s]: %s\n", W, strU(got).c_str(), strU(v).c_str(), strI(e->lo).c_str(), strI(e->hi).c_str(), show(e, 8).c_str()); if (bad > 10) exit(1); }
      es.push_back(e); vv.push_back(v);
    }
    if (X.vars.size() > 3000) { X.vars.clear(); X.tab.clear(); X.tables.clear(); X.tabIntern.clear(); }
  }
  printf("selftest: %lu expressions, %lu bad\n", n, bad); exit(bad != 0);
}
