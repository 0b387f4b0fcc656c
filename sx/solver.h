// Queries over Expr: lowering to z3, cvc5 fallback, caching, model extraction.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <unistd.h>
#include <sys/wait.h>

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Solver {
  Z3_context c; unsigned long nq = 0, ncache = 0, nunk = 0, ncvc = 0; double t = 0, tmax = 0;
  double deadline = 1e18; int tmoFast = 3000, tmoSlow = 20000; int cap(int ms) { double l = (deadline - now()) * 1000; return l < 200 ? 200 : l < ms ? (int)l : ms; } bool useCvc = true;
  struct Low { Z3_ast a; std::vector<unsigned> sides; };          // sides: ids of division definitions needed
  std::unordered_map<E, Z3_ast> memo;
  struct Side { Z3_ast def; E num; };
  std::unordered_map<E, Side> sides;                              // UDIV by constant -> quotient definition
  std::vector<Z3_ast> vconst; std::vector<unsigned> vwidth;
  enum R { SAT, UNSAT, UNK };
  std::unordered_map<uint64_t, std::vector<std::pair<std::vector<unsigned>, std::pair<R, std::vector<std::pair<unsigned, U>>>>>> cache;

  Solver() { Z3_config cfg = Z3_mk_config(); c = Z3_mk_context(cfg); Z3_del_config(cfg); }
  Z3_ast num(unsigned w, U v) { return Z3_mk_numeral(c, strU(v).c_str(), Z3_mk_bv_sort(c, w)); }
  Z3_ast keep(Z3_ast a) { return a; }
  Z3_ast zx(Z3_ast a, unsigned from, unsigned to) { if (from == to) return a; if (from > to) return Z3_mk_extract(c, to - 1, 0, a); return Z3_mk_zero_ext(c, to - from, a); }
  Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(c, b, num(1, 1), num(1, 0)); }
  Z3_ast v2b(Z3_ast v) { return Z3_mk_eq(c, v, num(1, 1)); }
  Z3_ast var(unsigned id) {
    if (vconst.size() <= id) { vconst.resize(id + 1, nullptr); vwidth.resize(id + 1, 0); }
    if (!vconst[id]) {
      Var &v = X.vars[id]; unsigned n = v.lo >= 0 ? bitlenU((U)v.hi) : v.w; if (n > v.w) n = v.w; if (!n) n = 1;
      vconst[id] = Z3_mk_const(c, Z3_mk_string_symbol(c, ("v" + std::to_string(id)).c_str()), Z3_mk_bv_sort(c, n)); vwidth[id] = n;
    }
    return vconst[id];
  }
  unsigned nsym = 0;
  // bit-vector term of width e->w
  Z3_ast bv(E e) {
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    Z3_ast r = bv0(e); memo[e] = r; return r;
  }
  Z3_ast mux(const std::vector<U> &v, unsigned w, Z3_ast idx, unsigned bit, size_t base) {
    if (base >= v.size()) return num(w, 0);
    bool same = true; size_t n = (size_t)1 << bit; for (size_t i = base + 1; i < base + n && i < v.size(); i++) if (v[i] != v[base]) { same = false; break; }
    if (same) return num(w, v[base]);
    Z3_ast b = Z3_mk_eq(c, Z3_mk_extract(c, bit - 1, bit - 1, idx), num(1, 1));
    return Z3_mk_ite(c, b, mux(v, w, idx, bit - 1, base + n / 2), mux(v, w, idx, bit - 1, base));
  }
  Z3_ast quot(E num_, U K) {     // quotient term at num_->w, with side definition
    unsigned w = num_->w;
    E key = intern(UDIV, w, 77, {num_, mkConst(w, K)}, nullptr, 0, 0, pow2I(w) - 1);
    auto it = memo.find(key); if (it != memo.end()) return it->second;
    Z3_ast x = bv(num_);
    I mh = fitsU(num_) ? num_->hi : pow2I(w) - 1; U qmax = (U)(mh / (I)K);
    unsigned qn = std::max(1u, bitlenU(qmax)); if (qn > w) qn = w;
    Z3_ast q = Z3_mk_const(c, Z3_mk_string_symbol(c, ("q" + std::to_string(nsym++)).c_str()), Z3_mk_bv_sort(c, qn));
    unsigned W = std::max(w, bitlenU(qmax * K + K)) ;
    Z3_ast qK = Z3_mk_bvmul(c, zx(q, qn, W), num(W, K)), xx = zx(x, w, W);
    Z3_ast cs[3] = {Z3_mk_bvule(c, q, num(qn, qmax)), Z3_mk_bvule(c, qK, xx), Z3_mk_bvult(c, Z3_mk_bvsub(c, xx, qK), num(W, K))};
    sides[key] = {Z3_mk_and(c, 3, cs), num_};
    Z3_ast r = zx(q, qn, w); memo[key] = r; return r;
  }
  Z3_ast bv0(E e) {
    unsigned w = e->w;
    switch (e->op) {
      case CONST: return num(w, e->val);
      case VAR: { Z3_ast v = var(e->aux); return zx(v, vwidth[e->aux], w); }
      case LIN: {
        unsigned n = w; if (fitsU(e)) { n = bitlenU((U)e->hi); if (!n) n = 1; }
        Z3_ast s = nullptr;
        for (unsigned i = 0; i < e->nk; i++) {
          Z3_ast k = zx(bv(e->k[i]), w, n); U co = e->co[i] & maskU(n);
          bool neg = false; if (((co >> (n - 1)) & 1) && n > 1) { U m = (0 - co) & maskU(n); if (m <= 1000000 || bitlenU(m) + 3 < n) { neg = true; co = m; } }
          Z3_ast p = co == 1 ? k : Z3_mk_bvmul(c, k, num(n, co));
          if (!s) s = neg ? Z3_mk_bvneg(c, p) : p; else s = neg ? Z3_mk_bvsub(c, s, p) : Z3_mk_bvadd(c, s, p);
        }
        if (e->val & maskU(n)) s = Z3_mk_bvadd(c, s, num(n, e->val & maskU(n)));
        return zx(s, n, w);
      }
      case MUL: { unsigned n = w; if (fitsU(e)) { n = bitlenU((U)e->hi); if (!n) n = 1; } return zx(Z3_mk_bvmul(c, zx(bv(e->k[0]), w, n), zx(bv(e->k[1]), w, n)), n, w); }
      case UDIV: if (isC(e->k[1]) && e->k[1]->val) return quot(e->k[0], e->k[1]->val); return Z3_mk_bvudiv(c, bv(e->k[0]), bv(e->k[1]));
      case UREM: if (isC(e->k[1]) && e->k[1]->val) { Z3_ast q = quot(e->k[0], e->k[1]->val); return Z3_mk_bvsub(c, bv(e->k[0]), Z3_mk_bvmul(c, q, num(w, e->k[1]->val))); } return Z3_mk_bvurem(c, bv(e->k[0]), bv(e->k[1]));
      case SDIV: return Z3_mk_bvsdiv(c, bv(e->k[0]), bv(e->k[1]));
      case SREM: return Z3_mk_bvsrem(c, bv(e->k[0]), bv(e->k[1]));
      case AND: return Z3_mk_bvand(c, bv(e->k[0]), bv(e->k[1]));
      case OR: return Z3_mk_bvor(c, bv(e->k[0]), bv(e->k[1]));
      case XOR: return Z3_mk_bvxor(c, bv(e->k[0]), bv(e->k[1]));
      case SHL: return Z3_mk_bvshl(c, bv(e->k[0]), bv(e->k[1]));
      case LSHR: return Z3_mk_bvlshr(c, bv(e->k[0]), bv(e->k[1]));
      case ASHR: return Z3_mk_bvashr(c, bv(e->k[0]), bv(e->k[1]));
      case EQ: return b2v(Z3_mk_eq(c, bv(e->k[0]), bv(e->k[1])));
      case ULT: return b2v(Z3_mk_bvult(c, bv(e->k[0]), bv(e->k[1])));
      case SLT: return b2v(Z3_mk_bvslt(c, bv(e->k[0]), bv(e->k[1])));
      case NOT: return Z3_mk_bvnot(c, bv(e->k[0]));
      case ITE: return Z3_mk_ite(c, v2b(bv(e->k[0])), bv(e->k[1]), bv(e->k[2]));
      case SEXT: return Z3_mk_sign_ext(c, w - e->k[0]->w, bv(e->k[0]));
      case CONCAT: { Z3_ast r = bv(e->k[0]); for (unsigned i = 1; i < e->nk; i++) r = Z3_mk_concat(c, r, bv(e->k[i])); return r; }
      case EXTRACT: return Z3_mk_extract(c, e->aux + w - 1, e->aux, bv(e->k[0]));
      case APX: case APXB: {
        auto &p = X.apx[e->aux]; E L = e->k[0]; unsigned n = std::max<unsigned>(L->w, bitlenU((U)L->hi) + bitlenU(p.M)) + 1;
        Z3_ast x = zx(bv(L), L->w, n); if (p.s1) x = Z3_mk_bvlshr(c, x, num(n, p.s1));
        Z3_ast q = Z3_mk_bvlshr(c, Z3_mk_bvmul(c, x, num(n, p.M)), num(n, p.s2)); 
        if (e->op == APX) return zx(q, n, w);
        return b2v(Z3_mk_not(c, Z3_mk_eq(c, q, zx(quot(L, p.K), L->w, n)))); }
      case TABLE: { auto &v = X.tables[e->aux].v; unsigned bits = 0; while (((size_t)1 << bits) < v.size()) bits++; Z3_ast idx = bv(e->k[0]); if (bits > e->k[0]->w) { idx = zx(idx, e->k[0]->w, bits); } return mux(v, w, idx, bits, 0); }
    }
    abort();
  }
  // division definitions and variable ranges reachable from an expression
  void collect(E e, std::unordered_set<E> &seen, std::vector<Z3_ast> &out) {
    if (e->op == CONST || !seen.insert(e).second) return;
    if (e->op == VAR) {
      unsigned n = vwidth[e->aux]; U lo = toU(e->lo, n), hi = toU(e->hi, n); Z3_ast v = var(e->aux);
      if (e->lo < 0) { out.push_back(Z3_mk_bvsle(c, num(n, lo), v)); out.push_back(Z3_mk_bvsle(c, v, num(n, hi))); return; }
      if (lo) out.push_back(Z3_mk_bvule(c, num(n, lo), v));
      if (hi != maskU(n)) out.push_back(Z3_mk_bvule(c, v, num(n, hi)));
      return;
    }
    for (unsigned i = 0; i < e->nk; i++) collect(e->k[i], seen, out);
    if (e->op == APXB || ((e->op == UDIV || e->op == UREM) && isC(e->k[1]) && e->k[1]->val)) {
      E key = intern(UDIV, e->k[0]->w, 77, {e->k[0], mkConst(e->k[0]->w, e->op == APXB ? X.apx[e->aux].K : e->k[1]->val)}, nullptr, 0, 0, pow2I(e->k[0]->w) - 1);
      if (seen.insert(key).second) { auto it = sides.find(key); if (it != sides.end()) out.push_back(it->second.def); }
    }
  }
  static void varIds(E e, std::unordered_set<E> &seen, std::set<unsigned> &ids);

  std::string cvcPath = "cvc5", cvcOpt = "--solve-bv-as-int=sum";
  R runCvc(Z3_solver s, int secs) {
    ncvc++;
    std::string f = "/tmp/sxq." + std::to_string(getpid()) + ".smt2";
    FILE *o = fopen(f.c_str(), "w"); fprintf(o, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(c, s)); fclose(o);
    std::string cmd = cvcPath + " -q --tlimit=" + std::to_string(secs * 1000) + " " + cvcOpt + " " + f + " 2>/dev/null";
    FILE *p = popen(cmd.c_str(), "r"); char b[64] = ""; if (p) { if (!fgets(b, sizeof b, p)) b[0] = 0; pclose(p); }
    unlink(f.c_str());
    if (!strncmp(b, "unsat", 5)) return UNSAT;
    return UNK;      // a sat answer without a model is not used
  }

  R check(const std::vector<E> &cs0, std::vector<std::pair<unsigned, U>> &model, bool hard) {
    std::vector<E> cs = cs0; std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; }); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::vector<unsigned> key; uint64_t h = 1469598103934665603ULL; for (E e : cs) { key.push_back(e->id); h = (h ^ e->id) * 1099511628211ULL; }
    for (auto &p : cache[h]) if (p.first == key && (p.second.first != UNK || !hard)) { ncache++; model = p.second.second; return p.second.first; }
    double t0 = now(); nq++;
    std::vector<Z3_ast> as; for (E e : cs) as.push_back(v2b(bv(e)));
    std::unordered_set<E> seen; for (E e : cs) collect(e, seen, as);
    R r = UNK;
    Z3_solver s = nullptr; 
    for (int att = 0; att < (hard ? 2 : 1) && r == UNK; att++) {
      if (s) Z3_solver_dec_ref(c, s);
      s = att == 0 ? Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")) : Z3_mk_solver(c); Z3_solver_inc_ref(c, s);
      Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), cap(att == 0 ? (hard ? tmoSlow : tmoFast) : tmoFast)); Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
      for (Z3_ast a : as) Z3_solver_assert(c, s, a);
      if (att == 1 && useCvc) { r = runCvc(s, std::max(1, cap(tmoSlow) / 1000)); if (r != UNK) break; }
      Z3_lbool b = Z3_solver_check(c, s);
      r = b == Z3_L_TRUE ? SAT : b == Z3_L_FALSE ? UNSAT : UNK;
    }
    model.clear();
    if (r == SAT) {
      Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
      for (E e : seen) if (e->op == VAR) {
        Z3_ast v; if (!Z3_model_eval(c, m, var(e->aux), true, &v)) abort();
        const char *d = Z3_get_numeral_string(c, v); U x = 0; for (; *d; d++) x = x * 10 + (*d - '0');
        unsigned n = vwidth[e->aux]; if (e->lo < 0 && n < e->w && ((x >> (n - 1)) & 1)) x = toU(sgn(x, n), e->w);
        model.push_back({e->aux, x});
      }
      Z3_model_dec_ref(c, m);
    }
    Z3_solver_dec_ref(c, s);
    if (r == UNK) nunk++;
    double d = now() - t0; t += d; if (d > tmax) tmax = d;
    if (getenv("SX_SLOWQ") && d > atof(getenv("SX_SLOWQ"))) { fprintf(stderr, "slow query %.2fs r=%d\n", d, r); for (E e : cs) fprintf(stderr, "   %s\n", show(e, 12).c_str()); }
    cache[h].push_back({key, {r, model}});
    return r;
  }
};
