#pragma once
#include "expr.h"
#include <z3.h>
#include <map>
#include <chrono>
#include <cstdio>
#include <cmath>
#include <unistd.h>
struct MV { uint64_t u = 0; double d = 0; };
typedef std::unordered_map<uint32_t, MV> Model;
enum Res { SAT, UNSAT, UNKNOWN };
struct Solver {
  Pool &P; Z3_context c; Z3_solver inc = nullptr; size_t incN = 0; std::unordered_map<uint32_t, Z3_ast> lit;
  unsigned timeoutMs = 4000; uint64_t nq = 0, nsat = 0, nunsat = 0, nunk = 0, ncache = 0; double tsol = 0;
  struct CE { Res r; Model m; };
  struct VH { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
  std::unordered_map<std::vector<uint32_t>, CE, VH> cache;
  std::vector<Z3_ast> varAst;
  static void onerr(Z3_context, Z3_error_code) {}
  Solver(Pool &p) : P(p) { Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); c = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(c, onerr); }
  Z3_ast keep(Z3_ast a) { return a; }
  Z3_ast rnum(double d) {
    int ex; double m = frexp(d, &ex); long long mi = (long long)ldexp(m, 53); ex -= 53; // d = mi * 2^ex
    char buf[64]; snprintf(buf, sizeof buf, "%lld", mi); Z3_sort R = Z3_mk_real_sort(c);
    Z3_ast n = Z3_mk_numeral(c, buf, R); if (ex == 0 || mi == 0) return n;
    while (ex < 0 && (mi & 1) == 0) { mi >>= 1; ex++; }
    snprintf(buf, sizeof buf, "%lld", mi); 
    // 2^|ex| as decimal string
    int e2 = ex < 0 ? -ex : ex; std::string p = "1"; for (int i = 0; i < e2; i++) { int carry = 0; for (int j = (int)p.size() - 1; j >= 0; j--) { int v = (p[j] - '0') * 2 + carry; p[j] = '0' + v % 10; carry = v / 10; } if (carry) p.insert(p.begin(), '0' + carry); }
    if (ex < 0) { std::string s = std::string(buf) + "/" + p; return Z3_mk_numeral(c, s.c_str(), R); }
    Z3_ast a[2] = {Z3_mk_numeral(c, buf, R), Z3_mk_numeral(c, p.c_str(), R)}; return Z3_mk_mul(c, 2, a); }
  Z3_ast tr(E e) {
    if (e->z3ast) return (Z3_ast)e->z3ast;
    Z3_ast k[3] = {0, 0, 0}; for (int i = 0; i < e->nk; i++) k[i] = tr(e->k[i]);
    Z3_ast r = 0; unsigned w = e->w; bool b1 = e->nk && e->k[0]->w == 1;
    switch (e->op) {
    case OConst: r = w == 1 ? (e->c ? Z3_mk_true(c) : Z3_mk_false(c)) : Z3_mk_unsigned_int64(c, e->c, Z3_mk_bv_sort(c, w)); break;
    case OVar: case RVar: { char nm[32]; snprintf(nm, sizeof nm, "v%u", (unsigned)e->c); r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), w == 0 ? Z3_mk_real_sort(c) : w == 1 ? Z3_mk_bool_sort(c) : Z3_mk_bv_sort(c, w)); break; }
    case OAdd: r = b1 ? Z3_mk_xor(c, k[0], k[1]) : Z3_mk_bvadd(c, k[0], k[1]); break;
    case OSub: r = b1 ? Z3_mk_xor(c, k[0], k[1]) : Z3_mk_bvsub(c, k[0], k[1]); break;
    case OMul: r = b1 ? Z3_mk_and(c, 2, k) : Z3_mk_bvmul(c, k[0], k[1]); break;
    case OUDiv: r = Z3_mk_bvudiv(c, k[0], k[1]); break; case OSDiv: r = Z3_mk_bvsdiv(c, k[0], k[1]); break;
    case OURem: r = Z3_mk_bvurem(c, k[0], k[1]); break; case OSRem: r = Z3_mk_bvsrem(c, k[0], k[1]); break;
    case OAnd: r = b1 ? Z3_mk_and(c, 2, k) : Z3_mk_bvand(c, k[0], k[1]); break;
    case OOr: r = b1 ? Z3_mk_or(c, 2, k) : Z3_mk_bvor(c, k[0], k[1]); break;
    case OXor: r = b1 ? (e->k[1]->op == OConst && e->k[1]->c ? Z3_mk_not(c, k[0]) : Z3_mk_xor(c, k[0], k[1])) : Z3_mk_bvxor(c, k[0], k[1]); break;
    case OShl: r = Z3_mk_bvshl(c, k[0], k[1]); break; case OLShr: r = Z3_mk_bvlshr(c, k[0], k[1]); break; case OAShr: r = Z3_mk_bvashr(c, k[0], k[1]); break;
    case OEq: r = Z3_mk_eq(c, k[0], k[1]); break;
    case OUlt: if (b1) { Z3_ast a[2] = {Z3_mk_not(c, k[0]), k[1]}; r = Z3_mk_and(c, 2, a); } else r = Z3_mk_bvult(c, k[0], k[1]); break;
    case OUle: r = b1 ? Z3_mk_implies(c, k[0], k[1]) : Z3_mk_bvule(c, k[0], k[1]); break;
    case OSlt: if (b1) { Z3_ast a[2] = {k[0], Z3_mk_not(c, k[1])}; r = Z3_mk_and(c, 2, a); } else r = Z3_mk_bvslt(c, k[0], k[1]); break;
    case OSle: r = b1 ? Z3_mk_implies(c, k[1], k[0]) : Z3_mk_bvsle(c, k[0], k[1]); break;
    case OIte: r = Z3_mk_ite(c, k[0], k[1], k[2]); break;
    case OZExt: r = b1 ? Z3_mk_ite(c, k[0], Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, w)), Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, w))) : Z3_mk_zero_ext(c, w - e->k[0]->w, k[0]); break;
    case OSExt: r = b1 ? Z3_mk_ite(c, k[0], Z3_mk_unsigned_int64(c, maskw(w), Z3_mk_bv_sort(c, w)), Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, w))) : Z3_mk_sign_ext(c, w - e->k[0]->w, k[0]); break;
    case OExtract: { Z3_ast x = Z3_mk_extract(c, (unsigned)e->c + w - 1, (unsigned)e->c, k[0]); r = w == 1 ? Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))) : x; break; }
    case OConcat: { auto bvize = [&](E q, Z3_ast a) { return q->w == 1 ? Z3_mk_ite(c, a, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)), Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1))) : a; };
      r = Z3_mk_concat(c, bvize(e->k[0], k[0]), bvize(e->k[1], k[1])); break; }
    case RConst: r = rnum(e->dbl()); break;
    case RAdd: r = Z3_mk_add(c, 2, k); break; case RSub: r = Z3_mk_sub(c, 2, k); break; case RMul: r = Z3_mk_mul(c, 2, k); break; case RDiv: r = Z3_mk_div(c, k[0], k[1]); break;
    case RLt: r = Z3_mk_lt(c, k[0], k[1]); break; case RLe: r = Z3_mk_le(c, k[0], k[1]); break; case REq: r = Z3_mk_eq(c, k[0], k[1]); break;
    }
    e->z3ast = keep(r); return r; }
  void getModel(Z3_solver s, const std::vector<uint32_t> &vars, Model &m) {
    Z3_model zm = Z3_solver_get_model(c, s); if (!zm) return; Z3_model_inc_ref(c, zm);
    for (uint32_t v : vars) { Z3_ast val = 0; MV mv; if (Z3_model_eval(c, zm, tr(P.varE[v]), true, &val) && val) { 
        unsigned w = P.vars[v].w;
        if (w == 0) { mv.d = strtod(Z3_get_numeral_decimal_string(c, val, 25), nullptr); }
        else if (w == 1) mv.u = Z3_get_bool_value(c, val) == Z3_L_TRUE;
        else { uint64_t u = 0; Z3_get_numeral_uint64(c, val, &u); mv.u = u; }
         } m[v] = mv; }
    Z3_model_dec_ref(c, zm); }
  void setTimeout(Z3_solver s, unsigned ms) { Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), ms); Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p); }
  // Linear relaxation of a formula: real comparisons become linear over the monomials of their polynomial normal form (each a free real, squares nonnegative).
  // Unsatisfiable relaxation => unsatisfiable formula; anything else is left to the nonlinear solver.
  Res (*bnpHook)(Solver &, const std::vector<E> &, uint64_t, Model &) = nullptr; uint64_t nbnp = 0;
  Z3_ast (*linHook)(Solver &, E, bool &nl) = nullptr; std::vector<Z3_ast> linExtra; std::unordered_map<uint32_t, double> linLo, linHi; // bounds of the variables, from the conjuncts
  void linVar(std::vector<E> st) { linLo.clear(); linHi.clear(); while (!st.empty()) { E q = st.back(); st.pop_back(); if (q->op == OAnd && q->w == 1) { st.push_back(q->k[0]); st.push_back(q->k[1]); continue; } E x0, x1; if (q->op == OXor && q->w == 1 && q->k[1]->op == OConst && q->k[1]->c && (q->k[0]->op == RLt || q->k[0]->op == RLe)) { x0 = q->k[0]->k[1]; x1 = q->k[0]->k[0]; } else if (q->op == RLe || q->op == RLt) { x0 = q->k[0]; x1 = q->k[1]; } else continue; if (x0->op == RConst && x1->op == RVar) { auto i = linLo.find(x1->id); double d = x0->dbl(); if (i == linLo.end() || i->second < d) linLo[x1->id] = d; } else if (x1->op == RConst && x0->op == RVar) { auto i = linHi.find(x0->id); double d = x1->dbl(); if (i == linHi.end() || i->second > d) linHi[x0->id] = d; } } }
  Z3_ast trLin(E e, bool &nl) { if (!e->hasReal) return tr(e); if (e->op == RLt || e->op == RLe || e->op == REq) { Z3_ast r = linHook(*this, e, nl); return r ? r : tr(e); }
    if (e->w != 1) return tr(e);
    if (e->op == OIte) return Z3_mk_ite(c, trLin(e->k[0], nl), trLin(e->k[1], nl), trLin(e->k[2], nl));
    if (e->nk == 2 && e->k[0]->w == 1) { Z3_ast k[2] = {trLin(e->k[0], nl), trLin(e->k[1], nl)}; if (e->op == OAnd) return Z3_mk_and(c, 2, k); if (e->op == OOr) return Z3_mk_or(c, 2, k); if (e->op == OXor) return Z3_mk_xor(c, k[0], k[1]); if (e->op == OEq) return Z3_mk_eq(c, k[0], k[1]); }
    return tr(e); }
  // Decide the conjunction of cs.  model (if non-null) receives values for all vars of cs when SAT.
  Res check(std::vector<E> cs, Model *m, unsigned tmo = 0) {
    std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; }); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::vector<uint32_t> key; bool real = false, bv = false;
    std::vector<E> k2; for (E e : cs) { if (e->op == OConst) { if (!e->c) return UNSAT; continue; } key.push_back(e->id); k2.push_back(e); if (e->hasReal) real = true; }
    if (k2.empty()) return SAT;
    auto it = cache.find(key); if (it != cache.end() && (it->second.r != UNKNOWN || tmo <= timeoutMs)) { ncache++; if (m && it->second.r == SAT) for (auto &p : it->second.m) (*m)[p.first] = p.second; return it->second.r; }
    std::vector<uint32_t> vars; for (E e : k2) { std::vector<uint32_t> r; std::set_union(vars.begin(), vars.end(), e->vars.begin(), e->vars.end(), std::back_inserter(r)); vars.swap(r); }
    for (auto v : vars) if (P.vars[v].w > 1) bv = true;
    if (real && vars.size() == 1 && P.vars[vars[0]].w == 0) { double lo = -INFINITY, hi = INFINITY; bool ls = false, hs = false, ok = true; // only bounds of one variable: intersect the intervals
      std::vector<E> st = k2; while (ok && !st.empty()) { E q = st.back(); st.pop_back(); bool neg = false; if (q->op == OAnd && q->w == 1) { st.push_back(q->k[0]); st.push_back(q->k[1]); continue; } if (q->op == OXor && q->w == 1 && q->k[1]->op == OConst && q->k[1]->c) { neg = true; q = q->k[0]; } if (q->op == REq && !neg) { E x = q->k[0], y = q->k[1]; if (x->op == RConst) std::swap(x, y); if (x->op != RVar || y->op != RConst) { ok = false; break; } double d = y->dbl(); if (d > lo) { lo = d; ls = false; } if (d < hi) { hi = d; hs = false; } continue; }
        if (q->op != RLt && q->op != RLe) { ok = false; break; } E x = q->k[0], y = q->k[1]; bool strict = q->op == RLt; if (neg) { std::swap(x, y); strict = !strict; } if (x->op == RVar && y->op == RConst) { double d = y->dbl(); if (d < hi || (d == hi && strict)) { hi = d; hs = strict; } } else if (y->op == RVar && x->op == RConst) { double d = x->dbl(); if (d > lo || (d == lo && strict)) { lo = d; ls = strict; } } else ok = false; }
      if (ok) { nq++; CE ce; if (lo > hi || (lo == hi && (ls || hs))) ce.r = UNSAT; else { ce.r = SAT; double v = std::isfinite(lo) && std::isfinite(hi) ? lo + (hi - lo) / 2 : std::isfinite(lo) ? lo + 1 : std::isfinite(hi) ? hi - 1 : 0; if ((v > lo || !ls) && (v < hi || !hs) && v >= lo && v <= hi) ce.m[vars[0]].d = v; else ok = false; } if (ok) { (ce.r == SAT ? nsat : nunsat)++; if (m && ce.r == SAT) (*m)[vars[0]] = ce.m[vars[0]]; Res r = ce.r; cache[key] = std::move(ce); return r; } } }
    auto t0 = std::chrono::steady_clock::now(); nq++; Z3_lbool lb; CE ce; unsigned T = tmo ? tmo : timeoutMs;
    if (!real) {
      if (!inc || incN > 4000) { if (inc) Z3_solver_dec_ref(c, inc); lit.clear(); inc = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, inc); incN = 0; setTimeout(inc, T * 8); }
      std::vector<Z3_ast> as; for (E e : k2) { auto l = lit.find(e->id); if (l == lit.end()) { char nm[32]; snprintf(nm, sizeof nm, "p%u", e->id); Z3_ast p = keep(Z3_mk_const(c, Z3_mk_string_symbol(c, nm), Z3_mk_bool_sort(c))); Z3_solver_assert(c, inc, Z3_mk_implies(c, p, tr(e))); l = lit.emplace(e->id, p).first; incN++; } as.push_back(l->second); }
      lb = Z3_solver_check_assumptions(c, inc, as.size(), as.data());
      if (lb == Z3_L_TRUE) getModel(inc, vars, ce.m);
    } else {
      lb = Z3_L_UNDEF; linVar(k2); if (bnpHook) { Res br = bnpHook(*this, k2, 500, ce.m); if (br != UNKNOWN) { lb = br == SAT ? Z3_L_TRUE : Z3_L_FALSE; nbnp++; } }
      if (lb == Z3_L_UNDEF && linHook) { bool nl = false; Z3_solver s = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, s); setTimeout(s, T < 1500 ? T : 1500); linExtra.clear(); for (E e : k2) Z3_solver_assert(c, s, trLin(e, nl)); for (Z3_ast a : linExtra) Z3_solver_assert(c, s, a); if (nl) { lb = Z3_solver_check(c, s); if (lb == Z3_L_TRUE) lb = Z3_L_UNDEF; } Z3_solver_dec_ref(c, s); }
      if (lb == Z3_L_UNDEF && bnpHook) { Res br = bnpHook(*this, k2, 20000, ce.m); if (br != UNKNOWN) { lb = br == SAT ? Z3_L_TRUE : Z3_L_FALSE; nbnp++; } }
      if (lb == Z3_L_UNDEF) { Z3_solver s = bv ? Z3_mk_simple_solver(c) : Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_NRA")); Z3_solver_inc_ref(c, s); setTimeout(s, T);
      for (E e : k2) Z3_solver_assert(c, s, tr(e));
      auto t1 = std::chrono::steady_clock::now(); lb = Z3_solver_check(c, s); if (lb == Z3_L_TRUE) getModel(s, vars, ce.m); if (getenv("SYMEX_SLOW") && std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count() > 1) { static int n; char f[99]; snprintf(f, sizeof f, "%s_%d_%d.smt2", getenv("SYMEX_SLOW"), getpid(), n++); FILE *o = fopen(f, "w"); fprintf(o, "; %d\n%s\n(check-sat)\n", lb, Z3_solver_to_string(c, s)); fclose(o); }
      Z3_solver_dec_ref(c, s); }
    }
    tsol += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    ce.r = lb == Z3_L_TRUE ? SAT : lb == Z3_L_FALSE ? UNSAT : UNKNOWN; (ce.r == SAT ? nsat : ce.r == UNSAT ? nunsat : nunk)++;
    if (cache.size() > 200000) cache.clear();
    if (m && ce.r == SAT) for (auto &p : ce.m) (*m)[p.first] = p.second;
    Res r = ce.r; cache[key] = std::move(ce); return r; }
};
