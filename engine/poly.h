// Normal form of real terms: Laurent polynomials with rational coefficients over atoms (variables, square roots,
// sines/cosines, quotients, conditional terms), reduced by sqrt(x)^2 = x and sin^2 = 1 - cos^2.
// Used to give equal arguments of sqrt/atan2/... one name, and to discharge identities before the solver is asked.
#pragma once
#include <map>
#include <memory>
#include <cmath>
#include <boost/multiprecision/cpp_int.hpp>
typedef boost::multiprecision::cpp_rational Rat;
typedef std::vector<std::pair<uint32_t, int>> Mono; // atom id, exponent (nonzero, may be negative)
typedef std::map<Mono, Rat> Poly;
typedef std::shared_ptr<Poly> PP;
static std::unordered_map<E, PP> polyMemo;
static std::unordered_map<uint32_t, PP> sqrtOf;       // atom -> radicand
static std::unordered_map<uint32_t, uint32_t> sinPair; // sine atom -> cosine atom
static std::unordered_map<uint32_t, E> atomE;
static const size_t POLYMAX = 600;
static bool polyAdd(Poly &r, const Poly &b, const Rat &f) { for (auto &t : b) { Rat &c = r[t.first]; c += f * t.second; if (c == 0) r.erase(t.first); } return r.size() <= POLYMAX; }
static Mono monoMul(const Mono &a, const Mono &b) { Mono r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]); else { int e = a[i].second + b[j].second; if (e) r.push_back({a[i].first, e}); i++; j++; } } return r; }
static PP polyMul(const Poly &a, const Poly &b);
static bool polyReduceInto(Poly &out, const Mono &m, const Rat &c, int depth) { if (depth > 12) return false; for (auto &p : m) { if (p.second < 2) continue; auto sq = sqrtOf.find(p.first); auto sp = sinPair.find(p.first); if (sq == sqrtOf.end() && sp == sinPair.end()) continue; Mono r2; for (auto &q : m) if (q.first != p.first) r2.push_back(q); else if (p.second - 2) r2.push_back({p.first, p.second - 2}); 
    Poly base; if (sq != sqrtOf.end()) base = *sq->second; else { base[Mono()] = 1; base[Mono{{sp->second, 2}}] = -1; } 
    for (auto &t : base) if (!polyReduceInto(out, monoMul(t.first, r2), t.second * c, depth + 1)) return false; return out.size() <= POLYMAX; }
  Rat &x = out[m]; x += c; if (x == 0) out.erase(m); return out.size() <= POLYMAX; }
static PP polyMul(const Poly &a, const Poly &b) { if (a.size() * b.size() > 4000) return nullptr; auto r = std::make_shared<Poly>(); for (auto &s : a) for (auto &t : b) if (!polyReduceInto(*r, monoMul(s.first, t.first), s.second * t.second, 0)) return nullptr; return r; }
static PP polyAtom(E e) { atomE[e->id] = e; auto r = std::make_shared<Poly>(); (*r)[Mono{{e->id, 1}}] = 1; return r; }
static PP polyOf(E e) { auto it = polyMemo.find(e); if (it != polyMemo.end()) return it->second; PP r; switch (e->op) {
  case RConst: if (std::isfinite(e->dbl())) { r = std::make_shared<Poly>(); if (e->dbl() != 0) (*r)[Mono()] = Rat(e->dbl()); } break;
  case RAdd: case RSub: { PP a = polyOf(e->k[0]), b = polyOf(e->k[1]); if (a && b) { r = std::make_shared<Poly>(*a); if (!polyAdd(*r, *b, e->op == RAdd ? 1 : -1)) r = nullptr; } break; }
  case RMul: { PP a = polyOf(e->k[0]), b = polyOf(e->k[1]); if (a && b) r = polyMul(*a, *b); break; }
  case RDiv: { PP a = polyOf(e->k[0]), b = polyOf(e->k[1]); if (a && b && b->size() == 1) { Poly inv; Mono m = b->begin()->first; for (auto &p : m) p.second = -p.second; inv[m] = 1 / b->begin()->second; r = polyMul(*a, inv); } else if (a && b && b->size() > 1) { std::string k; // x/y with a several-term denominator: x * (1/y), one atom per denominator
      static std::map<std::string, E> inv; for (auto &t : *b) { for (auto &p : t.first) k += std::to_string(p.first) + "^" + std::to_string(p.second) + "*"; k += t.second.str() + "+"; } E &q = inv[k]; if (!q) q = e->k[0]->op == RConst && e->k[0]->dbl() == 1 ? e : P.rbin(RDiv, P.rcon(1), e->k[1]); r = polyMul(*a, *polyAtom(q)); } break; }
  case RVar: r = polyAtom(e); break;
  default: if (e->w == 0) r = polyAtom(e); }
  if (polyMemo.size() > 400000) polyMemo.clear(); polyMemo[e] = r; return r; }
static std::string polyKey(E e) { PP p = polyOf(e); if (!p || p->size() > 200) return "#" + std::to_string(e->id); std::string k; for (auto &t : *p) { for (auto &q : t.first) k += std::to_string(q.first) + "^" + std::to_string(q.second) + "*"; k += t.second.str() + "+"; } return k; }
// constant value of a polynomial after clearing negative powers; returns 1 and sets sign if constant
static bool polyConst(E e, int &sign) { PP p = polyOf(e); if (!p) return false; if (p->empty()) { sign = 0; return true; } if (p->size() == 1 && p->begin()->first.empty()) { sign = p->begin()->second > 0 ? 1 : -1; return true; }
  std::map<uint32_t, int> neg; for (auto &t : *p) for (auto &q : t.first) if (q.second < 0) { int &n = neg[q.first]; n = std::max(n, -q.second); } if (neg.empty()) return false; Mono m; for (auto &n : neg) m.push_back({n.first, n.second}); Poly mp; mp[m] = 1; PP c = polyMul(*p, mp); if (c && c->empty()) { sign = 0; return true; } return false; }
// linear relaxation of a comparison (see Solver::trLin)
static Z3_ast linPoly(Solver &S, const Poly &p, bool &nl, int dep);
static Z3_ast linIte(Solver &S, E e, bool &nl, int dep) { PP a = polyOf(e->k[1]), b = polyOf(e->k[2]); if (!a || !b || dep > 8) return nullptr; Z3_ast x = linPoly(S, *a, nl, dep + 1), y = linPoly(S, *b, nl, dep + 1), g = S.trLin(e->k[0], nl); return Z3_mk_ite(S.c, g, x, y); }
static Z3_ast linPoly(Solver &S, const Poly &p, bool &nl, int dep) { Z3_context c = S.c; std::vector<Z3_ast> ts; Z3_sort R = Z3_mk_real_sort(c);
  for (auto &t : p) { Z3_ast q = Z3_mk_numeral(c, t.second.str().c_str(), R); if (!t.first.empty()) { Z3_ast v = nullptr; E at = t.first.size() == 1 && t.first[0].second == 1 ? atomE[t.first[0].first] : nullptr; if (at && at->op == RVar) v = S.tr(at); else if (at && at->op == OIte) v = linIte(S, at, nl, dep);
      if (!v) { nl = true; std::string k = "m"; bool even = true; for (auto &x : t.first) { k += "_" + std::to_string(x.first) + "^" + std::to_string(x.second); if (x.second % 2) even = false; } v = Z3_mk_const(c, Z3_mk_string_symbol(c, k.c_str()), R); if (even) S.linExtra.push_back(Z3_mk_ge(c, v, Z3_mk_numeral(c, "0", R)));
        Rat lo = 1, hi = 1; bool bnd = true; for (auto &x : t.first) { auto l = S.linLo.find(x.first), h = S.linHi.find(x.first); if (x.second < 0 || l == S.linLo.end() || h == S.linHi.end() || !std::isfinite(l->second) || !std::isfinite(h->second)) { bnd = false; break; } Rat a(l->second), b(h->second); for (int j = 0; j < x.second; j++) { Rat q4[4] = {lo * a, lo * b, hi * a, hi * b}; lo = *std::min_element(q4, q4 + 4); hi = *std::max_element(q4, q4 + 4); } }
        if (bnd) { S.linExtra.push_back(Z3_mk_ge(c, v, Z3_mk_numeral(c, lo.str().c_str(), R))); S.linExtra.push_back(Z3_mk_le(c, v, Z3_mk_numeral(c, hi.str().c_str(), R))); } }
      Z3_ast m[2] = {q, v}; q = Z3_mk_mul(c, 2, m); } ts.push_back(q); }
  return ts.empty() ? Z3_mk_numeral(c, "0", R) : ts.size() == 1 ? ts[0] : Z3_mk_add(c, ts.size(), ts.data()); }
static Z3_ast linAtom(Solver &S, E e, bool &nl) { PP a = polyOf(e->k[0]), b = polyOf(e->k[1]); if (!a || !b) return nullptr; Poly p = *a; if (!polyAdd(p, *b, -1)) return nullptr; Z3_context c = S.c; Z3_ast z = Z3_mk_numeral(c, "0", Z3_mk_real_sort(c)), s = linPoly(S, p, nl, 0); return e->op == RLt ? Z3_mk_lt(c, s, z) : e->op == RLe ? Z3_mk_le(c, s, z) : Z3_mk_eq(c, s, z); }
// comparisons with a square root: sqrt(x) < sqrt(y), L < sqrt(x), sqrt(x) < L become polynomial
static std::unordered_map<uint32_t, E> sqrtArg;
static bool rootFree(E e) { PP p = polyOf(e); if (!p || p->size() > 12) return false; for (auto &t : *p) for (auto &q : t.first) if (q.second < 0 || q.second > 2 || sqrtOf.count(q.first) || !atomE[q.first] || atomE[q.first]->op != RVar) return false; return true; }
static bool rootTree(E e, int d) { return e->op == RConst || sqrtArg.count(e->id) || (d > 0 && e->op == OIte && rootTree(e->k[1], d - 1) && rootTree(e->k[2], d - 1)); } // conditional choice among square roots and constants
// comparisons which are linear in one variable after cancellation: a bound on that variable
static E cmpBound(Op op, E a, E b) { if (b->op == RConst && a->op == RVar) return nullptr; if (a->op == RConst && b->op == RVar) return nullptr; PP pa = polyOf(a), pb = polyOf(b); if (!pa || !pb || pa->size() > 12 || pb->size() > 12) return nullptr; Poly p = *pa; if (!polyAdd(p, *pb, -1) || p.empty() || p.size() > 2) return nullptr; Rat c1 = 0, c0 = 0; uint32_t x = 0; for (auto &t : p) { if (t.first.empty()) c0 = t.second; else if (t.first.size() == 1 && t.first[0].second == 1 && c1 == 0) { x = t.first[0].first; c1 = t.second; } else return nullptr; } if (c1 == 0) return nullptr; E v = atomE[x]; if (!v || v->op != RVar) return nullptr; Rat r = -c0 / c1; double d = r.convert_to<double>(); if (!std::isfinite(d) || Rat(d) != r) return nullptr; E k = P.rcon(d); if (op == REq) return P.rcmpRaw(REq, v, k); return c1 > 0 ? P.rcmpRaw(op, v, k) : P.rcmpRaw(op, k, v); }
static E cmpSqrt(Op op, E a, E b) { E bd = cmpBound(op, a, b); if (bd) return bd; if ((a->op == OIte && rootTree(a, 40)) || (b->op == OIte && rootTree(b, 40))) { static std::map<std::tuple<int, uint32_t, uint32_t>, E> memo; if (memo.size() > 100000) memo.clear(); auto key = std::make_tuple((int)op, a->id, b->id); auto it = memo.find(key); if (it != memo.end()) return it->second; E r = a->op == OIte && rootTree(a, 40) ? P.ite(a->k[0], P.rcmp(op, a->k[1], b), P.rcmp(op, a->k[2], b)) : P.ite(b->k[0], P.rcmp(op, a, b->k[1]), P.rcmp(op, a, b->k[2])); return memo[key] = r; }
  auto i = sqrtArg.find(a->id), j = sqrtArg.find(b->id); bool ra = i != sqrtArg.end(), rb = j != sqrtArg.end(); E z = P.rcon(0); if (ra && rb) return P.rcmp(op, i->second, j->second);
  if (rb && rootFree(a)) { E q = P.rbin(RMul, a, a); if (op == REq) return P.andb(P.rcmp(RLe, z, a), P.rcmp(REq, q, j->second)); return P.orb(P.rcmp(RLt, a, z), P.rcmp(op, q, j->second)); }
  if (ra && rootFree(b)) { E q = P.rbin(RMul, b, b); return P.andb(P.rcmp(op == RLt ? RLt : RLe, z, b), P.rcmp(op, i->second, q)); }
  return nullptr; }
