// Interval branch-and-prune for conjunctions over few bounded reals: boxes on which some conjunct is certainly false are discarded, a box on which all are
// certainly true is a solution, others are halved.  All arithmetic is rounded outwards, so both verdicts hold for exact reals.  Undecided within the budget: left to z3.
#pragma once
#include "solver.h"
#include <cfenv>
#include <map>
struct FnDef { std::string n; std::vector<E> a; };
static std::unordered_map<uint32_t, FnDef> fnDef;      // variable number -> the function value it stands for (sqrt, acos, ...)
static std::unordered_map<E, char> defAxiom;           // conjuncts implied by those definitions
struct Iv { double l, h; };
static double dn(double x) { return std::nextafter(x, -INFINITY); }
static double up(double x) { return std::nextafter(x, INFINITY); }
static Iv wide(double l, double h) { Iv r{dn(l), up(h)}; if (std::isnan(l)) r.l = -INFINITY; if (std::isnan(h)) r.h = INFINITY; return r; }
static Iv ivMul(Iv a, Iv b, bool sq) { auto m = [](double x, double y) { return x == 0 || y == 0 ? 0 : x * y; }; double p[4] = {m(a.l, b.l), m(a.l, b.h), m(a.h, b.l), m(a.h, b.h)}; double lo = p[0], hi = p[0]; for (double q : p) { if (q < lo) lo = q; if (q > hi) hi = q; } if (sq) { hi = std::max(m(a.l, a.l), m(a.h, a.h)); lo = a.l > 0 ? m(a.l, a.l) : a.h < 0 ? m(a.h, a.h) : 0; Iv r = wide(lo, hi); if (r.l < 0) r.l = 0; return r; } return wide(lo, hi); }
static Iv ivDiv(Iv a, Iv b) { if (b.l <= 0 && b.h >= 0) return {-INFINITY, INFINITY}; double p[4] = {a.l / b.l, a.l / b.h, a.h / b.l, a.h / b.h}; double lo = p[0], hi = p[0]; for (double q : p) { if (std::isnan(q)) return {-INFINITY, INFINITY}; if (q < lo) lo = q; if (q > hi) hi = q; } return wide(lo, hi); }
static Iv slack(double l, double h) { for (int i = 0; i < 8; i++) { l = dn(l); h = up(h); } l -= 1e-15; h += 1e-15; return {l, h}; }
static Iv ivTrig(Iv x, bool cosine) { const double pi = 3.14159265358979323846; if (!(x.h - x.l < 6) || fabs(x.l) > 1e4 || fabs(x.h) > 1e4) return {-1, 1}; double a = cosine ? cos(x.l) : sin(x.l), b = cosine ? cos(x.h) : sin(x.h); double lo = std::min(a, b), hi = std::max(a, b); double off = cosine ? 0 : pi / 2; // maxima at off + 2k pi, minima at off + pi + 2k pi
  auto hit = [&](double o) { double k = ceil((x.l - 1e-9 - o) / (2 * pi)); return o + k * 2 * pi <= x.h + 1e-9; }; if (hit(off)) hi = 1; if (hit(off + pi)) lo = -1; Iv r = slack(lo, hi); if (r.l < -1) r.l = -1; if (r.h > 1) r.h = 1; return r; }
static Iv ivOp(int op, Iv a, Iv b, bool same) { switch (op) { case RAdd: return wide(a.l + b.l, a.h + b.h); case RSub: if (same) return {0, 0}; return wide(a.l - b.h, a.h - b.l); case RMul: return ivMul(a, b, same); default: return ivDiv(a, b); } }
static Iv ivMulD(Iv a, Iv b) { if ((a.l == 0 && a.h == 0) || (b.l == 0 && b.h == 0)) return {0, 0}; return ivMul(a, b, false); }
static Iv ivFn(const std::string &f, Iv x) { Iv r{-INFINITY, INFINITY}; if (f == "sqrt") { r = {x.l > 0 ? dn(sqrt(x.l)) : 0, x.h > 0 ? up(sqrt(x.h)) : 0}; if (r.l < 0) r.l = 0; } else if (f == "acos") { double a = std::min(1.0, std::max(-1.0, x.h)), b = std::min(1.0, std::max(-1.0, x.l)); r = slack(acos(a), acos(b)); if (r.l < 0) r.l = 0; } else if (f == "asin") { double a = std::min(1.0, std::max(-1.0, x.l)), b = std::min(1.0, std::max(-1.0, x.h)); r = slack(asin(a), asin(b)); } else if (f == "atan") r = slack(atan(x.l), atan(x.h)); else if (f == "sin") r = ivTrig(x, false); else if (f == "cos") r = ivTrig(x, true); return r; }
// enclosure of the derivative of f over x (r = f(x)); unbounded where f is not differentiable throughout
static Iv ivFnD(const std::string &f, Iv x, Iv r) { Iv u{-INFINITY, INFINITY}; if (f == "sqrt") return x.l > 0 && r.l > 0 ? ivDiv({0.5, 0.5}, r) : u; if (f == "sin") return ivTrig(x, true); if (f == "cos") { Iv s = ivTrig(x, false); return {-s.h, -s.l}; } if (f == "atan") return ivDiv({1, 1}, ivOp(RAdd, {1, 1}, ivMul(x, x, true), false)); if (f == "asin" || f == "acos") { Iv q = ivOp(RSub, {1, 1}, ivMul(x, x, true), false); if (!(q.l > 0)) return u; Iv d = ivDiv({1, 1}, ivFn("sqrt", q)); return f == "asin" ? d : Iv{-d.h, -d.l}; } return u; }
static Iv ivAtan2(Iv y, Iv x) { const double ph = 3.14159265358979357; if (!(y.l > -INFINITY && y.h < INFINITY && x.l > -INFINITY && x.h < INFINITY)) return {-ph, ph}; if (y.l == 0) y.l = 0.0; if (y.h == 0) y.h = 0.0; if ((y.l < 0 && y.h >= 0 && x.l <= 0) || (y.l <= 0 && y.h >= 0 && x.l <= 0 && x.h >= 0)) return {y.l >= 0 ? 0 : -ph, ph};
  double c[4] = {atan2(y.l, x.l), atan2(y.l, x.h), atan2(y.h, x.l), atan2(y.h, x.h)}; double lo = c[0], hi = c[0]; for (double q : c) { lo = std::min(lo, q); hi = std::max(hi, q); } Iv r = slack(lo, hi); if (r.l < -ph) r.l = -ph; if (r.h > ph) r.h = ph; return r; }
struct Bnp {
  Pool &P; std::vector<E> nodes; std::unordered_map<E, int> ix; std::vector<int> conj; std::vector<uint32_t> freeV; std::vector<double> lo, hi; bool ok = true; uint64_t boxes = 0;
  struct Nd { E e; int k[3]; int var; const FnDef *fd; std::vector<int> fa; }; std::vector<Nd> nd; std::vector<Iv> iv; std::vector<signed char> tv; std::vector<char> kn; std::vector<uint64_t> bv; std::unordered_map<uint32_t, int> fidx; int nvar = 0; std::vector<Iv> mv, dv; std::vector<double> mid; std::vector<int> rep;  // rep: the node an if-then-else of known condition stands for
  // mean value forms: value at the midpoint, derivative over the box

  Bnp(Pool &p) : P(p) {}
  int add(E e, int dep = 0) { auto it = ix.find(e); if (it != ix.end()) return it->second; if (dep > 4000 || nodes.size() > 6000) { ok = false; return 0; } Nd n; n.e = e; n.var = -1; n.fd = nullptr; for (int i = 0; i < 3; i++) n.k[i] = -1; for (int i = 0; i < e->nk; i++) { n.k[i] = add(e->k[i], dep + 1); if (!ok) return 0; }
    if (e->op == OVar) { ok = false; return 0; } if (e->op == RVar) { auto d = fnDef.find((uint32_t)e->c); if (d != fnDef.end()) { n.fd = &d->second; for (E a : d->second.a) { n.fa.push_back(add(a, dep + 1)); if (!ok) return 0; } } else { auto f = fidx.find((uint32_t)e->c); if (f == fidx.end()) { fidx[(uint32_t)e->c] = n.var = freeV.size(); freeV.push_back((uint32_t)e->c); } else n.var = f->second; } }
    int i = nd.size(); nd.push_back(n); nodes.push_back(e); ix[e] = i; return i; }
  // tri-state: 1 true, 0 false, -1 unknown
  void eval(const std::vector<Iv> &box) { for (int j = 0; j < nvar; j++) mid[j] = box[j].l + (box[j].h - box[j].l) / 2;
    for (size_t i = 0; i < nd.size(); i++) { Nd &n = nd[i]; E e = n.e; const int *k = n.k;
      if (e->w == 0) { Iv r{-INFINITY, INFINITY}; switch (e->op) {
        case RConst: r = {e->dbl(), e->dbl()}; break;
        case RVar: if (n.var >= 0) r = box[n.var]; else if (n.fa.size() == 2) r = ivAtan2(iv[n.fa[0]], iv[n.fa[1]]); else r = ivFn(n.fd->n, iv[n.fa[0]]); break;
        case RAdd: case RSub: case RMul: case RDiv: r = ivOp(e->op, iv[k[0]], iv[k[1]], k[0] == k[1]); break;
        case OIte: r = tv[k[0]] == 1 ? iv[k[1]] : tv[k[0]] == 0 ? iv[k[2]] : Iv{std::min(iv[k[1]].l, iv[k[2]].l), std::max(iv[k[1]].h, iv[k[2]].h)}; break; default: break; }
        if (nvar) { Iv m = r; Iv *D = &dv[i * nvar]; bool fin = true; for (int j = 0; j < nvar; j++) D[j] = {-INFINITY, INFINITY};
          switch (e->op) { case RConst: for (int j = 0; j < nvar; j++) D[j] = {0, 0}; break;
            case RVar: if (n.var >= 0) { m = {mid[n.var], mid[n.var]}; for (int j = 0; j < nvar; j++) D[j] = j == n.var ? Iv{1, 1} : Iv{0, 0}; } else if (n.fa.size() == 2) { Iv Y = iv[n.fa[0]], X = iv[n.fa[1]]; m = ivAtan2(mv[n.fa[0]], mv[n.fa[1]]); bool cut = Y.l <= 0 && Y.h >= 0 && X.l <= 0; Iv q = ivOp(RAdd, ivMul(X, X, true), ivMul(Y, Y, true), false); if (!cut && q.l > 0) { Iv gy = ivDiv(X, q), gx = ivDiv(Y, q); gx = {-gx.h, -gx.l}; for (int j = 0; j < nvar; j++) D[j] = ivOp(RAdd, ivMulD(gy, dv[n.fa[0] * nvar + j]), ivMulD(gx, dv[n.fa[1] * nvar + j]), false); } } else { m = ivFn(n.fd->n, mv[n.fa[0]]); Iv g = ivFnD(n.fd->n, iv[n.fa[0]], r); for (int j = 0; j < nvar; j++) D[j] = ivMulD(g, dv[n.fa[0] * nvar + j]); } break;
            case RAdd: case RSub: m = ivOp(e->op, mv[k[0]], mv[k[1]], k[0] == k[1]); for (int j = 0; j < nvar; j++) D[j] = ivOp(e->op, dv[k[0] * nvar + j], dv[k[1] * nvar + j], k[0] == k[1]); break;
            case RMul: m = ivOp(RMul, mv[k[0]], mv[k[1]], k[0] == k[1]); for (int j = 0; j < nvar; j++) D[j] = ivOp(RAdd, ivMulD(dv[k[0] * nvar + j], iv[k[1]]), ivMulD(iv[k[0]], dv[k[1] * nvar + j]), false); break;
            case RDiv: m = ivOp(RDiv, mv[k[0]], mv[k[1]], false); for (int j = 0; j < nvar; j++) D[j] = ivDiv(ivOp(RSub, dv[k[0] * nvar + j], ivMulD(r, dv[k[1] * nvar + j]), false), iv[k[1]]); break;
            case OIte: if (tv[k[0]] >= 0) { int q = tv[k[0]] ? k[1] : k[2]; m = mv[q]; for (int j = 0; j < nvar; j++) D[j] = dv[q * nvar + j]; } break; default: break; }
          mv[i] = m; Iv t = m; for (int j = 0; j < nvar; j++) { if (!(D[j].l > -INFINITY && D[j].h < INFINITY)) fin = false; else t = ivOp(RAdd, t, ivMul(D[j], Iv{dn(box[j].l - mid[j]), up(box[j].h - mid[j])}, false), false); } if (fin) { if (t.l > r.l) r.l = t.l; if (t.h < r.h) r.h = t.h; } }
        iv[i] = r; rep[i] = e->op == OIte && tv[k[0]] >= 0 ? rep[tv[k[0]] ? k[1] : k[2]] : (int)i; continue; }
      if (e->w > 1) { kn[i] = 0; if (e->op == OConst) { kn[i] = 1; bv[i] = e->c; } else if (e->op == OIte) { if (tv[k[0]] >= 0) { int j = tv[k[0]] ? k[1] : k[2]; kn[i] = kn[j]; bv[i] = bv[j]; } else if (kn[k[1]] && kn[k[2]] && bv[k[1]] == bv[k[2]]) { kn[i] = 1; bv[i] = bv[k[1]]; } } else if (e->op == OZExt || e->op == OSExt) { if (e->k[0]->w == 1) { if (tv[k[0]] >= 0) { kn[i] = 1; bv[i] = !tv[k[0]] ? 0 : e->op == OZExt ? 1 : maskw(e->w); } } else if (kn[k[0]]) { kn[i] = 1; bv[i] = e->op == OZExt ? bv[k[0]] : (uint64_t)sextw(bv[k[0]], e->k[0]->w) & maskw(e->w); } } else if (e->op == OExtract && e->k[0]->w > 1 && kn[k[0]]) { kn[i] = 1; bv[i] = (bv[k[0]] >> e->c) & maskw(e->w); } else if (e->op == OConcat && e->k[0]->w > 1 && e->k[1]->w > 1 && kn[k[0]] && kn[k[1]]) { kn[i] = 1; bv[i] = (bv[k[0]] << e->k[1]->w | bv[k[1]]) & maskw(e->w); } else if (e->nk == 2 && e->k[0]->w > 1 && kn[k[0]] && kn[k[1]]) { bool o; uint64_t v = Pool::foldBin(e->op, bv[k[0]], bv[k[1]], e->w, o); if (o) { kn[i] = 1; bv[i] = v; } } continue; }
      signed char t = -1; if (e->nk == 2 && e->k[0]->w == 0 && rep[k[0]] == rep[k[1]]) { tv[i] = e->op == RLt ? 0 : 1; continue; }
      switch (e->op) {
        case OConst: t = e->c ? 1 : 0; break;
        case RLt: t = iv[k[0]].h < iv[k[1]].l ? 1 : iv[k[0]].l >= iv[k[1]].h ? 0 : -1; break; case RLe: t = iv[k[0]].h <= iv[k[1]].l ? 1 : iv[k[0]].l > iv[k[1]].h ? 0 : -1; break;
        case REq: t = iv[k[0]].h < iv[k[1]].l || iv[k[0]].l > iv[k[1]].h ? 0 : iv[k[0]].l == iv[k[0]].h && iv[k[1]].l == iv[k[1]].h && iv[k[0]].l == iv[k[1]].l ? 1 : -1; break;
        case OIte: t = tv[k[0]] == 1 ? tv[k[1]] : tv[k[0]] == 0 ? tv[k[2]] : tv[k[1]] == tv[k[2]] ? tv[k[1]] : -1; break;
        case OExtract: if (kn[k[0]]) t = bv[k[0]] >> e->c & 1; break;
        default: if (e->nk == 2) { if (e->k[0]->w == 1) { int a = tv[k[0]], b = tv[k[1]]; switch (e->op) { case OAnd: case OMul: t = a == 0 || b == 0 ? 0 : a == 1 && b == 1 ? 1 : -1; break; case OOr: t = a == 1 || b == 1 ? 1 : a == 0 && b == 0 ? 0 : -1; break; case OXor: case OAdd: case OSub: t = a < 0 || b < 0 ? -1 : a ^ b; break; case OEq: t = a < 0 || b < 0 ? -1 : a == b; break; default: break; } } else if (e->k[0]->w > 1 && kn[k[0]] && kn[k[1]]) { bool o; uint64_t v = Pool::foldBin(e->op, bv[k[0]], bv[k[1]], e->k[0]->w, o); if (o) t = v & 1; } } }
      tv[i] = t; } }
  // returns SAT / UNSAT / UNKNOWN; bounds of the free variables given by lo/hi maps
  Res run(const std::vector<E> &cs, const std::unordered_map<uint32_t, double> &L, const std::unordered_map<uint32_t, double> &H, uint64_t budget, Model &m, unsigned maxV) {
    for (E e : cs) { if (defAxiom.count(e)) continue; conj.push_back(add(e)); if (!ok) return UNKNOWN; } if (conj.empty() || freeV.empty() || freeV.size() > maxV) return UNKNOWN;
    std::vector<Iv> b0; for (uint32_t v : freeV) { uint32_t id = P.varE[v]->id; auto l = L.find(id), h = H.find(id); if (l == L.end() || h == H.end()) return UNKNOWN; b0.push_back({l->second, h->second}); }
    iv.resize(nd.size()); rep.resize(nd.size()); tv.resize(nd.size()); kn.resize(nd.size()); bv.resize(nd.size()); if (freeV.size() <= 2) { nvar = freeV.size(); mv.resize(nd.size()); dv.resize(nd.size() * nvar); mid.resize(nvar); } std::vector<std::vector<Iv>> st{b0}; bool lost = false; budget = budget < 1000 ? std::min<uint64_t>(budget, 4000000 / (nd.size() + 1) + 50) : std::min<uint64_t>(400000, (freeV.size() == 1 ? 12000000 : 8000000) / (nd.size() + 1) + 50);
    while (!st.empty()) { std::vector<Iv> b = st.back(); st.pop_back(); if (++boxes > budget) return UNKNOWN; bool bad = false; for (auto &x : b) if (x.l > x.h) bad = true; if (bad) continue; eval(b); bool all = true, no = false; for (int c : conj) { if (tv[c] == 0) { no = true; break; } if (tv[c] < 0) all = false; } if (no) continue;
      if (all) { std::vector<Iv> pt; for (auto &x : b) { double md = x.l + (x.h - x.l) / 2, w = x.h - x.l; if (w > 0) { int ex; frexp(w, &ex); double g = ldexp(1, ex - 4), z = nearbyint(md / g) * g; if (z >= x.l && z <= x.h) md = z; } pt.push_back({md, md}); } eval(pt); for (size_t i = 0; i < nd.size(); i++) if (nd[i].e->op == RVar) { MV v; v.d = nd[i].var >= 0 ? pt[nd[i].var].l : (iv[i].l + iv[i].h) / 2; m[(uint32_t)nd[i].e->c] = v; } return SAT; }
      int w = -1; double best = 0; for (size_t i = 0; i < b.size(); i++) { double x = (b[i].h - b[i].l) / (b0[i].h - b0[i].l + 1e-300); if (x > best) { best = x; w = i; } } if (w < 0 || best < 1e-12) { lost = true; if (st.size() > 200 || boxes > budget / 2) return UNKNOWN; continue; } double md = b[w].l + (b[w].h - b[w].l) * 0.49; if (!(md > b[w].l && md < b[w].h)) { lost = true; continue; } std::vector<Iv> c = b; b[w].h = md; c[w].l = md; st.push_back(b); st.push_back(c); }
    return lost ? UNKNOWN : UNSAT; }
};
