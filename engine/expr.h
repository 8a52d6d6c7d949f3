// Hash-consed expression DAG: bit-vectors (w>=1; w==1 is Bool in z3) and exact Reals (w==0).
#pragma once
#include <cstdint>
#include <vector>
#include <unordered_map>
#include <string>
#include <cstring>
#include <cassert>
#include <algorithm>
enum Op : uint8_t {
  OConst, OVar, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
  OEq, OUlt, OUle, OSlt, OSle, OIte, OZExt, OSExt, OExtract, OConcat,
  RConst, RVar, RAdd, RSub, RMul, RDiv, RLt, RLe, REq
};
struct Expr {
  Op op; uint8_t w; bool hasReal; uint32_t id; uint64_t c; // c: const / var id / extract low bit ; RConst: double bits
  const Expr *k[3]; int nk;
  std::vector<uint32_t> vars; // sorted distinct var ids
  mutable void *z3ast = nullptr;
  double dbl() const { double d; memcpy(&d, &c, 8); return d; }
};
typedef const Expr *E;
static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct Key { Op op; uint8_t w; uint64_t c; E k[3];
  bool operator==(const Key &o) const { return op == o.op && w == o.w && c == o.c && k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2]; } };
struct KeyH { size_t operator()(const Key &k) const { uint64_t h = k.op * 1000003ull + k.w; auto mix = [&](uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
  mix(k.c); mix((uint64_t)k.k[0]); mix((uint64_t)k.k[1]); mix((uint64_t)k.k[2]); return h; } };
struct VarInfo { std::string name; uint8_t w; };
struct Pool {
  std::unordered_map<Key, E, KeyH> tab; std::vector<VarInfo> vars; uint32_t nid = 0;
  std::vector<E> varE;
  E mk(Op op, uint8_t w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr) {
    Key key{op, w, c, {a, b, d}};
    auto it = tab.find(key); if (it != tab.end()) return it->second;
    Expr *e = new Expr; e->op = op; e->w = w; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->id = nid++;
    e->nk = d ? 3 : b ? 2 : a ? 1 : 0; e->hasReal = (w == 0);
    if (op == OVar || op == RVar) e->vars.push_back((uint32_t)c);
    for (int i = 0; i < e->nk; i++) { if (e->k[i]->hasReal) e->hasReal = true;
      if (e->vars.empty()) e->vars = e->k[i]->vars; else if (!e->k[i]->vars.empty() && e->vars != e->k[i]->vars) { std::vector<uint32_t> r; std::set_union(e->vars.begin(), e->vars.end(), e->k[i]->vars.begin(), e->k[i]->vars.end(), std::back_inserter(r)); e->vars.swap(r); } }
    tab[key] = e; return e;
  }
  E con(uint64_t v, unsigned w) { return mk(OConst, w, v & maskw(w)); }
  E rcon(double d) { uint64_t b; if (d == 0) d = 0.0; memcpy(&b, &d, 8); return mk(RConst, 0, b); }
  E var(const std::string &n, unsigned w) { vars.push_back({n, (uint8_t)w}); E e = mk(w ? OVar : RVar, w, vars.size() - 1); varE.push_back(e); return e; }
  static bool isC(E e) { return e->op == OConst; }
  static uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w, bool &ok) {
    ok = true; uint64_t m = maskw(w);
    switch (op) {
    case OAdd: return (a + b) & m; case OSub: return (a - b) & m; case OMul: return (a * b) & m;
    case OUDiv: if (!b) { ok = false; return 0; } return a / b;
    case OURem: if (!b) { ok = false; return 0; } return a % b;
    case OSDiv: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y || (x == INT64_MIN && y == -1)) { ok = false; return 0; } return (uint64_t)(x / y) & m; }
    case OSRem: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y || (x == INT64_MIN && y == -1)) { ok = false; return 0; } return (uint64_t)(x % y) & m; }
    case OAnd: return a & b; case OOr: return a | b; case OXor: return a ^ b;
    case OShl: return b >= w ? 0 : (a << b) & m; case OLShr: return b >= w ? 0 : a >> b;
    case OAShr: { int64_t x = sextw(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
    case OEq: return a == b; case OUlt: return a < b; case OUle: return a <= b;
    case OSlt: return sextw(a, w) < sextw(b, w); case OSle: return sextw(a, w) <= sextw(b, w);
    default: ok = false; return 0; }
  }
  bool constTree(E e, int d) { return isC(e) || (d > 0 && e->op == OIte && constTree(e->k[1], d - 1) && constTree(e->k[2], d - 1)); }
  E bin(Op op, E a, E b) {
    unsigned w = a->w; assert(w == b->w && w > 0);
    bool cmp = op >= OEq && op <= OSle; unsigned rw = cmp ? 1 : w;
    if (isC(a) && isC(b)) { bool ok; uint64_t r = foldBin(op, a->c, b->c, w, ok); if (ok) return con(r, rw); }
    bool comm = op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    if (w > 1 && a->hasReal && a->op == OIte && isC(b) && constTree(a, 6)) return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
    if (w > 1 && b->hasReal && b->op == OIte && isC(a) && constTree(b, 6)) return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
    if (w > 1 && a->op == OZExt && a->hasReal && a->k[0]->w == 1 && isC(b)) return ite(a->k[0], bin(op, con(1, w), b), bin(op, con(0, w), b));
    if (isC(b)) {
      uint64_t c = b->c;
      switch (op) {
      case OAdd: if (!c) return a; if (a->op == OAdd && isC(a->k[1])) return bin(OAdd, a->k[0], con(a->k[1]->c + c, w)); break;
      case OSub: if (!c) return a; return bin(OAdd, a, con(-c, w));
      case OMul: if (c == 1) return a; if (!c) return b; break;
      case OAnd: if (!c) return b; if (c == maskw(w)) return a; break;
      case OOr: if (!c) return a; if (c == maskw(w)) return b; break;
      case OXor: if (!c) return a; if (w == 1 && a->op == OXor && isC(a->k[1])) return a->k[0]; break;
      case OShl: case OLShr: case OAShr: if (!c) return a; break;
      case OUDiv: case OSDiv: if (c == 1) return a; break;
      case OUlt: if (c == 0) return con(0, 1); break;
      case OUle: if (c == maskw(w)) return con(1, 1); break;
      case OEq:
        if (w == 1) return c ? a : notb(a);
        if (a->op == OZExt) { E x = a->k[0]; if (c > maskw(x->w)) return con(0, 1); return bin(OEq, x, con(c, x->w)); }
        if (a->op == OAdd && isC(a->k[1])) return bin(OEq, a->k[0], con(c - a->k[1]->c, w));
        if (a->op == OIte && isC(a->k[1]) && isC(a->k[2])) { bool t = a->k[1]->c == c, f = a->k[2]->c == c; if (t && f) return con(1, 1); if (t) return a->k[0]; if (f) return notb(a->k[0]); return con(0, 1); }
        break;
      default: break; }
    }
    if (a == b) switch (op) { case OSub: case OXor: return con(0, w); case OAnd: case OOr: return a; case OEq: case OUle: case OSle: return con(1, 1); case OUlt: case OSlt: return con(0, 1); default: break; }
    return mk(op, rw, 0, a, b);
  }
  E notb(E a) { if (isC(a)) return con(!a->c, 1); return bin(OXor, a, con(1, 1)); }
  E andb(E a, E b) { return bin(OAnd, a, b); }
  E orb(E a, E b) { return bin(OOr, a, b); }
  E ite(E c, E a, E b) { if (isC(c)) return c->c ? a : b; if (a == b) return a;
    if (a->w == 1) { if (isC(a) && isC(b)) return a->c ? c : notb(c); }
    return mk(OIte, a->w, 0, c, a, b); }
  E zext(E a, unsigned w) { if (a->w == w) return a; if (isC(a)) return con(a->c, w); if (a->op == OZExt) return mk(OZExt, w, 0, a->k[0]);
    if (a->op == OIte && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], con(a->k[1]->c, w), con(a->k[2]->c, w));
    return mk(OZExt, w, 0, a); }
  E sext(E a, unsigned w) { if (a->w == w) return a; if (isC(a)) return con((uint64_t)sextw(a->c, a->w), w); if (a->op == OZExt) return mk(OZExt, w, 0, a->k[0]); return mk(OSExt, w, 0, a); }
  E extract(E a, unsigned lo, unsigned w) { if (lo == 0 && a->w == w) return a; if (isC(a)) return con(a->c >> lo, w);
    if (a->op == OExtract) return extract(a->k[0], lo + (unsigned)a->c, w);
    if (a->op == OZExt) { E x = a->k[0]; if (lo >= x->w) return con(0, w); if (lo + w <= x->w) return extract(x, lo, w); if (lo == 0) return zext(x, w); }
    if (a->op == OSExt) { E x = a->k[0]; if (lo + w <= x->w) return extract(x, lo, w); if (lo == 0) return sext(x, w); }
    if (a->op == OConcat) { unsigned lw = a->k[1]->w; if (lo + w <= lw) return extract(a->k[1], lo, w); if (lo >= lw) return extract(a->k[0], lo - lw, w); }
    if (a->op == OIte && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], con(a->k[1]->c >> lo, w), con(a->k[2]->c >> lo, w));
    return mk(OExtract, w, lo, a); }
  E concat(E hi, E lo) { unsigned w = hi->w + lo->w; if (isC(hi) && isC(lo)) return con((hi->c << lo->w) | lo->c, w); if (isC(hi) && hi->c == 0) return zext(lo, w);
    if (hi->op == OExtract && lo->op == OExtract && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return extract(hi->k[0], (unsigned)lo->c, w);
    return mk(OConcat, w, 0, hi, lo); }
  // reals
  static bool rC(E e, double v) { return e->op == RConst && e->dbl() == v; }
  static bool exactOp(Op op, double a, double b, double &r) { // fold only if exact in double
    if (op == RAdd) { r = a + b; double bb = r - a; double err = (a - (r - bb)) + (b - bb); return err == 0 && r - r == 0; }
    if (op == RSub) return exactOp(RAdd, a, -b, r);
    if (op == RMul) { r = a * b; if (!(r - r == 0)) return false; if (r == 0) return a == 0 || b == 0; return __builtin_fma(a, b, -r) == 0 && (r > 1e-200 || r < -1e-200); }
    return false; }
  E rbin(Op op, E a, E b) {
    if (a->op == RConst && b->op == RConst) { double r; if (exactOp(op, a->dbl(), b->dbl(), r)) return rcon(r); }
    switch (op) {
    case RAdd: if (rC(a, 0)) return b; if (rC(b, 0)) return a; if (a->id > b->id) std::swap(a, b); break;
    case RSub: if (rC(b, 0)) return a; if (a == b) return rcon(0); break;
    case RMul: if (rC(a, 0) || rC(b, 0)) return rcon(0); if (rC(a, 1)) return b; if (rC(b, 1)) return a; if (a->id > b->id) std::swap(a, b); break;
    case RDiv: if (rC(b, 1)) return a; if (rC(a, 0)) return a; break;
    default: break; }
    return mk(op, 0, 0, a, b); }
  E rcmpRaw(Op op, E a, E b) { if (a->op == RConst && b->op == RConst) return rcmp(op, a, b); return mk(op, 1, 0, a, b); } // kept as written (defining axioms)
  int (*identHook)(E d) = nullptr; // sign of a constant difference (-1, 0, 1), 2 if not constant
  E (*cmpHook)(Op op, E a, E b) = nullptr; // rewrites comparisons with square roots
  E rcmp(Op op, E a, E b) {
    if (a->op == RConst && b->op == RConst) { double x = a->dbl(), y = b->dbl(); return con(op == RLt ? x < y : op == RLe ? x <= y : x == y, 1); }
    if (a == b) return con(op != RLt, 1);
    if (identHook && a->w == 0 && b->w == 0) { int g = identHook(rbin(RSub, a, b)); if (g != 2) return con(op == RLt ? g < 0 : op == RLe ? g <= 0 : g == 0, 1); }
    if (cmpHook && a->w == 0 && b->w == 0) { E r = cmpHook(op, a, b); if (r) return r; }
    return mk(op, 1, 0, a, b); }
};
