#include <complex>
// modelled library functions and the harness API
static std::map<std::string, E> ufCache; // uninterpreted real functions, keyed by name and argument expression ids
static std::string argStr(State &s, Val v) { std::string r; bool sy; if (v.e || !v.c) return "?"; readStr(s, v.c, r, sy); return r; }
static void retAgg(State &s, const Inst &i, const std::vector<Val> &v) { Frame &g = s.st.back(); for (size_t k = 0; k < v.size(); k++) g.r[i.dst + k] = v[k]; g.pc++; }
static long nIdent;
// upper bound of |polynomial| from the interval constraints on its atoms
static bool polyBnd(const Poly &p, std::map<uint32_t, double> &bv, double &out, int dep) { out = 0; if (dep > 4) return false; for (auto &t : p) { double m = fabs(t.second.convert_to<double>()); for (auto &q : t.first) { if (q.second < 0) return false; double b; auto it = bv.find(q.first); if (it != bv.end()) b = it->second; else { auto sq = sqrtOf.find(q.first); if (sq == sqrtOf.end() || !polyBnd(*sq->second, bv, b, dep + 1)) return false; b = sqrt(b) * (1 + 1e-12); bv[q.first] = b; } m *= pow(b, q.second); } out += m; } out *= 1 + 1e-9; return true; }
static bool polyBound(State &s, E d, double &out) { PP p = polyOf(d); if (!p) return false; std::map<uint32_t, double> lo, hi, bv; for (auto &sp : sinPair) bv[sp.first] = bv[sp.second] = 1; 
  std::vector<E> st(s.pc.begin(), s.pc.end()); while (!st.empty()) { E q = st.back(); st.pop_back(); if (q->op == OAnd && q->w == 1) { st.push_back(q->k[0]); st.push_back(q->k[1]); continue; } E x0, x1; if (q->op == OXor && q->w == 1 && q->k[1]->op == OConst && (q->k[0]->op == RLt || q->k[0]->op == RLe)) { x0 = q->k[0]->k[1]; x1 = q->k[0]->k[0]; } else if (q->op == RLe || q->op == RLt) { x0 = q->k[0]; x1 = q->k[1]; } else continue; if (x0->op == RConst && x1->op == RVar) { auto i = lo.find(x1->id); double c = x0->dbl(); if (i == lo.end() || i->second < c) lo[x1->id] = c; } else if (x1->op == RConst && x0->op == RVar) { auto i = hi.find(x0->id); double c = x1->dbl(); if (i == hi.end() || i->second > c) hi[x0->id] = c; } }
  for (auto &l : lo) { auto h = hi.find(l.first); if (h != hi.end()) { double b = std::max(fabs(l.second), fabs(h->second)); auto i = bv.find(l.first); if (i == bv.end() || i->second > b) bv[l.first] = b; } } return polyBnd(*p, bv, out, 0); }
static bool assumeC(State &s, E c) { if (c->op == OConst) { if (!c->c) { killReasons["assume"]++; dead = true; return false; } return true; } uint64_t mv; if (!c->hasReal && modelEval(s, c, mv) && mv) { addC(s, c, nullptr); return true; } MMap m; Res r = feasible(s, c, &m, c->hasReal ? assertTmo : 0); if (r == UNSAT) { killReasons["assume"]++; dead = true; return false; } if (r == UNKNOWN) s.unk = true; addC(s, c, r == SAT ? &m : nullptr); return true; }
// exact square root of a rational, if it has one
static bool ratSqrt(const Rat &q, double &num, double &den) { using boost::multiprecision::cpp_int; cpp_int n = boost::multiprecision::numerator(q), d = boost::multiprecision::denominator(q); if (n < 0) return false; cpp_int a = boost::multiprecision::sqrt(n), b = boost::multiprecision::sqrt(d); if (a * a != n || b * b != d) return false; num = a.convert_to<double>(); den = b.convert_to<double>(); return cpp_int(num) == a && cpp_int(den) == b; }
// p = (c1 x1 + c2 x2 + ... )^2 with rational coefficients: the linear form, as a term
static E polyToE(const Poly &p) { E r = P.rcon(0); for (auto &t : p) { boost::multiprecision::cpp_int n = boost::multiprecision::numerator(t.second), d = boost::multiprecision::denominator(t.second); double dn = n.convert_to<double>(), dd = d.convert_to<double>(); if (boost::multiprecision::cpp_int(dn) != n || boost::multiprecision::cpp_int(dd) != d) return nullptr; E m = P.rcon(dn); if (dd != 1) m = P.rbin(RDiv, m, P.rcon(dd)); for (auto &q : t.first) { if (q.second < 0) return nullptr; for (int j = 0; j < q.second; j++) m = P.rbin(RMul, m, atomE[q.first]); } r = P.rbin(RAdd, r, m); } return r; }
static E linSqrt(const Poly &p) { if (p.size() < 2 || p.size() > 60) return nullptr; for (auto &t : p) { if (t.first.size() != 1 || t.first[0].second != 2) continue; double n, d; if (!ratSqrt(t.second, n, d)) return nullptr; Rat a1 = Rat(n) / Rat(d); uint32_t x1 = t.first[0].first; Poly l; for (auto &u : p) { Mono rest; bool has = false; for (auto &q : u.first) if (q.first == x1) { has = true; if (q.second > 1) rest.push_back({x1, q.second - 1}); } else rest.push_back(q); if (!has) continue; Rat c = u.first == t.first ? a1 : u.second / (2 * a1); l[rest] += c; } PP sq = polyMul(l, l); if (!sq || *sq != p) return nullptr; return polyToE(l); } return nullptr; }
static E absE(State &s, E at) { E c = P.rcmp(RLe, P.rcon(0), at), n = P.rbin(RSub, P.rcon(0), at); if (c->op == OConst) return c->c ? at : n; if (feasible(s, P.notb(c), nullptr, 500) == UNSAT) return at; if (feasible(s, P.rcmp(RLt, P.rcon(0), at), nullptr, 500) == UNSAT) return n; return P.ite(c, at, n); }
static E sqrtE(State &s, E x) { PP px = polyOf(x); if (px && px->size() > 1) { E l = linSqrt(*px); if (l) return absE(s, l); } if (px && px->size() == 1) { auto &t = *px->begin(); bool even = true; for (auto &q : t.first) if (q.second % 2) even = false; double n, d; if (even && ratSqrt(t.second, n, d)) { E r = P.rcon(n); if (d != 1) r = P.rbin(RDiv, r, P.rcon(d)); for (auto &q : t.first) { E at = atomE[q.first], ab = absE(s, at); int h = q.second / 2, m = h < 0 ? -h : h; E f = (m % 2) ? ab : at; E w = f; for (int j = 1; j < m; j++) w = P.rbin(RMul, w, f); r = P.rbin(h < 0 ? RDiv : RMul, r, w); } return r; } }
  std::string k = "sqrt" + polyKey(x); auto it = ufCache.find(k); E v; if (it == ufCache.end()) { v = P.var(k.size() > 60 ? "sqrt" : k, 0); ufCache[k] = v; if (px) { sqrtOf[v->id] = px; polyMemo.erase(v); } sqrtArg[v->id] = x; fnDef[(uint32_t)v->c] = {"sqrt", {x}}; } else v = it->second; E a = P.rcmpRaw(RLe, P.rcon(0), v), b = P.rcmpRaw(REq, P.rbin(RMul, v, v), x); bool have = false; for (E q : s.pc) if (q == a) have = true; if (!have) { defOf[a] = defOf[b] = (uint32_t)v->c; defAxiom[a] = defAxiom[b] = 1; addC(s, a, nullptr); addC(s, b, nullptr); } return v; }
static E uf(const std::string &n, const std::vector<E> &a, bool &fresh) { std::string k = n; for (E e : a) k += "," + polyKey(e); auto it = ufCache.find(k); fresh = it == ufCache.end(); if (!fresh) return it->second; E v = P.var(k.size() > 60 ? n : k, 0); ufCache[k] = v; if (n == "acos" || n == "asin" || n == "atan" || n == "sin" || n == "cos" || n == "atan2") fnDef[(uint32_t)v->c] = {n, a}; return v; }
static void addAx(State &s, E c) { for (E q : s.pc) if (q == c) return; addC(s, c, nullptr); }
static std::map<E, std::pair<char, std::pair<E, E>>> trigKnown; // value of an inverse function -> its argument(s)
static void trigPair(State &s, E x, E &sn, E &cs) { bool f; if (x->op == RConst) { sn = P.rcon(sin(x->dbl())); cs = P.rcon(cos(x->dbl())); return; } if (x->op == OIte) { E s1, c1, s2, c2; trigPair(s, x->k[1], s1, c1); trigPair(s, x->k[2], s2, c2); sn = P.ite(x->k[0], s1, s2); cs = P.ite(x->k[0], c1, c2); return; } auto it = trigKnown.find(x);
  if (it == trigKnown.end() && (x->op == RAdd || x->op == RSub)) for (int k = 0; k < 2; k++) { E c = x->k[k], y = x->k[1 - k]; if (c->op != RConst) continue; double d = c->dbl(), q = d / (M_PI / 2), rq = nearbyint(q); if (fabs(q - rq) > 1e-13 || fabs(rq) > 8) continue; // shift by a multiple of pi/2 (to rounding)
    E s1, c1; trigPair(s, y, s1, c1); E z = P.rcon(0); int sg = x->op == RSub ? (k == 0 ? -1 : 1) : 1; int n = (int)rq; if (x->op == RSub && k == 1) n = -n; if (sg < 0) s1 = P.rbin(RSub, z, s1); n = ((n % 4) + 4) % 4; E ns = P.rbin(RSub, z, s1), nc = P.rbin(RSub, z, c1); sn = n == 0 ? s1 : n == 1 ? c1 : n == 2 ? ns : nc; cs = n == 0 ? c1 : n == 1 ? ns : n == 2 ? nc : s1; return; }
  if (it != trigKnown.end()) { E y = it->second.second.first; // cos(acos(y)) = y, sin(acos(y)) = sqrt(1-y^2); sin(asin(y)) = y, cos(asin(y)) = sqrt(1-y^2)
    if (it->second.first == 'c') { cs = y; sn = sqrtE(s, P.rbin(RSub, P.rcon(1), P.rbin(RMul, y, y))); return; }
    if (it->second.first == 's') { sn = y; cs = sqrtE(s, P.rbin(RSub, P.rcon(1), P.rbin(RMul, y, y))); return; }
    sn = y; cs = it->second.second.second; return; }
  sn = uf("sin", {x}, f); cs = uf("cos", {x}, f); sinPair[sn->id] = cs->id; atomE[cs->id] = cs; E ax = P.rcmpRaw(REq, P.rbin(RAdd, P.rbin(RMul, sn, sn), P.rbin(RMul, cs, cs)), P.rcon(1)); defAxiom[ax] = 1; addAx(s, ax); }
static const double PI_HI = 3.1415926535897936;
template <class Fn> static int math1(State &s, std::vector<Val> &a, Val &r, const char *nm, Fn fn) { if (!a[0].e) { r = dV(fn(vD(a[0]))); return 0; } bool f; E v = uf(nm, {a[0].e}, f); std::string n = nm; if (n == "acos") { trigKnown[v] = {'c', {a[0].e, nullptr}}; addAx(s, P.rcmp(RLe, P.rcon(0), v)); addAx(s, P.rcmp(RLe, v, P.rcon(PI_HI))); } if (n == "asin") { trigKnown[v] = {'s', {a[0].e, nullptr}}; addAx(s, P.rcmp(RLe, P.rcon(-PI_HI / 2), v)); addAx(s, P.rcmp(RLe, v, P.rcon(PI_HI / 2))); } if (n == "exp") addAx(s, P.rcmp(RLt, P.rcon(0), v)); r = mkV(v); return 0; }
template <class Fn> static int math2(State &s, std::vector<Val> &a, Val &r, const char *nm, Fn fn) { if (!a[0].e && !a[1].e) { r = dV(fn(vD(a[0]), vD(a[1]))); return 0; } if (std::string(nm) == "pow" && !a[1].e) { double p = vD(a[1]); if (p == 2) { r = mkV(P.rbin(RMul, a[0].e, a[0].e)); return 0; } if (p == 1) { r = a[0]; return 0; } if (p == 3) { r = mkV(P.rbin(RMul, P.rbin(RMul, a[0].e, a[0].e), a[0].e)); return 0; } if (p == 4) { E q = P.rbin(RMul, a[0].e, a[0].e); r = mkV(P.rbin(RMul, q, q)); return 0; } if (p == 0.5) { r = mkV(sqrtE(s, a[0].e)); return 0; } } bool f; E ya = toR(a[0]), xa = toR(a[1]); E v = uf(nm, {ya, xa}, f);
  if (std::string(nm) == "atan2") { E sn = uf("sinat", {v}, f), cs = uf("cosat", {v}, f), rr = sqrtE(s, P.rbin(RAdd, P.rbin(RMul, xa, xa), P.rbin(RMul, ya, ya))), z = P.rcon(0); trigKnown[v] = {'2', {sn, cs}};
    sinPair[sn->id] = cs->id; atomE[cs->id] = cs; fnDef[(uint32_t)sn->c] = {"sin", {v}}; fnDef[(uint32_t)cs->c] = {"cos", {v}}; auto ax = [&](E c) { if (c->op != OConst) defAxiom[c] = 1; addAx(s, c); };
    ax(P.rcmpRaw(REq, P.rbin(RAdd, P.rbin(RMul, sn, sn), P.rbin(RMul, cs, cs)), P.rcon(1))); ax(P.rcmp(REq, P.rbin(RMul, rr, cs), xa)); ax(P.rcmp(REq, P.rbin(RMul, rr, sn), ya));
    ax(P.rcmp(RLe, v, P.rcon(PI_HI))); ax(P.rcmp(RLe, P.rcon(-PI_HI), v)); ax(P.ite(P.rcmp(RLe, z, ya), P.rcmp(RLe, z, v), P.rcmp(RLe, v, z))); }
  r = mkV(v); return 0; }
static int bFloor(State &s, const Inst &i, std::vector<Val> &a, Val &r, int mode) { // 0 floor 1 ceil 2 trunc 3 round
  if (!a[0].e) { double d = vD(a[0]); r = dV(mode == 0 ? floor(d) : mode == 1 ? ceil(d) : mode == 2 ? trunc(d) : mode == 3 ? round(d) : rint(d)); return 0; }
  E R = a[0].e; if (mode == 3) R = P.rbin(RAdd, R, P.rcon(0.5)); if (mode == 1) R = P.rbin(RSub, P.rcon(0), R); int lo = -70, hi = 70; E inr = P.andb(P.rcmp(RLe, P.rcon(lo), R), P.rcmp(RLt, R, P.rcon(hi))); int d0 = decide(s, inr); if (d0 < 0) return 2; if (!d0) { kill(s, "floor of large symbolic real"); return 2; }
  while (hi - lo > 1) { int mid = lo + (hi - lo) / 2; int d = decide(s, P.rcmp(RLt, R, P.rcon(mid))); if (d < 0) return 2; if (d) hi = mid; else lo = mid; } int v = lo; if (mode == 1) v = -v; if (mode == 2 && lo < 0) { int d = decide(s, P.rcmp(REq, R, P.rcon(lo))); if (d < 0) return 2; if (!d) v = lo + 1; } r = dV(v); return 0; }
static Val newInput(State &s, const std::string &nm, unsigned w) { E e = nullptr; // reuse variables of the same name/width/position so that sibling paths share queries
  static std::unordered_map<std::string, E> pool; std::string key = std::to_string(s.in.size()) + "|" + nm + "|" + std::to_string(w); auto it = pool.find(key); if (it != pool.end()) e = it->second; else { e = P.var(nm, w); pool[key] = e; } Val v; v.e = e; s.in.push_back({nm, v, (uint8_t)w}); if (w) s.model[(uint32_t)e->c] = MV(); return v; }
static int bRange(State &s, std::vector<Val> &a, Val &r, bool choice) { if (!conc(s, a[1], 32) || !conc(s, a[2], 32)) return 2; int64_t lo = sextw(a[1].c, 32), hi = sextw(a[2].c, 32); if (lo > hi) { killReasons["assume"]++; dead = true; return 2; } std::string nm = argStr(s, a[0]);
  if (lo == hi) { Val v; v.c = (uint32_t)lo; s.in.push_back({nm, v, 32}); r = v; return 0; }
  if (choice) { for (int64_t k = lo + 1; k <= hi; k++) { State *n = forkState(s); Val v; v.c = (uint32_t)k; n->in.push_back({nm, v, 32}); Frame &g = n->st.back(); const Inst &ii = g.f->code[g.pc]; if (ii.dst >= 0) g.r[ii.dst] = v; g.pc++; push(n); } Val v; v.c = (uint32_t)lo; s.in.push_back({nm, v, 32}); r = v; return 0; }
  Val v = newInput(s, nm, 32); s.model[(uint32_t)v.e->c].u = (uint32_t)lo; addC(s, P.bin(OSle, P.con((uint32_t)lo, 32), v.e), nullptr); addC(s, P.bin(OSle, v.e, P.con((uint32_t)hi, 32)), nullptr); r = v; return 0; }
static int bAlloc(State &s, uint64_t n, Val &r, uint8_t fill) { if (n > (64ull << 20)) { r.c = 0; return 0; } uint64_t b = allocObj(s, n, 0, fill); r.c = b; return 0; }
static int bFree(State &s, Val p) { if (!conc(s, p, 64)) return 2; if (!p.c) return 0; Obj *o = getO(s, p.c); if (!o || o->base != p.c || o->kind != 0) { report(s, "memory", o ? "invalid free" : "double free or invalid free", nullptr); dead = true; return 2; } freeObj(s, p.c); return 0; }
#define BI(name) builtins[name] = [](State & s, const Inst &i, std::vector<Val> &a, Val &r) -> int
#define C1(k) if (!conc(s, a[k], 64)) return 2
static void regBuiltins() {
  BI("sym_u8") { r = newInput(s, argStr(s, a[0]), 8); return 0; }; BI("sym_u16") { r = newInput(s, argStr(s, a[0]), 16); return 0; }; BI("sym_u32") { r = newInput(s, argStr(s, a[0]), 32); return 0; }; BI("sym_u64") { r = newInput(s, argStr(s, a[0]), 64); return 0; };
  BI("sym_real") { r = newInput(s, argStr(s, a[0]), 0); return 0; };
  BI("sym_range") { return bRange(s, a, r, false); }; BI("sym_choice") { return bRange(s, a, r, true); };
  BI("sym_concretize") { C1(0); r = a[0]; return 0; };
  BI("sym_arg") { auto it = symArgs.find(argStr(s, a[0])); if (it == symArgs.end()) r = a[1]; else r.c = (uint32_t)it->second; return 0; };
  BI("sym_assume") { E c = toE(a[0], a[0].e ? a[0].e->w : 32); c = c->w == 1 ? c : P.notb(P.bin(OEq, c, P.con(0, c->w))); assumeC(s, c); return dead ? 2 : 0; };
  BI("sym_assert_") { nAsserts++; E c = toE(a[0], a[0].e ? a[0].e->w : 32); c = c->w == 1 ? c : P.notb(P.bin(OEq, c, P.con(0, c->w))); std::string m = argStr(s, a[1]); if (c->op == OConst) { if (!c->c) { MMap fm; if (s.unk) { std::vector<E> q = s.pc; Res r2 = S->check(q, &fm, assertTmo); if (r2 != SAT) { nUndecided++; dead = true; return 2; } } report(s, "assert", m, s.unk ? &fm : nullptr); dead = true; return 2; } return 0; } nAssertQ++; E nc = P.notb(c); MMap mm; Res q = feasible(s, nc, &mm, assertTmo); if (q == SAT) { if (s.unk) { std::vector<E> qq = s.pc; qq.push_back(nc); MMap m3; if (S->check(qq, &m3, assertTmo) == SAT) report(s, "assert", m, &m3); else nUndecided++; } else report(s, "assert", m, &mm); } else if (q == UNKNOWN) { nUndecided++; killReasons["undecided assertion"] += 0; }
    if (q != UNSAT) { MMap m2; Res q2 = feasible(s, c, &m2, assertTmo); if (q2 == UNSAT) { dead = true; return 2; } if (q2 == UNKNOWN) s.unk = true; addC(s, c, q2 == SAT ? &m2 : nullptr); } return 0; };
  BI("sym_near_") { // assert |a-b| <= tol
    nAsserts++; std::string m = argStr(s, a[3]); if (!a[0].e && !a[1].e) { double d = fabs(vD(a[0]) - vD(a[1])); if (!(d <= vD(a[2]))) { MMap fm; if (s.unk) { std::vector<E> q = s.pc; if (S->check(q, &fm, assertTmo) != SAT) { nUndecided++; dead = true; return 2; } } report(s, "assert", m, s.unk ? &fm : nullptr); dead = true; return 2; } return 0; }
    nAssertQ++; E d = P.rbin(RSub, toR(a[0]), toR(a[1])); double tol = vD(a[2]); { int g; if (polyConst(d, g) && g == 0) { nIdent++; return 0; } double bd; if (tol > 0 && polyBound(s, d, bd) && bd <= tol * 4) { nIdent++; return 0; } } E bad = P.orb(P.rcmp(RLt, P.rcon(tol * 4), d), P.rcmp(RLt, d, P.rcon(-tol * 4))); MMap mm; Res q = feasible(s, bad, &mm, assertTmo); if (q == SAT) { report(s, "assert", m, &mm); } else if (q == UNKNOWN) nUndecided++; return 0; };
  BI("sym_reach") { reach[argStr(s, a[0])]++; return 0; };
  BI("sym_expect_exit") { C1(0); s.expectExit = a[0].c & 1; return 0; };
  BI("sym_native") { r.c = 0; return 0; };
  BI("sym_is_real") { r.c = a[0].e != nullptr; return 0; };
  BI("sym_trace") { fprintf(stderr, "TRACE %s %lld%s\n", argStr(s, a[0]).c_str(), (long long)a[1].c, a[1].e ? " (sym)" : ""); return 0; };
  BI("sym_done") { endPath(s, "done"); return 2; };
  BI("malloc") { C1(0); return bAlloc(s, a[0].c, r, 0xCD); };
  BI("calloc") { C1(0); C1(1); return bAlloc(s, a[0].c * a[1].c, r, 0); };
  BI("realloc") { C1(0); C1(1); if (!a[0].c) return bAlloc(s, a[1].c, r, 0xCD); Obj *o = getO(s, a[0].c); if (!o || o->base != a[0].c || o->kind != 0) { report(s, "memory", "invalid realloc", nullptr); dead = true; return 2; } uint64_t os = o->size; uint64_t b = allocObj(s, a[1].c, 0, 0xCD); if (!copyMem(s, b, a[0].c, std::min(os, a[1].c))) return 2; freeObj(s, a[0].c); r.c = b; return 0; };
  BI("free") { return bFree(s, a[0]); };
  auto mc = [](State &s, const Inst &i, std::vector<Val> &a, Val &r) -> int { C1(0); C1(1); C1(2); if (!copyMem(s, a[0].c, a[1].c, a[2].c)) return 2; r = a[0]; return 0; };
  builtins["llvm.memcpy"] = mc; builtins["llvm.memmove"] = mc; builtins["memcpy"] = mc; builtins["memmove"] = mc; builtins["__memcpy_chk"] = mc; builtins["__memmove_chk"] = mc;
  auto ms = [](State &s, const Inst &i, std::vector<Val> &a, Val &r) -> int { C1(0); C1(2); uint64_t n = a[2].c; if (!n) { r = a[0]; return 0; } Obj *o; if (!okAddr(s, a[0].c, n, o)) { memFault(s, a[0].c, n, "write (memset)", nullptr); dead = true; return 2; } o = getW(s, a[0].c); if (!a[1].e) { memset(o->d + (a[0].c - o->base), (int)a[1].c, n); if (o->sym) memset(o->sym + (a[0].c - o->base), 0, n * sizeof(SymByte)); } else { Val b = mkV(P.extract(a[1].e, 0, 8)); for (uint64_t k = 0; k < n; k++) storeC(o, a[0].c - o->base + k, 1, b); } r = a[0]; return 0; };
  builtins["llvm.memset"] = ms; builtins["memset"] = ms;
  BI("strlen") { C1(0); std::string t; bool sy; if (!readStr(s, a[0].c, t, sy)) return 2; if (sy) return 1; r.c = t.size(); return 0; };
  BI("strcmp") { C1(0); C1(1); std::string t, u; bool sy; if (!readStr(s, a[0].c, t, sy)) return 2; if (sy) return 1; if (!readStr(s, a[1].c, u, sy)) return 2; if (sy) return 1; r.c = (uint32_t)strcmp(t.c_str(), u.c_str()); return 0; };
  BI("memcmp") { C1(0); C1(1); C1(2); uint64_t n = a[2].c; if (!n) { r.c = 0; return 0; } Obj *x, *y; if (!okAddr(s, a[0].c, n, x)) { memFault(s, a[0].c, n, "read (memcmp)", nullptr); dead = true; return 2; } if (!okAddr(s, a[1].c, n, y)) { memFault(s, a[1].c, n, "read (memcmp)", nullptr); dead = true; return 2; } uint64_t ox = a[0].c - x->base, oy = a[1].c - y->base; bool anyReal = false, any = false; for (uint64_t k = 0; k < n; k++) { for (auto p : {x->sym ? x->sym[ox + k].e : nullptr, y->sym ? y->sym[oy + k].e : nullptr}) if (p) { any = true; if (p->w == 0) anyReal = true; } }
    if (!any) { r.c = (uint32_t)memcmp(x->d + ox, y->d + oy, n); return 0; } if (!anyReal) return 1;
    // equality-style comparison with symbolic reals: walk 8-byte cells; bit equality idealised as real equality
    E eq = P.con(1, 1); for (uint64_t k = 0; k < n;) { E ex = x->sym ? x->sym[ox + k].e : nullptr, ey = y->sym ? y->sym[oy + k].e : nullptr; if ((ex && ex->w == 0) || (ey && ey->w == 0)) { Val vx = loadC(x, ox + k, 8, true), vy = loadC(y, oy + k, 8, true); eq = P.andb(eq, P.rcmp(REq, toR(vx), toR(vy))); k += 8; } else { Val vx = loadC(x, ox + k, 1, false), vy = loadC(y, oy + k, 1, false); eq = P.andb(eq, P.bin(OEq, toE(vx, 8), toE(vy, 8))); k++; } } if (eq->op == OConst) { r.c = eq->c ? 0 : 1; return 0; } r = mkV(P.ite(eq, P.con(0, 32), P.con(1, 32))); return 0; };
  builtins["bcmp"] = builtins["memcmp"];
  BI("exit") { C1(0); if (s.expectExit) { nExitOk++; endPath(s, "exit"); return 2; } char b[64]; snprintf(b, sizeof b, "unexpected exit(%d)", (int)a[0].c); report(s, "exit", b, nullptr); dead = true; return 2; };
  BI("abort") { report(s, "abort", "abort()", nullptr); dead = true; return 2; };
  BI("__assert_fail") { MMap fm; if (s.unk) { std::vector<E> q = s.pc; if (S->check(q, &fm, assertTmo) != SAT) { nUndecided++; dead = true; return 2; } } report(s, "code-assert", "assertion in the code fails: " + argStr(s, a[0]), s.unk ? &fm : nullptr); dead = true; return 2; };
  BI("llvm.trap") { report(s, "abort", "trap", nullptr); dead = true; return 2; };
  BI("printf") { return 0; }; BI("puts") { return 0; }; BI("putchar") { return 0; }; BI("fflush") { return 0; }; BI("perror") { return 0; }; BI("time") { r.c = 1500000000; return 0; }; BI("clock") { r.c = 1000; return 0; }; BI("getenv") { r.c = 0; return 0; }; BI("signal") { r.c = 0; return 0; }; BI("srand") { return 0; }; BI("alarm") { r.c = 0; return 0; };
  BI("sym_fmt_double") { C1(0); C1(1); std::string sp = argStr(s, a[2]); char b[512]; int n; if (!a[3].e) n = snprintf(b, sizeof b, sp.c_str(), vD(a[3])); else { n = snprintf(b, sizeof b, "R%022u", a[3].e->id); realTok[a[3].e->id] = a[3].e; } uint64_t lim = a[1].c; for (int k = 0; k <= n && k < (int)lim; k++) { Val c; c.c = (uint8_t)b[k]; Val ad{a[0].c + k, nullptr}; if (!storeV(s, ad, 1, false, c)) return 2; } r.c = (uint32_t)n; return 0; };
  BI("sym_str_double") { C1(0); std::string t; bool sy; if (!readStr(s, a[0].c, t, sy)) return 2; if (sy) { static int nfr = 0; r = mkV(P.var("strd" + std::to_string(nfr++), 0)); return 0; } /* numeral with symbolic characters: any real */ if (t.size() && t[0] == 'R') { auto it = realTok.find(strtoul(t.c_str() + 1, 0, 10)); if (it != realTok.end()) { r = mkV(it->second); return 0; } } r = dV(strtod(t.c_str(), nullptr)); return 0; };
#define M1(n) BI(#n) { return math1(s, a, r, #n, [](double x) { return ::n(x); }); }
  M1(tan); M1(asin); M1(acos); M1(atan); M1(exp); M1(log); M1(log2); M1(log10); M1(sinh); M1(cosh); M1(tanh); M1(cbrt); M1(log1p); M1(expm1);
#define M2(n) BI(#n) { return math2(s, a, r, #n, [](double x, double y) { return ::n(x, y); }); }
  M2(pow); M2(atan2); M2(fmod); M2(hypot); M2(copysign);
  builtins["llvm.pow"] = builtins["pow"]; builtins["llvm.exp"] = builtins["exp"]; builtins["llvm.log"] = builtins["log"]; builtins["llvm.copysign"] = builtins["copysign"];
  BI("ldexp") { C1(1); if (a[0].e) { kill(s, "ldexp"); return 2; } r = dV(ldexp(vD(a[0]), (int)a[1].c)); return 0; }; builtins["llvm.ldexp"] = builtins["ldexp"];
  BI("sqrt") { if (!a[0].e) { r = dV(sqrt(vD(a[0]))); return 0; } E x = a[0].e; if (x->op == RMul && x->k[0] == x->k[1]) { E y = x->k[0]; r = mkV(P.ite(P.rcmp(RLe, P.rcon(0), y), y, P.rbin(RSub, P.rcon(0), y))); return 0; } E v = sqrtE(s, x); r = mkV(v); return 0; }; builtins["llvm.sqrt"] = builtins["sqrt"];
  BI("fabs") { if (!a[0].e) { r = a[0]; if (i.is[0] == 1032) r.c &= 0x7fffffff; else r.c &= ~(1ull << 63); return 0; } E x = a[0].e; r = mkV(P.ite(P.rcmp(RLe, P.rcon(0), x), x, P.rbin(RSub, P.rcon(0), x))); return 0; }; builtins["llvm.fabs"] = builtins["fabs"];
  BI("fmax") { if (!a[0].e && !a[1].e) { r = dV(fmax(vD(a[0]), vD(a[1]))); return 0; } for (int k = 0; k < 2; k++) if (!a[k].e && std::isinf(vD(a[k]))) { r = vD(a[k]) > 0 ? a[k] : a[1 - k]; return 0; } E x = toR(a[0]), y = toR(a[1]); r = mkV(P.ite(P.rcmp(RLe, y, x), x, y)); return 0; }; builtins["llvm.maxnum"] = builtins["fmax"];
  BI("fmin") { if (!a[0].e && !a[1].e) { r = dV(fmin(vD(a[0]), vD(a[1]))); return 0; } for (int k = 0; k < 2; k++) if (!a[k].e && std::isinf(vD(a[k]))) { r = vD(a[k]) < 0 ? a[k] : a[1 - k]; return 0; } E x = toR(a[0]), y = toR(a[1]); r = mkV(P.ite(P.rcmp(RLe, x, y), x, y)); return 0; }; builtins["llvm.minnum"] = builtins["fmin"];
  BI("sin") { if (!a[0].e) { r = dV(sin(vD(a[0]))); return 0; } E x, y; trigPair(s, a[0].e, x, y); r = mkV(x); return 0; }; BI("cos") { if (!a[0].e) { r = dV(cos(vD(a[0]))); return 0; } E x, y; trigPair(s, a[0].e, x, y); r = mkV(y); return 0; }; builtins["llvm.sin"] = builtins["sin"]; builtins["llvm.cos"] = builtins["cos"];
  BI("floor") { return bFloor(s, i, a, r, 0); }; BI("ceil") { return bFloor(s, i, a, r, 1); }; BI("trunc") { return bFloor(s, i, a, r, 2); }; BI("round") { return bFloor(s, i, a, r, 3); }; BI("rint") { return bFloor(s, i, a, r, 4); };
  builtins["llvm.floor"] = builtins["floor"]; builtins["llvm.ceil"] = builtins["ceil"]; builtins["llvm.trunc"] = builtins["trunc"]; builtins["llvm.round"] = builtins["round"]; builtins["llvm.rint"] = builtins["rint"]; builtins["llvm.nearbyint"] = builtins["rint"];
  BI("llvm.fmuladd") { if (!a[0].e && !a[1].e && !a[2].e) { r = dV(vD(a[0]) * vD(a[1]) + vD(a[2])); return 0; } r = mkV(P.rbin(RAdd, P.rbin(RMul, toR(a[0]), toR(a[1])), toR(a[2]))); return 0; };
  BI("__muldc3") { auto R = [&](Op o, Val x, Val y) { if (!x.e && !y.e) { double p = vD(x), q = vD(y); return dV(o == RAdd ? p + q : o == RSub ? p - q : p * q); } return mkV(P.rbin(o, toR(x), toR(y))); }; retAgg(s, i, {R(RSub, R(RMul, a[0], a[2]), R(RMul, a[1], a[3])), R(RAdd, R(RMul, a[0], a[3]), R(RMul, a[1], a[2]))}); return 2; };
  BI("__divdc3") { if (a[0].e || a[1].e || a[2].e || a[3].e) { E x = toR(a[0]), y = toR(a[1]), u = toR(a[2]), v = toR(a[3]); E d = P.rbin(RAdd, P.rbin(RMul, u, u), P.rbin(RMul, v, v)); int z = decide(s, P.rcmp(REq, d, P.rcon(0))); if (z < 0) return 2; if (z) { kill(s, "symbolic real division by zero"); return 2; } retAgg(s, i, {mkV(P.rbin(RDiv, P.rbin(RAdd, P.rbin(RMul, x, u), P.rbin(RMul, y, v)), d)), mkV(P.rbin(RDiv, P.rbin(RSub, P.rbin(RMul, y, u), P.rbin(RMul, x, v)), d))}); return 2; } std::complex<double> q = std::complex<double>(vD(a[0]), vD(a[1])) / std::complex<double>(vD(a[2]), vD(a[3])); retAgg(s, i, {dV(q.real()), dV(q.imag())}); return 2; };
  auto mm = [](State &s, const Inst &i, std::vector<Val> &a, Val &r, int k) -> int { unsigned w = (unsigned)i.is[0]; if (!a[0].e && !a[1].e) { uint64_t x = a[0].c, y = a[1].c; bool lt = k & 2 ? sextw(x, w) < sextw(y, w) : x < y; r.c = ((k & 1) ? !lt : lt) ? x : y; return 0; } E x = toE(a[0], w), y = toE(a[1], w); E lt = P.bin(k & 2 ? OSlt : OUlt, x, y); r = mkV((k & 1) ? P.ite(lt, y, x) : P.ite(lt, x, y)); return 0; };
  static auto mmS = mm; BI("llvm.umin") { return mmS(s, i, a, r, 0); }; BI("llvm.umax") { return mmS(s, i, a, r, 1); }; BI("llvm.smin") { return mmS(s, i, a, r, 2); }; BI("llvm.smax") { return mmS(s, i, a, r, 3); };
  BI("llvm.abs") { unsigned w = (unsigned)i.is[0]; if (!a[0].e) { int64_t x = sextw(a[0].c, w); r.c = (uint64_t)(x < 0 ? -x : x) & maskw(w); return 0; } E x = a[0].e; r = mkV(P.ite(P.bin(OSlt, x, P.con(0, w)), P.bin(OSub, P.con(0, w), x), x)); return 0; };
  BI("abs") { if (!a[0].e) { int32_t x = (int32_t)a[0].c; r.c = (uint32_t)(x < 0 ? -x : x); return 0; } E x = a[0].e; r = mkV(P.ite(P.bin(OSlt, x, P.con(0, 32)), P.bin(OSub, P.con(0, 32), x), x)); return 0; };
  BI("llvm.ctpop") { C1(0); r.c = __builtin_popcountll(a[0].c); return 0; }; BI("llvm.ctlz") { C1(0); unsigned w = (unsigned)i.is[0]; r.c = a[0].c ? __builtin_clzll(a[0].c) - (64 - w) : w; return 0; }; BI("llvm.cttz") { C1(0); unsigned w = (unsigned)i.is[0]; r.c = a[0].c ? __builtin_ctzll(a[0].c) : w; return 0; };
  BI("llvm.bswap") { C1(0); unsigned w = (unsigned)i.is[0]; r.c = __builtin_bswap64(a[0].c) >> (64 - w); return 0; };
  BI("llvm.fshl") { C1(2); unsigned w = (unsigned)i.is[0], k = a[2].c % w; if (!k) { r = a[0]; return 0; } r = mkV(P.bin(OOr, P.bin(OShl, toE(a[0], w), P.con(k, w)), P.bin(OLShr, toE(a[1], w), P.con(w - k, w)))); return 0; };
  BI("llvm.fshr") { C1(2); unsigned w = (unsigned)i.is[0], k = a[2].c % w; if (!k) { r = a[1]; return 0; } r = mkV(P.bin(OOr, P.bin(OShl, toE(a[0], w), P.con(w - k, w)), P.bin(OLShr, toE(a[1], w), P.con(k, w)))); return 0; };
  BI("llvm.usub.sat") { unsigned w = (unsigned)i.is[0]; E x = toE(a[0], w), y = toE(a[1], w); r = mkV(P.ite(P.bin(OUlt, x, y), P.con(0, w), P.bin(OSub, x, y))); return 0; };
  BI("llvm.uadd.sat") { unsigned w = (unsigned)i.is[0]; E x = toE(a[0], w), y = toE(a[1], w), t = P.bin(OAdd, x, y); r = mkV(P.ite(P.bin(OUlt, t, x), P.con(maskw(w), w), t)); return 0; };
  auto ov = [](State &s, const Inst &i, std::vector<Val> &a, int op, bool sg) -> int { unsigned w = (unsigned)i.is[0]; C1(0); C1(1); __int128 x = sg ? (__int128)sextw(a[0].c, w) : (__int128)(unsigned __int128)a[0].c, y = sg ? (__int128)sextw(a[1].c, w) : (__int128)(unsigned __int128)a[1].c; bool o; uint64_t v; if (op == 2) { if (sg) { __int128 t = x * y; v = (uint64_t)t & maskw(w); o = t != (__int128)sextw(v, w); } else { unsigned __int128 t = (unsigned __int128)a[0].c * a[1].c; v = (uint64_t)t & maskw(w); o = t != v; } } else { __int128 t = op == 0 ? x + y : x - y; v = (uint64_t)t & maskw(w); o = sg ? t != (__int128)sextw(v, w) : (t < 0 || t != (__int128)(unsigned __int128)v); } retAgg(s, i, {Val{v, nullptr}, Val{(uint64_t)o, nullptr}}); return 2; };
  static auto ovS = ov; BI("llvm.uadd.with.overflow") { return ovS(s, i, a, 0, false); }; BI("llvm.usub.with.overflow") { return ovS(s, i, a, 1, false); }; BI("llvm.umul.with.overflow") { return ovS(s, i, a, 2, false); }; BI("llvm.sadd.with.overflow") { return ovS(s, i, a, 0, true); }; BI("llvm.ssub.with.overflow") { return ovS(s, i, a, 1, true); }; BI("llvm.smul.with.overflow") { return ovS(s, i, a, 2, true); };
  BI("llvm.va_start") { Frame &f = s.st.back(); C1(0); uint64_t tot = 0; std::vector<uint64_t> offs; for (size_t k = 0; k < f.va.size(); k++) { offs.push_back(tot); int64_t b = f.vaByval[k].first; tot += b > 0 ? (b + 7) / 8 * 8 : 8; } uint64_t o = allocObj(s, tot + 8, 1, 0); s.st.back().allocas.push_back(o); for (size_t k = 0; k < f.va.size(); k++) { Obj *d = getW(s, o); int64_t b = f.vaByval[k].first; if (b > 0) { if (!copyMem(s, o + offs[k], f.va[k].c, b)) return 2; } else { Val v = f.va[k]; if (v.e && v.e->w && v.e->w < 64) v = mkV(P.zext(v.e, 64)); storeC(d, offs[k], 8, v); } } Val v; v.c = 48; Val p = a[0]; if (!storeV(s, p, 4, false, v)) return 2; v.c = 176; p.c += 4; storeV(s, p, 4, false, v); v.c = o; p.c += 4; storeV(s, p, 8, false, v); v.c = 0; p.c += 8; storeV(s, p, 8, false, v); return 0; };
  BI("llvm.va_end") { return 0; }; BI("llvm.va_copy") { C1(0); C1(1); return copyMem(s, a[0].c, a[1].c, 24) ? 0 : 2; };
  BI("llvm.stacksave") { r.c = 0; return 0; }; BI("llvm.stackrestore") { return 0; }; BI("llvm.is.constant") { r.c = 0; return 0; }; BI("llvm.expect") { r = a[0]; return 0; }; BI("llvm.objectsize") { r.c = ~0ull; return 0; };
  BI("llvm.is.fpclass") { C1(1); uint64_t m = a[1].c; if (a[0].e) { bool zero = (m & 0x60) == 0x60, norm = (m & 0x108) == 0x108; if (zero && norm) { r.c = 1; return 0; } if (!zero && !norm && !(m & 0x1f8)) { r.c = 0; return 0; } kill(s, "fpclass"); return 2; } double d = vD(a[0]); int c = std::fpclassify(d); bool ng = std::signbit(d); unsigned bit = c == FP_NAN ? 3 : c == FP_INFINITE ? (ng ? 4 : 0x200) : c == FP_NORMAL ? (ng ? 8 : 0x100) : c == FP_SUBNORMAL ? (ng ? 0x10 : 0x80) : (ng ? 0x20 : 0x40); r.c = (m & bit) != 0; return 0; };
}
