// symex: a bounded symbolic executor for LLVM bitcode (clang-18) on top of z3.
//  * every path of the entry function is explored; branch feasibility, assertions, memory safety and
//    symbolic addresses are decided by z3 queries over the path condition
//  * integers are bit-vectors (exact machine semantics); symbolic doubles are exact reals
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <set>
#include <random>
#include <functional>
#include <memory>
#include <unistd.h>
using namespace llvm;
static Pool P; static Solver *S;
#include "poly.h"
#include "interval.h"
struct Val { uint64_t c = 0; E e = nullptr; };
static std::string errUnsup;
// ------------------------------------------------------------------ memory
struct SymByte { E e; uint32_t idx; };
struct Obj { int rc = 0; uint64_t base = 0, size = 0; uint8_t *d = nullptr; SymByte *sym = nullptr; uint8_t kind = 0; // 0 heap 1 stack 2 global
  ~Obj() { free(d); free(sym); } };
struct OP { Obj *p = nullptr; OP() {} OP(Obj *q) : p(q) { if (p) p->rc++; } OP(const OP &o) : p(o.p) { if (p) p->rc++; } OP(OP &&o) : p(o.p) { o.p = nullptr; }
  OP &operator=(const OP &o) { if (o.p) o.p->rc++; rel(); p = o.p; return *this; } void rel() { if (p && --p->rc == 0) delete p; p = nullptr; } ~OP() { rel(); } };
struct Chunk { int rc = 0; OP o[64]; };
struct CP { Chunk *p = nullptr; CP() {} CP(Chunk *q) : p(q) { if (p) p->rc++; } CP(const CP &o) : p(o.p) { if (p) p->rc++; } CP(CP &&o) : p(o.p) { o.p = nullptr; }
  CP &operator=(const CP &o) { if (o.p) o.p->rc++; rel(); p = o.p; return *this; } void rel() { if (p && --p->rc == 0) delete p; p = nullptr; } ~CP() { rel(); } };
static const int SH = 24; static const uint64_t FBASE = 0x600000000000ull;
// ------------------------------------------------------------------ decoded code
struct DFunc;
enum IOp : uint8_t { I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_SITOFP, I_UITOFP, I_FPTOSI, I_FPTOUI, I_FPEXT, I_FPTRUNC, I_LOAD, I_STORE, I_GEP, I_ALLOCA,
  I_BR, I_JMP, I_SWITCH, I_RET, I_CALL, I_SELECT, I_EXTRACT, I_INSERT, I_UNREACH, I_UNSUP, I_LOADAGG, I_STOREAGG, I_BCFI };
struct Edge { int pc; std::vector<std::pair<int, int>> phi; };
struct Inst { IOp op; uint8_t sub = 0; uint8_t w = 0, w2 = 0; bool fp = false; int dst = -1; int a = 0, b = 0, c = 0; int64_t imm = 0; std::vector<int> xs; std::vector<int64_t> is; std::vector<Edge> ed; const Function *callee = nullptr; int cs = 0; int ndst = 1; int line = 0; int file = 0; std::vector<int64_t> byval; const CallBase *cb = nullptr; };
struct State; struct Exec;
typedef int (*Builtin)(State &, const Inst &, std::vector<Val> &, Val &); // 0 done, 1 fallback to rt_, 2 control transferred / retry
struct DFunc { const Function *F; std::vector<Inst> code; std::vector<Val> consts; int nslots = 0; int nargs = 0; bool entered = false; std::string file; };
struct Frame { DFunc *f; int pc; std::vector<Val> r; std::vector<uint64_t> allocas; std::vector<Val> va; std::vector<std::pair<int64_t, OP>> vaByval; int retDst; int retN; const Inst *callInst; };
struct Input { std::string name; Val v; uint8_t w; };
typedef std::unordered_map<uint32_t, MV> MMap;
struct State { std::vector<Frame> st; std::vector<CP> mem; uint64_t nextId; std::vector<E> pc; MMap model; std::unordered_map<uint32_t, uint64_t> knownV; std::unordered_map<E, uint64_t> knownE; std::vector<Input> in; std::unordered_map<E, std::shared_ptr<std::vector<uint64_t>>> feas; uint64_t steps = 0; int depth = 0; bool expectExit = false; bool unk = false; uint64_t nmalloc = 0; int mallocFail = 0; std::set<uint64_t> heapLive; };
struct Violation { std::string kind, msg, where, stack; std::vector<std::pair<std::string, std::string>> inputs; };
static std::vector<Violation> viols; static std::set<std::string> violKeys;
static std::vector<State *> work; static const DataLayout *DL; static Module *M;
static std::unordered_map<const Function *, DFunc *> dfuncs; static std::unordered_map<uint64_t, const Function *> faddr; static std::unordered_map<const Function *, uint64_t> fnaddr;
static std::unordered_map<const GlobalVariable *, uint64_t> gaddr; static std::vector<std::string> files; static std::unordered_map<std::string, int> fileIdx;
static std::unordered_map<std::string, Builtin> builtins; static std::unordered_map<const Function *, int> resolvedKind; 
static uint64_t nPaths = 0, nForks = 0, nSteps = 0, nKilled = 0, nExitOk = 0, nAsserts = 0, nAssertQ = 0, nUndecided = 0, nMemQ = 0; static std::map<std::string, uint64_t> killReasons, reach; static std::vector<std::vector<std::pair<std::string, std::string>>> witnesses;
static uint64_t maxSteps = 400000000ull; static double timeLimit = 600; static int maxViol = 6; static size_t maxWitness = 3; static bool randomSearch = false; static std::mt19937_64 rng(1); static int enumLimit = 300; static unsigned assertTmo = 20000; static std::set<std::string> coveredFns; static int shardI = 0, shardN = 1;
static std::chrono::steady_clock::time_point tstart; static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tstart).count(); }
static std::map<std::string, long long> symArgs; static std::unordered_map<uint32_t, E> realTok;
static bool dead; // current state terminated
static std::unordered_map<const Inst *, std::pair<DFunc *, int>> dummy;
static std::set<std::pair<const Inst *, int>> brCov; static uint64_t nBrSites = 0;

static Obj *getO(State &s, uint64_t addr) { uint64_t id = addr >> SH; uint64_t ci = id >> 6; if (ci >= s.mem.size()) return nullptr; Chunk *c = s.mem[ci].p; if (!c) return nullptr; Obj *o = c->o[id & 63].p; if (!o) return nullptr; return o; }
static Obj *getW(State &s, uint64_t addr) { uint64_t id = addr >> SH; uint64_t ci = id >> 6; CP &cp = s.mem[ci]; if (cp.p->rc > 1) { Chunk *n = new Chunk; for (int i = 0; i < 64; i++) n->o[i] = cp.p->o[i]; cp = CP(n); }
  OP &op = cp.p->o[id & 63]; Obj *o = op.p; if (!o) return nullptr;
  if (o->rc > 1) { Obj *n = new Obj; n->base = o->base; n->size = o->size; n->kind = o->kind; n->d = (uint8_t *)malloc(o->size + 1); memcpy(n->d, o->d, o->size); if (o->sym) { n->sym = (SymByte *)malloc(sizeof(SymByte) * (o->size + 1)); memcpy(n->sym, o->sym, sizeof(SymByte) * o->size); } // other ids of a big object share the same Obj
    op = OP(n); uint64_t nid = (o->size >> SH) + 1; if (nid > 1) { uint64_t b = n->base >> SH; for (uint64_t i = 0; i < nid; i++) { uint64_t q = b + i; CP &c2 = s.mem[q >> 6]; if (c2.p->rc > 1) { Chunk *nn = new Chunk; for (int j = 0; j < 64; j++) nn->o[j] = c2.p->o[j]; c2 = CP(nn); } c2.p->o[q & 63] = OP(n); } }
    return n; }
  return o; }
static void setSlot(State &s, uint64_t id, Obj *o) { uint64_t ci = id >> 6; if (ci >= s.mem.size()) s.mem.resize(ci + 1); CP &cp = s.mem[ci]; if (!cp.p) cp = CP(new Chunk); else if (cp.p->rc > 1) { Chunk *n = new Chunk; for (int i = 0; i < 64; i++) n->o[i] = cp.p->o[i]; cp = CP(n); } cp.p->o[id & 63] = OP(o); }
static uint64_t allocObj(State &s, uint64_t size, int kind, uint8_t fill) { uint64_t id = s.nextId; uint64_t n = (size >> SH) + 1; s.nextId += n; Obj *o = new Obj; o->base = id << SH; o->size = size; o->kind = kind; o->d = (uint8_t *)malloc(size + 1); memset(o->d, fill, size + 1); for (uint64_t i = 0; i < n; i++) setSlot(s, id + i, o); return o->base; }
static void freeObj(State &s, uint64_t base) { Obj *o = getO(s, base); if (!o) return; uint64_t n = (o->size >> SH) + 1, id = base >> SH; int kind = o->kind; for (uint64_t i = 0; i < n; i++) setSlot(s, id + i, nullptr); if (kind == 1 && id + n == s.nextId) s.nextId = id; }
// ------------------------------------------------------------------ values
static E toE(const Val &v, unsigned w) { return v.e ? v.e : P.con(v.c, w); }
static E toR(const Val &v, bool isF = false) { if (v.e) return v.e; if (isF) { float f; uint32_t u = (uint32_t)v.c; memcpy(&f, &u, 4); return P.rcon(f); } double d; memcpy(&d, &v.c, 8); return P.rcon(d); }
static Val mkV(E e) { Val v; if (e->op == OConst) v.c = e->c; else if (e->op == RConst) v.c = e->c; else v.e = e; return v; }
static Val dV(double d) { Val v; memcpy(&v.c, &d, 8); return v; }
static double vD(const Val &v) { double d; memcpy(&d, &v.c, 8); return d; }
struct EvalCtx { std::unordered_map<E, uint64_t> memo; };
static bool evalE(E e, const std::function<bool(uint32_t, uint64_t &)> &get, EvalCtx &x, uint64_t &out) {
  if (e->op == OConst) { out = e->c; return true; } if (e->hasReal) { auto im = x.memo.find(e); if (im != x.memo.end()) { out = im->second; return true; } if (x.memo.empty() || e->w == 0 || e->op == RLt || e->op == RLe || e->op == REq) return false; }
  if (e->op == OVar) return get((uint32_t)e->c, out);
  auto it = x.memo.find(e); if (it != x.memo.end()) { out = it->second; return true; }
  uint64_t k[3]; if (e->op == OIte) { if (!evalE(e->k[0], get, x, k[0])) return false; if (!evalE(e->k[k[0] ? 1 : 2], get, x, out)) return false; x.memo[e] = out; return true; }
  for (int i = 0; i < e->nk; i++) if (!evalE(e->k[i], get, x, k[i])) return false;
  switch (e->op) { case OZExt: out = k[0]; break; case OSExt: out = (uint64_t)sextw(k[0], e->k[0]->w) & maskw(e->w); break; case OExtract: out = (k[0] >> e->c) & maskw(e->w); break; case OConcat: out = (k[0] << e->k[1]->w) | k[1]; break;
  default: { bool ok; out = Pool::foldBin(e->op, k[0], k[1], e->k[0]->w, ok); if (!ok) { // z3 division-by-zero semantics
      unsigned w = e->w; if (e->op == OUDiv) out = maskw(w); else if (e->op == OURem) out = k[0]; else if (e->op == OSDiv) out = sextw(k[0], w) < 0 ? 1 : maskw(w); else if (e->op == OSRem) out = k[0]; else return false; } } }
  x.memo[e] = out; return true; }
static bool modelEval(State &s, E e, uint64_t &out) { EvalCtx x; return evalE(e, [&](uint32_t v, uint64_t &o) { auto it = s.model.find(v); if (it == s.model.end()) return false; o = it->second.u; return true; }, x, out); }
static Val subst(State &s, Val v) { if (!v.e) return v; if (!s.knownE.empty()) { auto it = s.knownE.find(v.e); if (it != s.knownE.end()) { v.c = it->second; v.e = nullptr; return v; } }
  if (!s.knownV.empty() && !v.e->hasReal) { bool all = true; for (auto x : v.e->vars) if (!s.knownV.count(x)) { all = false; break; } if (all) { EvalCtx x; uint64_t o; if (evalE(v.e, [&](uint32_t q, uint64_t &oo) { oo = s.knownV[q]; return true; }, x, o)) { v.c = o; v.e = nullptr; } } }
  return v; }
static std::unordered_map<E, uint32_t> defOf; // defining axiom -> the variable it defines: only needed where that variable occurs
static void argVars(std::vector<uint32_t> &vs) { for (size_t i = 0; i < vs.size(); i++) { auto d = fnDef.find(vs[i]); if (d == fnDef.end()) continue; bool grew = false; for (E a : d->second.a) { std::vector<uint32_t> u; std::set_union(vs.begin(), vs.end(), a->vars.begin(), a->vars.end(), std::back_inserter(u)); if (u.size() != vs.size()) { vs.swap(u); grew = true; } } if (grew) i = (size_t)-1; } }
static std::vector<E> slice(State &s, E q) { std::vector<E> r; r.push_back(q); std::vector<char> used(s.pc.size(), 0); std::vector<uint32_t> vs = q->vars; bool ch = true; while (ch) { ch = false; argVars(vs); for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) { auto &w = s.pc[i]->vars; bool inter = false; auto df = defOf.find(s.pc[i]); if (df != defOf.end()) inter = std::binary_search(vs.begin(), vs.end(), df->second); else { auto a = vs.begin(); auto b = w.begin(); while (a != vs.end() && b != w.end()) { if (*a == *b) { inter = true; break; } if (*a < *b) ++a; else ++b; } } if (inter) { used[i] = 1; r.push_back(s.pc[i]); std::vector<uint32_t> u; std::set_union(vs.begin(), vs.end(), w.begin(), w.end(), std::back_inserter(u)); if (u.size() != vs.size()) { vs.swap(u); ch = true; } } } } return r; }
static Res feasible(State &s, E q, MMap *m, unsigned tmo = 0) { if (q->op == OConst) { if (m) *m = MMap(); return q->c ? SAT : UNSAT; } MMap tmp; Res r = S->check(slice(s, q), &tmp, tmo); if (m && r == SAT) *m = std::move(tmp); return r; }
static void addC(State &s, E q, const MMap *m) { if (q->op == OConst) return; s.pc.push_back(q); if (m) for (auto &p : *m) s.model[p.first] = p.second; if (q->op == OEq && q->k[0]->op == OVar && q->k[1]->op == OConst) s.knownV[(uint32_t)q->k[0]->c] = q->k[1]->c; if (q->op == OVar) s.knownV[(uint32_t)q->c] = 1; if (q->op == OXor && q->w == 1 && q->k[0]->op == OVar && q->k[1]->op == OConst) s.knownV[(uint32_t)q->k[0]->c] = 0; }
static std::string whereS(State &s) { if (s.st.empty()) return "?"; Frame &f = s.st.back(); const Inst &i = f.f->code[f.pc]; char b[512]; snprintf(b, sizeof b, "%s:%d (%s)", i.file < (int)files.size() ? files[i.file].c_str() : "?", i.line, f.f->F->getName().str().c_str()); return b; }
static std::string stackS(State &s) { std::string r; for (int k = (int)s.st.size() - 1; k >= 0; k--) { Frame &f = s.st[k]; const Inst &i = f.f->code[std::min<size_t>(f.pc, f.f->code.size() - 1)]; r += f.f->F->getName().str() + ":" + std::to_string(i.line) + " "; } return r; }
static std::vector<std::pair<std::string, std::string>> dumpInputs(State &s, const MMap &m) { std::vector<std::pair<std::string, std::string>> r; for (auto &i : s.in) { char b[64]; if (i.w == 0) { double d = i.v.e ? 0 : vD(i.v); if (i.v.e) { auto it = m.find((uint32_t)i.v.e->c); if (it != m.end()) d = it->second.d; double sv = 0, cv = 0; int have = 0; for (auto &f : fnDef) if (f.second.a.size() == 1 && f.second.a[0] == i.v.e && (f.second.n == "sin" || f.second.n == "cos")) { auto q = m.find(f.first); if (q == m.end()) continue; if (f.second.n == "sin") { sv = q->second.d; have |= 1; } else { cv = q->second.d; have |= 2; } } if (have == 3 && (fabs(sin(d) - sv) > 1e-9 || fabs(cos(d) - cv) > 1e-9)) d = atan2(sv, cv) + 2 * M_PI * floor(d / (2 * M_PI)); } snprintf(b, sizeof b, "%.17g", d); } else { uint64_t u = i.v.c; if (i.v.e) { auto it = m.find((uint32_t)i.v.e->c); u = it != m.end() ? it->second.u : 0; } snprintf(b, sizeof b, "%lld", (long long)sextw(u, i.w)); } r.push_back({i.name, b}); } return r; }
static void report(State &s, const std::string &kind, const std::string &msg, const MMap *extra) { std::string wh = whereS(s); std::string key = kind + "|" + msg + "|" + wh; int n = 0; for (auto &v : viols) if (v.kind + "|" + v.msg + "|" + v.where == key) n++; if (n >= 3 || (int)viols.size() >= 40) return; MMap m = s.model; if (!extra) { bool anyR = s.unk; for (E q : s.pc) if (q->hasReal) { anyR = true; break; } if (anyR) { MMap full; Res rr = S->check(s.pc, &full, assertTmo); if (rr == UNSAT) return; if (rr == UNKNOWN) { nUndecided++; return; } for (auto &p : full) m[p.first] = p.second; } } if (extra) for (auto &p : *extra) m[p.first] = p.second; Violation v; v.kind = kind; v.msg = msg; v.where = wh; v.stack = stackS(s); v.inputs = dumpInputs(s, m); viols.push_back(v); violKeys.insert(key); }
static void kill(State &s, const std::string &why) { killReasons[why]++; nKilled++; dead = true; }
static State *forkState(State &s) { nForks++; State *n = new State(s); n->depth++; return n; }
static void push(State *s) { work.push_back(s); }
// enumerate the feasible values of a bit-vector expression (superset cached; constraints only shrink)
static const std::vector<uint64_t> *feasVals(State &s, E e, int limit) { auto it = s.feas.find(e); if (it != s.feas.end()) return it->second.get(); auto v = std::make_shared<std::vector<uint64_t>>(); std::vector<E> base = slice(s, e); base.erase(base.begin()); 
  uint64_t first; std::vector<E> q = base; if (modelEval(s, e, first)) { v->push_back(first); q.push_back(P.notb(P.bin(OEq, e, P.con(first, e->w)))); }
  while ((int)v->size() <= limit) { MMap m; Res r = S->check(q, &m); if (r != SAT) { if (r == UNKNOWN) return nullptr; break; } EvalCtx x; uint64_t o; if (!evalE(e, [&](uint32_t vv, uint64_t &oo) { auto i2 = m.find(vv); if (i2 != m.end()) { oo = i2->second.u; return true; } oo = 0; return true; }, x, o)) return nullptr; v->push_back(o); q.push_back(P.notb(P.bin(OEq, e, P.con(o, e->w)))); }
  if ((int)v->size() > limit) return nullptr; s.feas[e] = v; return v.get(); }
static int decide(State &s, E c);
static bool forkSel; // fork at conditional choices that depend on real comparisons (job option forksel=1)
// an integer that depends on real comparisons: decide every comparison in it (forking), then evaluate
static bool concReal(State &s, Val &v) { std::vector<E> st{v.e}, at; std::set<E> seen; while (!st.empty()) { E e = st.back(); st.pop_back(); if (!e || !e->hasReal || !seen.insert(e).second) continue; if (e->op == RLt || e->op == RLe || e->op == REq) { at.push_back(e); continue; } for (int k = 0; k < 3; k++) st.push_back(e->k[k]); }
  EvalCtx x; for (E a : at) { int d = decide(s, a); if (d < 0) return false; x.memo[a] = d; } uint64_t o; if (evalE(v.e, [&](uint32_t q, uint64_t &oo) { auto i = s.knownV.find(q); if (i == s.knownV.end()) return false; oo = i->second; return true; }, x, o)) { v.c = o & maskw(v.e->w); v.e = nullptr; return true; }
  kill(s, "concretize real-dependent value"); return false; }
// make v concrete, forking over its feasible values. returns false when the state must stop (dead)
static bool conc(State &s, Val &v, unsigned w) { if (!v.e) return true; v = subst(s, v); if (!v.e) return true; if (v.e->hasReal) return concReal(s, v);
  const std::vector<uint64_t> *vals = feasVals(s, v.e, 4000); std::vector<uint64_t> vv; if (vals) vv = *vals; else { kill(s, "too many values to concretize"); return false; }
  std::vector<std::pair<uint64_t, MMap>> ok; for (uint64_t x : vv) { MMap m; Res r = feasible(s, P.bin(OEq, v.e, P.con(x, v.e->w)), &m); if (r == SAT) ok.push_back({x, m}); }
  if (ok.empty()) { kill(s, "infeasible"); return false; }
  E e = v.e; auto fix = [&](State &t, uint64_t x, MMap &m) { addC(t, P.bin(OEq, e, P.con(x, e->w)), &m); t.knownE[e] = x; if (e->vars.size() <= 3) for (auto vr : e->vars) if (!t.knownV.count(vr)) { auto mi = t.model.find(vr); if (mi == t.model.end()) continue; E ve = P.varE[vr]; if (ve->w == 0) continue; E ne = P.notb(P.bin(OEq, ve, P.con(mi->second.u, ve->w))); if (feasible(t, ne, nullptr) == UNSAT) t.knownV[vr] = mi->second.u; } };
  for (size_t i = 1; i < ok.size(); i++) { State *n = forkState(s); fix(*n, ok[i].first, ok[i].second); push(n); }
  fix(s, ok[0].first, ok[0].second); v.c = ok[0].first; v.e = nullptr; return true; }
// ------------------------------------------------------------------ memory access
static bool okAddr(State &s, uint64_t a, uint64_t n, Obj *&o) { o = getO(s, a); if (!o) return false; uint64_t off = a - o->base; return a >= o->base && off <= o->size && n <= o->size - off; }
static Val loadC(Obj *o, uint64_t off, unsigned n, bool fp) { Val v; if (o->sym) { bool any = false; for (unsigned i = 0; i < n; i++) if (o->sym[off + i].e) { any = true; break; }
    if (any) { E e0 = o->sym[off].e; if (e0) { bool same = true; for (unsigned i = 0; i < n; i++) if (o->sym[off + i].e != e0 || o->sym[off + i].idx != i) { same = false; break; } if (same && (e0->w == 0 || e0->w == 8 * n)) { v.e = e0; return v; } }
      E r = nullptr; for (unsigned i = 0; i < n; i++) { SymByte &b = o->sym[off + i]; E x; if (!b.e) x = P.con(o->d[off + i], 8); else if (b.e->w == 0) { errUnsup = "partial access to symbolic real"; x = P.con(0, 8); } else x = P.extract(b.e, 8 * b.idx, 8); r = r ? P.concat(x, r) : x; } return mkV(r); } }
  uint64_t c = 0; memcpy(&c, o->d + off, n > 8 ? 8 : n); v.c = c; return v; }
static void storeC(Obj *o, uint64_t off, unsigned n, const Val &v) { if (!v.e) { memcpy(o->d + off, &v.c, n); if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i].e = nullptr; return; }
  if (!o->sym) o->sym = (SymByte *)calloc(o->size + 1, sizeof(SymByte)); for (unsigned i = 0; i < n; i++) { o->sym[off + i].e = v.e; o->sym[off + i].idx = i; } }
static E coreOf(E e) { while (true) { if (e->nk == 2 && e->k[1]->op == OConst && (e->op == OAdd || e->op == OSub || e->op == OMul || e->op == OShl || e->op == OAnd || e->op == OOr)) { e = e->k[0]; continue; } if (e->op == OZExt || e->op == OSExt) { e = e->k[0]; continue; } return e; } }
static uint64_t evalCore(E e, E core, uint64_t v) { if (e == core) return v; if (e->op == OConst) return e->c; uint64_t a = evalCore(e->k[0], core, v); switch (e->op) { case OZExt: return a; case OSExt: return (uint64_t)sextw(a, e->k[0]->w) & maskw(e->w); default: { bool ok; return Pool::foldBin(e->op, a, evalCore(e->k[1], core, v), e->k[0]->w, ok); } } }
static void memFault(State &s, uint64_t a, uint64_t n, const char *what, const MMap *m) { char b[256]; Obj *o = getO(s, a); if (o) snprintf(b, sizeof b, "%s of %llu bytes at offset %lld of a %llu-byte object", what, (unsigned long long)n, (long long)(a - o->base), (unsigned long long)o->size); else snprintf(b, sizeof b, "%s of %llu bytes at invalid address%s", what, (unsigned long long)n, a < 65536 ? " (NULL)" : ""); report(s, "memory", b, m); }
// resolve a possibly symbolic address to a list of (core value, address); false -> dead
static bool resolve(State &s, E ae, uint64_t n, const char *what, E &core, std::vector<std::pair<uint64_t, uint64_t>> &out, bool &tooMany) { core = coreOf(ae);
  if (!s.feas.count(core)) { // bounds query first: base + symbolic offset
    uint64_t cb = 0; E x = ae; while (x->op == OAdd && x->k[1]->op == OConst) { cb += x->k[1]->c; x = x->k[0]; } Obj *o = cb ? getO(s, cb) : nullptr;
    if (o && cb >= o->base && cb <= o->base + o->size) { E off = P.bin(OSub, ae, P.con(o->base, 64)); E in = o->size < n ? P.con(0, 1) : P.notb(P.bin(OUlt, P.con(o->size - n, 64), off)); MMap m;
      if (in->op != OConst || !in->c) { E out_ = P.notb(in); Res r = feasible(s, out_, &m); if (r == SAT) { uint64_t av = 0; EvalCtx ec; evalE(ae, [&](uint32_t vv, uint64_t &oo) { auto i2 = m.find(vv); if (i2 != m.end()) { oo = i2->second.u; return true; } oo = 0; return true; }, ec, av); memFault(s, av, n, what, &m); MMap m2; Res r2 = feasible(s, in, &m2); if (r2 != SAT) { dead = true; return false; } addC(s, in, &m2); } } } }
  const std::vector<uint64_t> *vals = feasVals(s, core, enumLimit); tooMany = false; if (!vals) { tooMany = true; return true; } nMemQ++;
  std::vector<uint64_t> vs = *vals; for (uint64_t v : vs) { uint64_t a = evalCore(ae, core, v); Obj *o; if (!okAddr(s, a, n, o)) { MMap m; Res r = feasible(s, P.bin(OEq, core, P.con(v, core->w)), &m); if (r == SAT) { memFault(s, a, n, what, &m); } E ne = P.notb(P.bin(OEq, core, P.con(v, core->w))); MMap m2; Res r2 = feasible(s, ne, &m2); if (r2 == UNSAT) { dead = true; return false; } if (r == SAT) addC(s, ne, &m2); continue; } out.push_back({v, a}); }
  if (out.empty()) { dead = true; return false; } return true; }
static bool loadV(State &s, Val a, unsigned n, bool fp, Val &out) { a = subst(s, a); if (!a.e) { Obj *o; if (!okAddr(s, a.c, n, o)) { memFault(s, a.c, n, "read", nullptr); dead = true; return false; } out = loadC(o, a.c - o->base, n, fp); return true; }
  E core; std::vector<std::pair<uint64_t, uint64_t>> r; bool tm; if (!resolve(s, a.e, n, "read", core, r, tm)) return false; if (tm) { if (!conc(s, a, 64)) return false; return loadV(s, a, n, fp, out); }
  Val cur; bool first = true; for (auto it = r.rbegin(); it != r.rend(); ++it) { Obj *o; okAddr(s, it->second, n, o); Val x = loadC(o, it->second - o->base, n, fp); if (first) { cur = x; first = false; continue; } if (!cur.e && !x.e && cur.c == x.c) continue; if (cur.e && cur.e == x.e) continue; E c = P.bin(OEq, core, P.con(it->first, core->w)); bool real = fp || (cur.e && cur.e->w == 0) || (x.e && x.e->w == 0); E A = real ? toR(x, n == 4) : toE(x, n * 8), B = real ? toR(cur, n == 4) : toE(cur, n * 8); cur = Val(); E q = P.ite(c, A, B); cur = mkV(q); }
  out = cur; return true; }
static bool storeV(State &s, Val a, unsigned n, bool fp, const Val &v) { a = subst(s, a); if (!a.e) { Obj *o; if (!okAddr(s, a.c, n, o)) { memFault(s, a.c, n, "write", nullptr); dead = true; return false; } o = getW(s, a.c); storeC(o, a.c - o->base, n, v); return true; }
  E core; std::vector<std::pair<uint64_t, uint64_t>> r; bool tm; if (!resolve(s, a.e, n, "write", core, r, tm)) return false; if (tm) { if (!conc(s, a, 64)) return false; return storeV(s, a, n, fp, v); }
  if (r.size() == 1) { Obj *o = getW(s, r[0].second); storeC(o, r[0].second - o->base, n, v); return true; }
  for (auto &p : r) { Obj *o = getW(s, p.second); Val old = loadC(o, p.second - o->base, n, fp); if (!old.e && !v.e && old.c == v.c) continue; bool real = fp || (old.e && old.e->w == 0) || (v.e && v.e->w == 0); E A = real ? toR(v, n == 4) : toE(v, n * 8), B = real ? toR(old, n == 4) : toE(old, n * 8); E q = P.ite(P.bin(OEq, core, P.con(p.first, core->w)), A, B); storeC(o, p.second - o->base, n, mkV(q)); }
  return true; }
static bool copyMem(State &s, uint64_t d, uint64_t sr, uint64_t n) { if (!n) return true; Obj *so, *dо; if (!okAddr(s, sr, n, so)) { memFault(s, sr, n, "read (copy)", nullptr); dead = true; return false; } if (!okAddr(s, d, n, dо)) { memFault(s, d, n, "write (copy)", nullptr); dead = true; return false; }
  std::vector<uint8_t> buf(so->d + (sr - so->base), so->d + (sr - so->base) + n); std::vector<SymByte> sb; if (so->sym) sb.assign(so->sym + (sr - so->base), so->sym + (sr - so->base) + n); Obj *w = getW(s, d); uint64_t off = d - w->base; memcpy(w->d + off, buf.data(), n); if (!sb.empty()) { bool any = w->sym != nullptr; if (!any) for (auto &b : sb) if (b.e) { any = true; break; } if (any) { if (!w->sym) w->sym = (SymByte *)calloc(w->size + 1, sizeof(SymByte)); memcpy(w->sym + off, sb.data(), n * sizeof(SymByte)); } } else if (w->sym) memset(w->sym + off, 0, n * sizeof(SymByte)); return true; }
static bool readStr(State &s, uint64_t a, std::string &out, bool &symb) { symb = false; Obj *o; if (!okAddr(s, a, 1, o)) { memFault(s, a, 1, "read (string)", nullptr); dead = true; return false; } uint64_t off = a - o->base; for (;; off++) { if (off >= o->size) { memFault(s, o->base + off, 1, "read (string)", nullptr); dead = true; return false; } if (o->sym && o->sym[off].e) { symb = true; return true; } if (!o->d[off]) return true; out.push_back((char)o->d[off]); } }
// ------------------------------------------------------------------ decode
static unsigned wOf(Type *t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static bool isFP(Type *t) { return t->isDoubleTy() || t->isFloatTy(); }
static unsigned nLeaves(Type *t) { if (t->isVoidTy()) return 0; if (auto *st = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto *e : st->elements()) n += nLeaves(e); return n; } if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * nLeaves(at->getElementType()); if (auto *vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements(); return 1; }
static unsigned leafOff(Type *t, ArrayRef<unsigned> idx) { unsigned o = 0; for (unsigned i : idx) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) o += nLeaves(st->getElementType(j)); t = st->getElementType(i); } else { auto *at = cast<ArrayType>(t); o += i * nLeaves(at->getElementType()); t = at->getElementType(); } } return o; }
static uint64_t fnAddr(const Function *F) { auto it = fnaddr.find(F); if (it != fnaddr.end()) return it->second; uint64_t a = FBASE + 16 * (fnaddr.size() + 1); fnaddr[F] = a; faddr[a] = F; return a; }
static bool constVal(const Constant *C, std::vector<Val> &out) {
  Val v; if (auto *ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { v.c = ci->getValue().trunc(64).getZExtValue(); } else v.c = ci->getZExtValue(); out.push_back(v); return true; }
  if (auto *cf = dyn_cast<ConstantFP>(C)) { if (!isFP(C->getType())) return false; v.c = cf->getValueAPF().bitcastToAPInt().getZExtValue(); out.push_back(v); return true; }
  if (isa<ConstantPointerNull>(C)) { out.push_back(v); return true; }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { unsigned n = nLeaves(C->getType()); for (unsigned i = 0; i < n; i++) out.push_back(v); return true; }
  if (auto *F = dyn_cast<Function>(C)) { v.c = fnAddr(F); out.push_back(v); return true; }
  if (auto *G = dyn_cast<GlobalVariable>(C)) { v.c = gaddr.count(G) ? gaddr[G] : 0; out.push_back(v); return true; }
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee(), out);
  if (auto *cs = dyn_cast<ConstantStruct>(C)) { for (auto &o : cs->operands()) if (!constVal(cast<Constant>(o), out)) return false; return true; }
  if (auto *ca = dyn_cast<ConstantArray>(C)) { for (auto &o : ca->operands()) if (!constVal(cast<Constant>(o), out)) return false; return true; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < cd->getNumElements(); i++) if (!constVal(cd->getElementAsConstant(i), out)) return false; return true; }
  if (auto *cv = dyn_cast<ConstantVector>(C)) { for (auto &o : cv->operands()) if (!constVal(cast<Constant>(o), out)) return false; return true; }
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) { APInt off(64, 0); auto *gep = cast<GEPOperator>(ce); if (!gep->accumulateConstantOffset(*DL, off)) return false; std::vector<Val> b; if (!constVal(cast<Constant>(ce->getOperand(0)), b)) return false; v.c = b[0].c + off.getSExtValue(); out.push_back(v); return true; }
    std::vector<Val> a, b; if (!constVal(ce->getOperand(0), a)) return false; if (ce->getNumOperands() > 1 && !constVal(ce->getOperand(1), b)) return false; unsigned w = wOf(ce->getType());
    switch (ce->getOpcode()) { case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: v.c = a[0].c; break; case Instruction::Add: v.c = (a[0].c + b[0].c) & maskw(w); break; case Instruction::Sub: v.c = (a[0].c - b[0].c) & maskw(w); break; case Instruction::Trunc: v.c = a[0].c & maskw(w); break; default: return false; } out.push_back(v); return true; }
  return false; }
static int fileId(const std::string &f) { auto it = fileIdx.find(f); if (it != fileIdx.end()) return it->second; int i = files.size(); files.push_back(f); fileIdx[f] = i; return i; }
static DFunc *decode(const Function *F) {
  auto it = dfuncs.find(F); if (it != dfuncs.end()) return it->second; DFunc *d = new DFunc; dfuncs[F] = d; d->F = F; if (auto *sp = F->getSubprogram()) d->file = sp->getFilename().str();
  std::unordered_map<const Value *, int> slot; int n = 0; for (auto &a : F->args()) { slot[&a] = n; n += std::max(1u, nLeaves(a.getType())); } d->nargs = n;
  for (auto &BB : *F) for (auto &I : BB) if (!I.getType()->isVoidTy()) { slot[&I] = n; n += std::max(1u, nLeaves(I.getType())); } d->nslots = n;
  std::unordered_map<const Constant *, int> cidx; auto opnd = [&](const Value *v) -> int { auto s = slot.find(v); if (s != slot.end()) return s->second; if (auto *C = dyn_cast<Constant>(v)) { auto ci = cidx.find(C); if (ci != cidx.end()) return ci->second; int base = d->consts.size(); if (!constVal(C, d->consts)) { errUnsup = "constant"; d->consts.resize(base); d->consts.push_back(Val()); } if ((int)d->consts.size() == base) d->consts.push_back(Val()); int r = -1 - base; cidx[C] = r; return r; } return -1000000; };
  std::unordered_map<const BasicBlock *, int> bpc; std::vector<std::pair<int, const Instruction *>> fix; 
  // first pass: positions
  int pc = 0; for (auto &BB : *F) { bpc[&BB] = pc; for (auto &I : BB) { if (isa<PHINode>(I)) continue; if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || isa<DbgInfoIntrinsic>(ii) || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing) continue; } pc++; } }
  auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) { Edge e; e.pc = bpc[to]; for (auto &ph : to->phis()) { int s = opnd(ph.getIncomingValueForBlock(from)), t = slot[&ph]; unsigned nl = std::max(1u, nLeaves(ph.getType())); for (unsigned i = 0; i < nl; i++) e.phi.push_back({t + (int)i, s >= 0 ? s + (int)i : s - (int)i}); } return e; };
  for (auto &BB : *F) for (auto &I : BB) {
    if (isa<PHINode>(I)) continue; if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || isa<DbgInfoIntrinsic>(ii) || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing) continue; }
    Inst x; x.op = I_UNSUP; if (auto &dl = I.getDebugLoc()) { x.line = dl.getLine(); if (auto *sc = dl->getFile()) x.file = fileId(sc->getFilename().str()); else x.file = fileId("?"); } else x.file = fileId(d->file);
    if (!I.getType()->isVoidTy()) { x.dst = slot[&I]; x.ndst = std::max(1u, nLeaves(I.getType())); } Type *T = I.getType();
    bool vec = false; for (auto &o : I.operands()) if (o->getType()->isVectorTy()) vec = true; if (T->isVectorTy()) vec = true;
    if (vec && !isa<StoreInst>(I) && !isa<LoadInst>(I)) { d->code.push_back(x); continue; }
    switch (I.getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      static const std::map<unsigned, Op> mp = {{Instruction::Add, OAdd}, {Instruction::Sub, OSub}, {Instruction::Mul, OMul}, {Instruction::UDiv, OUDiv}, {Instruction::SDiv, OSDiv}, {Instruction::URem, OURem}, {Instruction::SRem, OSRem}, {Instruction::And, OAnd}, {Instruction::Or, OOr}, {Instruction::Xor, OXor}, {Instruction::Shl, OShl}, {Instruction::LShr, OLShr}, {Instruction::AShr, OAShr}};
      unsigned w = wOf(T); if (w > 64 || !w) break; x.op = I_BIN; x.sub = mp.at(I.getOpcode()); x.w = w; x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); break; }
    case Instruction::ICmp: { unsigned w = wOf(I.getOperand(0)->getType()); if (w > 64 || !w) break; x.op = I_ICMP; x.w = w; x.sub = cast<ICmpInst>(I).getPredicate(); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); break; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: if (!isFP(T)) break; x.op = I_FBIN; x.fp = true; x.w = wOf(T); x.sub = I.getOpcode() == Instruction::FAdd ? RAdd : I.getOpcode() == Instruction::FSub ? RSub : I.getOpcode() == Instruction::FMul ? RMul : I.getOpcode() == Instruction::FDiv ? RDiv : 200; x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); break;
    case Instruction::FNeg: if (!isFP(T)) break; x.op = I_FNEG; x.fp = true; x.w = wOf(T); x.a = opnd(I.getOperand(0)); break;
    case Instruction::FCmp: if (!isFP(I.getOperand(0)->getType())) break; x.op = I_FCMP; x.w = wOf(I.getOperand(0)->getType()); x.sub = cast<FCmpInst>(I).getPredicate(); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); break;
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: { unsigned w = wOf(T), w2 = wOf(I.getOperand(0)->getType()); if (w > 64 || w2 > 64) break; x.op = I.getOpcode() == Instruction::ZExt ? I_ZEXT : I.getOpcode() == Instruction::SExt ? I_SEXT : I_TRUNC; x.w = w; x.w2 = w2; x.a = opnd(I.getOperand(0)); break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned w = wOf(T), w2 = wOf(I.getOperand(0)->getType()); x.op = w == w2 ? I_MOV : w < w2 ? I_TRUNC : I_ZEXT; x.w = w; x.w2 = w2; x.a = opnd(I.getOperand(0)); break; }
    case Instruction::BitCast: { bool f1 = isFP(I.getOperand(0)->getType()), f2 = isFP(T); x.op = f1 != f2 ? I_BCFI : I_MOV; x.w = wOf(T); x.fp = f2; x.a = opnd(I.getOperand(0)); break; }
    case Instruction::Freeze: case Instruction::AddrSpaceCast: x.op = I_MOV; x.w = wOf(T); x.a = opnd(I.getOperand(0)); break;
    case Instruction::SIToFP: case Instruction::UIToFP: if (!isFP(T) || wOf(I.getOperand(0)->getType()) > 64) break; x.op = I.getOpcode() == Instruction::SIToFP ? I_SITOFP : I_UITOFP; x.w = wOf(T); x.w2 = wOf(I.getOperand(0)->getType()); x.a = opnd(I.getOperand(0)); break;
    case Instruction::FPToSI: case Instruction::FPToUI: if (!isFP(I.getOperand(0)->getType())) break; x.op = I.getOpcode() == Instruction::FPToSI ? I_FPTOSI : I_FPTOUI; x.w = wOf(T); x.w2 = wOf(I.getOperand(0)->getType()); x.a = opnd(I.getOperand(0)); break;
    case Instruction::FPExt: if (!isFP(T)) break; x.op = I_FPEXT; x.a = opnd(I.getOperand(0)); break;
    case Instruction::FPTrunc: if (!isFP(I.getOperand(0)->getType())) break; x.op = I_FPTRUNC; x.a = opnd(I.getOperand(0)); break;
    case Instruction::Load: { x.a = opnd(I.getOperand(0)); if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) { x.op = I_LOADAGG; if (auto *vt = dyn_cast<FixedVectorType>(T)) { unsigned sz = DL->getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) { x.is.push_back(i * sz); x.xs.push_back(sz * 2 + (isFP(vt->getElementType()) ? 1 : 0)); } } else { x.op = I_UNSUP; } break; }
      unsigned w = wOf(T); if (!w || w > 64) break; x.op = I_LOAD; x.w = w; x.fp = isFP(T); x.imm = DL->getTypeStoreSize(T); break; }
    case Instruction::Store: { Type *VT = I.getOperand(0)->getType(); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); if (auto *vt = dyn_cast<FixedVectorType>(VT)) { x.op = I_STOREAGG; unsigned sz = DL->getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) { x.is.push_back(i * sz); x.xs.push_back(sz * 2 + (isFP(vt->getElementType()) ? 1 : 0)); } break; } unsigned w = wOf(VT); if (!w || w > 64) break; x.op = I_STORE; x.w = w; x.fp = isFP(VT); x.imm = DL->getTypeStoreSize(VT); break; }
    case Instruction::GetElementPtr: { x.op = I_GEP; auto &G = cast<GetElementPtrInst>(I); x.a = opnd(G.getPointerOperand()); int64_t off = 0; for (auto gti = gep_type_begin(G), ge = gep_type_end(G); gti != ge; ++gti) { const Value *idx = gti.getOperand(); if (auto *st = gti.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); else { int64_t sz = DL->getTypeAllocSize(gti.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(idx)) off += sz * ci->getSExtValue(); else { x.xs.push_back(opnd(idx)); x.xs.push_back(wOf(idx->getType())); x.is.push_back(sz); } } } x.imm = off; break; }
    case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); x.op = I_ALLOCA; x.imm = DL->getTypeAllocSize(A.getAllocatedType()); x.a = opnd(A.getArraySize()); x.w2 = wOf(A.getArraySize()->getType()); break; }
    case Instruction::Br: { auto &B = cast<BranchInst>(I); if (B.isConditional()) { x.op = I_BR; x.a = opnd(B.getCondition()); x.ed.push_back(mkEdge(&BB, B.getSuccessor(0))); x.ed.push_back(mkEdge(&BB, B.getSuccessor(1))); } else { x.op = I_JMP; x.ed.push_back(mkEdge(&BB, B.getSuccessor(0))); } break; }
    case Instruction::Switch: { auto &W = cast<SwitchInst>(I); x.op = I_SWITCH; x.a = opnd(W.getCondition()); x.w = wOf(W.getCondition()->getType()); x.ed.push_back(mkEdge(&BB, W.getDefaultDest())); for (auto &c : W.cases()) { x.is.push_back(c.getCaseValue()->getZExtValue()); x.ed.push_back(mkEdge(&BB, c.getCaseSuccessor())); } break; }
    case Instruction::Ret: x.op = I_RET; x.a = I.getNumOperands() ? opnd(I.getOperand(0)) : -1000000; x.ndst = I.getNumOperands() ? std::max(1u, nLeaves(I.getOperand(0)->getType())) : 0; break;
    case Instruction::Unreachable: x.op = I_UNREACH; break;
    case Instruction::Select: { if (nLeaves(T) != 1) break; x.op = I_SELECT; x.w = wOf(T); x.fp = isFP(T); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.c = opnd(I.getOperand(2)); break; }
    case Instruction::ExtractValue: { auto &EV = cast<ExtractValueInst>(I); int s = opnd(EV.getAggregateOperand()); unsigned o = leafOff(EV.getAggregateOperand()->getType(), EV.getIndices()); x.op = I_EXTRACT; x.a = s >= 0 ? s + (int)o : s - (int)o; break; }
    case Instruction::InsertValue: { auto &IV = cast<InsertValueInst>(I); x.op = I_INSERT; x.a = opnd(IV.getAggregateOperand()); x.b = opnd(IV.getInsertedValueOperand()); x.c = leafOff(IV.getAggregateOperand()->getType(), IV.getIndices()); x.imm = std::max(1u, nLeaves(IV.getInsertedValueOperand()->getType())); break; }
    case Instruction::Call: { auto &C = cast<CallBase>(I); x.op = I_CALL; x.cb = &C; if (C.isInlineAsm()) { x.op = I_UNSUP; if (C.getType()->isVoidTy()) { x.op = I_JMP; Edge e; e.pc = (int)d->code.size() + 1; x.ed.push_back(e); } break; } x.callee = C.getCalledFunction(); if (!x.callee) if (auto *A = dyn_cast<GlobalAlias>(C.getCalledOperand())) x.callee = dyn_cast<Function>(A->getAliasee()); x.a = x.callee ? 0 : opnd(C.getCalledOperand());
      for (unsigned i = 0; i < C.arg_size(); i++) { Type *at = C.getArgOperand(i)->getType(); if (at->isMetadataTy()) { x.xs.push_back(-1000000); x.is.push_back(64); x.byval.push_back(0); continue; } int o = opnd(C.getArgOperand(i)); unsigned nl = std::max(1u, nLeaves(at)); for (unsigned j = 0; j < nl; j++) { x.xs.push_back(o >= 0 ? o + (int)j : o - (int)j); x.is.push_back(nl > 1 ? 64 : (int64_t)wOf(at) + (isFP(at) ? 1000 : 0)); x.byval.push_back(C.isByValArgument(i) ? (int64_t)DL->getTypeAllocSize(C.getParamByValType(i)) : 0); } }
      break; }
    default: break; }
    d->code.push_back(x); }
  for (auto &i : d->code) if (i.op == I_BR || i.op == I_SWITCH) nBrSites += i.ed.size();
  return d; }
// ------------------------------------------------------------------ execution
static Val rd(State &s, Frame &f, int i) { if (i >= 0) { Val &v = f.r[i]; if (v.e) v = subst(s, v); return v; } if (i == -1000000) return Val(); return f.f->consts[-1 - i]; }
static bool pushCall(State &s, const Function *F, const std::vector<Val> &args, const Inst *ci) { // args are flattened leaves
  if (s.st.size() > 4000) { kill(s, "call depth"); return false; } DFunc *d = decode(F); if (!d->entered) { d->entered = true; coveredFns.insert(F->getName().str() + "@" + d->file); }
  Frame nf; nf.f = d; nf.pc = 0; nf.r.resize(d->nslots); nf.retDst = ci ? ci->dst : -1; nf.retN = ci ? (ci->dst < 0 ? 0 : ci->ndst) : 0; nf.callInst = ci; if (!d->code.size()) { kill(s, "empty function"); return false; }
  size_t n = std::min<size_t>(args.size(), d->nargs); for (size_t i = 0; i < n; i++) { Val a = args[i]; if (ci && i < ci->byval.size() && ci->byval[i]) { uint64_t b = allocObj(s, ci->byval[i], 1, 0); nf.allocas.push_back(b); Val aa = a; if (!conc(s, aa, 64)) return false; if (!copyMem(s, b, aa.c, ci->byval[i])) return false; a.c = b; a.e = nullptr; } nf.r[i] = a; }
  if (F->isVarArg()) { for (size_t i = d->nargs; i < args.size(); i++) { nf.va.push_back(args[i]); int64_t bs = ci ? ci->byval[i] : 0; int64_t w = ci ? ci->is[i] : 64; OP op; if (bs) { Obj *o = getO(s, args[i].c); if (o) op = OP(o); } nf.vaByval.push_back({bs ? bs : -w, op}); } }
  s.st.push_back(std::move(nf)); return true; }
static void takeEdge(State &s, Frame &f, const Edge &e) { size_t n = e.phi.size(); if (n == 1) { f.r[e.phi[0].first] = rd(s, f, e.phi[0].second); } else if (n) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = rd(s, f, e.phi[i].second); for (size_t i = 0; i < n; i++) f.r[e.phi[i].first] = t[i]; } f.pc = e.pc; }
// decide a symbolic condition; returns 0/1 for the branch this state takes (forking the other side at same pc), -1 if dead
static int decide(State &s, E c) { if (c->op == OConst) return (int)c->c; { auto kn = s.knownE.find(c); if (kn != s.knownE.end()) return (int)kn->second; } uint64_t mv; E nc = P.notb(c);
  if (!c->hasReal && modelEval(s, c, mv)) { E other = mv ? nc : c; MMap m; Res r = feasible(s, other, &m); if (r == UNSAT) return (int)mv; if (r == UNKNOWN) { s.unk = true; nUndecided++; } State *n = forkState(s); addC(*n, other, r == SAT ? &m : nullptr); n->knownE[c] = !mv; push(n); addC(s, mv ? c : nc, nullptr); s.knownE[c] = mv; return (int)mv; }
  MMap m1, m0; Res r1 = feasible(s, c, &m1), r0 = feasible(s, nc, &m0); if (r1 == UNKNOWN || r0 == UNKNOWN) nUndecided++;
  if (r1 == UNSAT && r0 == UNSAT) { kill(s, "infeasible"); return -1; } if (r1 == UNSAT) { if (r0 == UNKNOWN) s.unk = true; return 0; } if (r0 == UNSAT) { if (r1 == UNKNOWN) s.unk = true; return 1; }
  State *n = forkState(s); addC(*n, nc, r0 == SAT ? &m0 : nullptr); if (r0 == UNKNOWN) n->unk = true; n->knownE[c] = 0; push(n); addC(s, c, r1 == SAT ? &m1 : nullptr); if (r1 == UNKNOWN) s.unk = true; s.knownE[c] = 1; return 1; }
static void endPath(State &s, const char *how) { nPaths++; dead = true; if (witnesses.size() < maxWitness && !s.unk) witnesses.push_back(dumpInputs(s, s.model)); }
static void step(State &s) {
  Frame &f = s.st.back(); const Inst &i = f.f->code[f.pc]; s.steps++; nSteps++;
  auto isNum = [](double d) { return d - d == 0; };
  switch (i.op) {
  case I_BIN: { Val a = rd(s, f, i.a), b = rd(s, f, i.b); if (!a.e && !b.e) { bool ok; uint64_t r = Pool::foldBin((Op)i.sub, a.c, b.c, i.w, ok); if (!ok) { report(s, "arith", "integer division by zero/overflow", nullptr); dead = true; return; } f.r[i.dst] = Val{r, nullptr}; f.pc++; return; }
    if ((a.e && a.e->w == 0) || (b.e && b.e->w == 0)) { kill(s, "integer op on symbolic real"); return; }
    if (i.sub == OUDiv || i.sub == OSDiv || i.sub == OURem || i.sub == OSRem) { E z = P.bin(OEq, toE(b, i.w), P.con(0, i.w)); if (z->op == OConst) { if (z->c) { report(s, "arith", "integer division by zero", nullptr); dead = true; return; } } else { MMap m; if (feasible(s, z, &m) == SAT) { report(s, "arith", "integer division by zero", &m); E nz = P.notb(z); MMap m2; if (feasible(s, nz, &m2) != SAT) { dead = true; return; } addC(s, nz, &m2); } } }
    f.r[i.dst] = mkV(P.bin((Op)i.sub, toE(a, i.w), toE(b, i.w))); f.pc++; return; }
  case I_ICMP: { Val a = rd(s, f, i.a), b = rd(s, f, i.b); uint64_t r; if (!a.e && !b.e) { switch (i.sub) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break; case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break; case CmpInst::ICMP_SGT: r = sextw(a.c, i.w) > sextw(b.c, i.w); break; case CmpInst::ICMP_SGE: r = sextw(a.c, i.w) >= sextw(b.c, i.w); break; case CmpInst::ICMP_SLT: r = sextw(a.c, i.w) < sextw(b.c, i.w); break; default: r = sextw(a.c, i.w) <= sextw(b.c, i.w); break; } f.r[i.dst] = Val{r, nullptr}; f.pc++; return; }
    if ((a.e && a.e->w == 0) || (b.e && b.e->w == 0)) { kill(s, "integer compare on symbolic real"); return; }
    E x = toE(a, i.w), y = toE(b, i.w), q; switch (i.sub) { case CmpInst::ICMP_EQ: q = P.bin(OEq, x, y); break; case CmpInst::ICMP_NE: q = P.notb(P.bin(OEq, x, y)); break; case CmpInst::ICMP_UGT: q = P.bin(OUlt, y, x); break; case CmpInst::ICMP_UGE: q = P.bin(OUle, y, x); break; case CmpInst::ICMP_ULT: q = P.bin(OUlt, x, y); break; case CmpInst::ICMP_ULE: q = P.bin(OUle, x, y); break; case CmpInst::ICMP_SGT: q = P.bin(OSlt, y, x); break; case CmpInst::ICMP_SGE: q = P.bin(OSle, y, x); break; case CmpInst::ICMP_SLT: q = P.bin(OSlt, x, y); break; default: q = P.bin(OSle, x, y); break; }
    f.r[i.dst] = mkV(q); f.pc++; return; }
  case I_FBIN: { Val a = rd(s, f, i.a), b = rd(s, f, i.b); if (!a.e && !b.e) { Val r; if (i.w == 64) { double x = vD(a), y = vD(b), z; switch (i.sub) { case RAdd: z = x + y; break; case RSub: z = x - y; break; case RMul: z = x * y; break; case RDiv: z = x / y; break; default: z = fmod(x, y); } r = dV(z); } else { float x, y, z; uint32_t u = (uint32_t)a.c; memcpy(&x, &u, 4); u = (uint32_t)b.c; memcpy(&y, &u, 4); switch (i.sub) { case RAdd: z = x + y; break; case RSub: z = x - y; break; case RMul: z = x * y; break; case RDiv: z = x / y; break; default: z = fmodf(x, y); } memcpy(&u, &z, 4); r.c = u; } f.r[i.dst] = r; f.pc++; return; }
    E x = toR(a, i.w == 32), y = toR(b, i.w == 32); if (i.sub != 200 && i.w == 64) { // infinities and NaN mixed with an arbitrary finite real; x/0
      bool xi = x->op == RConst && !isNum(x->dbl()), yi = y->op == RConst && !isNum(y->dbl()); double r = 0; bool have = false; auto sgn = [&](E e, int &o) { if (e->op == RConst) { o = e->dbl() > 0 ? 1 : e->dbl() < 0 ? -1 : 0; return true; } int d = decide(s, P.rcmp(RLt, P.rcon(0), e)); if (d < 0) return false; if (d) { o = 1; return true; } d = decide(s, P.rcmp(REq, e, P.rcon(0))); if (d < 0) return false; o = d ? 0 : -1; return true; }; int g = 0;
      if (xi || yi) { double q = xi ? x->dbl() : y->dbl(); have = true; if (q != q) r = q; else if (i.sub == RAdd) r = q; else if (i.sub == RSub) r = xi ? q : -q; else if (i.sub == RDiv && yi) r = 0; else { if (!sgn(xi ? y : x, g)) return; r = g ? q * g : (i.sub == RDiv ? q : NAN); } }
      else if (i.sub == RDiv) { int z = y->op == RConst ? y->dbl() == 0 : decide(s, P.rcmp(REq, y, P.rcon(0))); if (z < 0) return; if (z) { if (!sgn(x, g)) return; have = true; r = g ? g * INFINITY : NAN; } }
      if (have) { Frame &gg = s.st.back(); gg.r[i.dst] = dV(r); gg.pc++; return; } }
    if ((x->op == RConst && !isNum(x->dbl())) || (y->op == RConst && !isNum(y->dbl()))) { kill(s, "inf/nan mixed with symbolic real"); return; } if (i.sub == 200) { kill(s, "frem on symbolic real"); return; }
    if (i.sub == RDiv && y->op != RConst) { E z = P.rcmp(REq, y, P.rcon(0)); int d = decide(s, z); if (d < 0) return; if (d == 1) { kill(s, "symbolic real division by zero"); return; } } else if (i.sub == RDiv && y->dbl() == 0) { kill(s, "symbolic real division by zero"); return; }
    { Frame &g = s.st.back(); g.r[i.dst] = mkV(P.rbin((Op)i.sub, x, y)); g.pc++; } return; }
  case I_FNEG: { Val a = rd(s, f, i.a); if (!a.e) { a.c ^= i.w == 64 ? (1ull << 63) : (1ull << 31); f.r[i.dst] = a; } else f.r[i.dst] = mkV(P.rbin(RSub, P.rcon(0), a.e)); f.pc++; return; }
  case I_FCMP: { Val a = rd(s, f, i.a), b = rd(s, f, i.b); double x = 0, y = 0; auto g = [&](Val &v) { if (i.w == 64) return vD(v); float fl; uint32_t u = (uint32_t)v.c; memcpy(&fl, &u, 4); return (double)fl; }; unsigned pr = i.sub;
    if (!a.e) x = g(a); if (!b.e) y = g(b); bool un = (!a.e && x != x) || (!b.e && y != y);
    if ((!a.e && !b.e) || un) { bool r = false; bool base = false; if (!un) switch (pr & 7) { case 0: base = false; break; case 1: base = x == y; break; case 2: base = x > y; break; case 3: base = x >= y; break; case 4: base = x < y; break; case 5: base = x <= y; break; case 6: base = x != y; break; case 7: base = true; break; } r = un ? (pr & 8) : (pr == CmpInst::FCMP_UNO ? false : (pr == CmpInst::FCMP_TRUE ? true : base)); if (pr == CmpInst::FCMP_FALSE) r = false; f.r[i.dst] = Val{r, nullptr}; f.pc++; return; }
    // symbolic
    unsigned k = pr & 7; Val out; if ((!a.e && !isNum(x)) || (!b.e && !isNum(y))) { // +-inf vs finite real
      bool aInf = !a.e; double v = aInf ? x : y; bool lt = aInf ? v < 0 : v > 0; // a<b ?
      bool r = k == 2 || k == 3 ? !lt : k == 4 || k == 5 ? lt : k == 6 || k == 7 ? true : false; if (pr == CmpInst::FCMP_UNO) r = false; f.r[i.dst] = Val{r, nullptr}; f.pc++; return; }
    E A = toR(a, i.w == 32), B = toR(b, i.w == 32), q; if (pr == CmpInst::FCMP_UNO || pr == CmpInst::FCMP_FALSE) q = P.con(0, 1); else switch (k) { case 1: q = P.rcmp(REq, A, B); break; case 2: q = P.rcmp(RLt, B, A); break; case 3: q = P.rcmp(RLe, B, A); break; case 4: q = P.rcmp(RLt, A, B); break; case 5: q = P.rcmp(RLe, A, B); break; case 6: q = P.notb(P.rcmp(REq, A, B)); break; default: q = P.con(1, 1); }
    f.r[i.dst] = mkV(q); f.pc++; return; }
  case I_ZEXT: { Val a = rd(s, f, i.a); f.r[i.dst] = a.e ? (a.e->w == 0 ? a : mkV(P.zext(a.e, i.w))) : a; f.pc++; return; }
  case I_SEXT: { Val a = rd(s, f, i.a); if (a.e) a = mkV(P.sext(a.e, i.w)); else a.c = (uint64_t)sextw(a.c, i.w2) & maskw(i.w); f.r[i.dst] = a; f.pc++; return; }
  case I_TRUNC: { Val a = rd(s, f, i.a); if (a.e) { if (a.e->w == 0) { kill(s, "trunc of symbolic real"); return; } a = mkV(P.extract(a.e, 0, i.w)); } else a.c &= maskw(i.w); f.r[i.dst] = a; f.pc++; return; }
  case I_MOV: f.r[i.dst] = rd(s, f, i.a); f.pc++; return;
  case I_BCFI: f.r[i.dst] = rd(s, f, i.a); if (f.r[i.dst].e && i.fp && f.r[i.dst].e->w != 0) { kill(s, "bits of symbolic int as float"); return; } f.pc++; return;
  case I_SITOFP: case I_UITOFP: { Val a = rd(s, f, i.a); if (a.e) { if (a.e->w == 1 && !a.e->hasReal) { E r = P.ite(a.e, P.rcon(i.op == I_SITOFP ? -1 : 1), P.rcon(0)); f.r[i.dst] = mkV(r); f.pc++; return; } const std::vector<uint64_t> *vals = a.e->hasReal ? nullptr : feasVals(s, a.e, 64); if (vals) { E r = nullptr; for (uint64_t v : *vals) { E q = P.rcon(i.op == I_SITOFP ? (double)sextw(v, i.w2) : (double)v); r = r ? P.ite(P.bin(OEq, a.e, P.con(v, a.e->w)), q, r) : q; } f.r[i.dst] = mkV(r); f.pc++; return; } if (!conc(s, a, i.w2)) return; } Frame &g = s.st.back(); double d = i.op == I_SITOFP ? (double)sextw(a.c, i.w2) : (double)a.c; if (i.w == 64) g.r[i.dst] = dV(d); else { float fl = i.op == I_SITOFP ? (float)sextw(a.c, i.w2) : (float)a.c; uint32_t u; memcpy(&u, &fl, 4); g.r[i.dst] = Val{u, nullptr}; } g.pc++; return; }
  case I_FPTOSI: case I_FPTOUI: { Val a = rd(s, f, i.a); if (a.e) { // fork over feasible integer parts
      MMap m; // pick a model value
      E R = a.e; // find integer k with R in [k,k+1) (trunc toward zero for positives; symmetric for negatives)
      MMap mm; E t = P.rcmp(REq, R, R); (void)t; // need a value: introduce comparison search by bisection over [-64,64]
      int lo = -70, hi = 70; E inr = P.andb(P.rcmp(RLe, P.rcon(lo), R), P.rcmp(RLt, R, P.rcon(hi))); int d0 = decide(s, inr); if (d0 < 0) return; if (d0 == 0) { kill(s, "fptosi of large symbolic real"); return; }
      while (hi - lo > 1) { int mid = lo + (hi - lo) / 2; E c = P.rcmp(RLt, R, P.rcon(mid)); auto k = s.knownE.find(c); int d; if (k != s.knownE.end()) d = (int)k->second; else d = decide(s, c); if (d < 0) return; if (d) hi = mid; else lo = mid; }
      int64_t v = lo; if (lo < 0) { E c = P.rcmp(REq, R, P.rcon(lo)); auto k = s.knownE.find(c); int d = k != s.knownE.end() ? (int)k->second : decide(s, c); if (d < 0) return; if (!d) v = lo + 1; }
      Frame &g = s.st.back(); g.r[i.dst] = Val{(uint64_t)v & maskw(i.w), nullptr}; g.pc++; return; }
    double d; if (i.w2 == 64) d = vD(a); else { float fl; uint32_t u = (uint32_t)a.c; memcpy(&fl, &u, 4); d = fl; } uint64_t r; if (i.op == I_FPTOSI) r = (d != d || d > 9.3e18 || d < -9.3e18) ? 0x8000000000000000ull : (uint64_t)(int64_t)d; else r = d < 0 ? (uint64_t)(int64_t)d : (d != d || d > 1.8446744073709551e19) ? 0 : (uint64_t)d; f.r[i.dst] = Val{r & maskw(i.w), nullptr}; f.pc++; return; }
  case I_FPEXT: { Val a = rd(s, f, i.a); if (!a.e) { float fl; uint32_t u = (uint32_t)a.c; memcpy(&fl, &u, 4); a = dV(fl); } f.r[i.dst] = a; f.pc++; return; }
  case I_FPTRUNC: { Val a = rd(s, f, i.a); if (!a.e) { float fl = (float)vD(a); uint32_t u; memcpy(&u, &fl, 4); a.c = u; } f.r[i.dst] = a; f.pc++; return; }
  case I_LOAD: { Val v; Val a = rd(s, f, i.a); if (!loadV(s, a, (unsigned)i.imm, i.fp, v)) return; if (!errUnsup.empty()) { kill(s, errUnsup); errUnsup.clear(); return; } if (i.w < 8 * (unsigned)i.imm) { if (v.e && v.e->w) v = mkV(P.extract(v.e, 0, i.w)); else v.c &= maskw(i.w); } if (i.fp && v.e && v.e->w != 0) { kill(s, "symbolic int bytes loaded as float"); return; } Frame &g = s.st.back(); g.r[i.dst] = v; g.pc++; return; }
  case I_STORE: { Val v = rd(s, f, i.a), a = rd(s, f, i.b); if (v.e && v.e->w && v.e->w < 8 * (unsigned)i.imm) v = mkV(P.zext(v.e, 8 * i.imm)); if (!storeV(s, a, (unsigned)i.imm, i.fp, v)) return; s.st.back().pc++; return; }
  case I_LOADAGG: { Val a = rd(s, f, i.a); if (!conc(s, a, 64)) return; Frame &g = s.st.back(); for (size_t k = 0; k < i.is.size(); k++) { Val v, ad{a.c + i.is[k], nullptr}; if (!loadV(s, ad, i.xs[k] >> 1, i.xs[k] & 1, v)) return; g.r[i.dst + k] = v; } g.pc++; return; }
  case I_STOREAGG: { Val a = rd(s, f, i.b); if (!conc(s, a, 64)) return; Frame &g = s.st.back(); for (size_t k = 0; k < i.is.size(); k++) { Val ad{a.c + i.is[k], nullptr}; Val v = rd(s, g, i.a >= 0 ? i.a + (int)k : i.a - (int)k); if (!storeV(s, ad, i.xs[k] >> 1, i.xs[k] & 1, v)) return; } g.pc++; return; }
  case I_GEP: { Val a = rd(s, f, i.a); uint64_t off = (uint64_t)i.imm; E es = nullptr; for (size_t k = 0; k < i.is.size(); k++) { Val x = rd(s, f, i.xs[2 * k]); unsigned w = i.xs[2 * k + 1]; if (!x.e) off += (uint64_t)sextw(x.c, w) * (uint64_t)i.is[k]; else { E t = P.bin(OMul, P.sext(x.e, 64), P.con(i.is[k], 64)); es = es ? P.bin(OAdd, es, t) : t; } }
    if (!a.e && !es) { f.r[i.dst] = Val{a.c + off, nullptr}; } else { E b = toE(a, 64); E r = es ? P.bin(OAdd, b, es) : b; r = P.bin(OAdd, r, P.con(off, 64)); f.r[i.dst] = mkV(r); } f.pc++; return; }
  case I_ALLOCA: { Val n = rd(s, f, i.a); if (!conc(s, n, i.w2)) return; Frame &g = s.st.back(); uint64_t b = allocObj(s, n.c * i.imm, 1, 0xCD); g.allocas.push_back(b); g.r[i.dst] = Val{b, nullptr}; g.pc++; return; }
  case I_JMP: takeEdge(s, f, i.ed[0]); return;
  case I_BR: { Val c = rd(s, f, i.a); int d; if (!c.e) d = c.c & 1; else { d = decide(s, c.e); if (d < 0) return; } Frame &g = s.st.back(); brCov.insert({&i, d}); takeEdge(s, g, i.ed[d ? 0 : 1]); return; }
  case I_SWITCH: { Val c = rd(s, f, i.a); if (c.e) { // fork per case
      E e = c.e; for (size_t k = 0; k < i.is.size(); k++) { E q = P.bin(OEq, e, P.con(i.is[k], i.w)); auto kn = s.knownE.find(q); int d = kn != s.knownE.end() ? (int)kn->second : decide(s, q); if (d < 0) return; if (d) { Frame &g = s.st.back(); brCov.insert({&i, (int)k + 1}); takeEdge(s, g, i.ed[k + 1]); return; } } Frame &g = s.st.back(); brCov.insert({&i, 0}); takeEdge(s, g, i.ed[0]); return; }
    for (size_t k = 0; k < i.is.size(); k++) if (c.c == (uint64_t)i.is[k]) { brCov.insert({&i, (int)k + 1}); takeEdge(s, f, i.ed[k + 1]); return; } brCov.insert({&i, 0}); takeEdge(s, f, i.ed[0]); return; }
  case I_RET: { std::vector<Val> rv; for (int k = 0; k < i.ndst; k++) rv.push_back(rd(s, f, i.a >= 0 ? i.a + k : i.a - k)); for (size_t k = f.allocas.size(); k-- > 0;) freeObj(s, f.allocas[k]); int dst = f.retDst, n = f.retN; bool hook = f.callInst == nullptr; (void)hook; s.st.pop_back(); if (s.st.empty()) { endPath(s, "return"); return; } Frame &g = s.st.back(); if (dst >= 0) for (int k = 0; k < n && k < (int)rv.size(); k++) g.r[dst + k] = rv[k]; g.pc++; return; }
  case I_SELECT: { Val c = rd(s, f, i.a), x = rd(s, f, i.b), y = rd(s, f, i.c); if (!c.e) { f.r[i.dst] = (c.c & 1) ? x : y; f.pc++; return; } if (!x.e && !y.e && x.c == y.c) { f.r[i.dst] = x; f.pc++; return; } bool real = i.fp || (x.e && x.e->w == 0) || (y.e && y.e->w == 0); E A = real ? toR(x, i.w == 32) : toE(x, i.w), B = real ? toR(y, i.w == 32) : toE(y, i.w); if ((forkSel && c.e->hasReal) || (real && ((A->op == RConst && !isNum(A->dbl())) || (B->op == RConst && !isNum(B->dbl()))))) { int d = decide(s, c.e); if (d < 0) return; Frame &g = s.st.back(); g.r[i.dst] = d ? x : y; g.pc++; return; } f.r[i.dst] = mkV(P.ite(c.e, A, B)); f.pc++; return; }
  case I_EXTRACT: for (int k = 0; k < i.ndst; k++) f.r[i.dst + k] = rd(s, f, i.a >= 0 ? i.a + k : i.a - k); f.pc++; return;
  case I_INSERT: { for (int k = 0; k < i.ndst; k++) f.r[i.dst + k] = rd(s, f, i.a >= 0 ? i.a + k : i.a - k); for (int k = 0; k < i.imm; k++) f.r[i.dst + i.c + k] = rd(s, f, i.b >= 0 ? i.b + k : i.b - k); f.pc++; return; }
  case I_UNREACH: kill(s, "unreachable"); return;
  case I_UNSUP: kill(s, "unsupported instruction at " + whereS(s)); return;
  case I_CALL: {
    const Function *F = i.callee; std::vector<Val> args; args.reserve(i.xs.size()); for (int x : i.xs) args.push_back(rd(s, f, x));
    if (!F) { Val t = rd(s, f, i.a); if (!conc(s, t, 64)) return; auto it = faddr.find(t.c); if (it == faddr.end()) { report(s, "memory", "call through invalid function pointer", nullptr); dead = true; return; } F = it->second; }
    if (F->isIntrinsic() || F->isDeclaration()) {
      std::string nm = F->getName().str(); 
      if (nm.rfind("__isoc99_", 0) == 0) nm = nm.substr(9);
      if (nm.rfind("llvm.", 0) == 0) { // strip type suffixes
        size_t p = nm.size(); auto cut = [&](const char *pre) { return nm.rfind(pre, 0) == 0; }; (void)p; for (const char *k : {"llvm.memcpy", "llvm.memmove", "llvm.memset", "llvm.fabs", "llvm.sqrt", "llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax", "llvm.abs", "llvm.ctpop", "llvm.ctlz", "llvm.cttz", "llvm.bswap", "llvm.fshl", "llvm.fshr", "llvm.usub.sat", "llvm.uadd.sat", "llvm.fmuladd", "llvm.floor", "llvm.ceil", "llvm.trunc", "llvm.rint", "llvm.round", "llvm.pow", "llvm.exp", "llvm.log", "llvm.sin", "llvm.cos", "llvm.maxnum", "llvm.minnum", "llvm.copysign", "llvm.umul.with.overflow", "llvm.uadd.with.overflow", "llvm.usub.with.overflow", "llvm.sadd.with.overflow", "llvm.ssub.with.overflow", "llvm.smul.with.overflow", "llvm.va_start", "llvm.va_end", "llvm.va_copy", "llvm.stacksave", "llvm.stackrestore", "llvm.is.constant", "llvm.expect", "llvm.objectsize", "llvm.ldexp", "llvm.is.fpclass", "llvm.trap", "llvm.nearbyint"}) if (cut(k) && (nm.size() == strlen(k) || nm[strlen(k)] == '.')) { nm = k; break; } }
      auto b = builtins.find(nm); if (b != builtins.end()) { Val ret; int r = b->second(s, i, args, ret); if (dead) return; if (r == 0) { Frame &g = s.st.back(); if (i.dst >= 0) { if (i.ndst == 1) g.r[i.dst] = ret; } g.pc++; return; } if (r == 2) return; }
      const Function *R = M->getFunction("rt_" + nm); if (R && !R->isDeclaration()) { pushCall(s, R, args, &i); return; }
      kill(s, "call to unmodelled function " + nm); return; }
    pushCall(s, F, args, &i); return; }
  }
}
#include "builtins.h"
// ------------------------------------------------------------------ globals
static void initConst(State &s, uint64_t a, const Constant *C) { Type *T = C->getType(); Obj *o = getW(s, a); uint64_t off = a - o->base;
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) { memset(o->d + off, 0, DL->getTypeAllocSize(T)); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(C)) { auto *L = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(s, a + L->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(C)) { uint64_t sz = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(s, a + i * sz, ca->getOperand(i)); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { StringRef r = cd->getRawDataValues(); memcpy(o->d + off, r.data(), r.size()); return; }
  std::vector<Val> v; if (!constVal(C, v) || v.empty()) { if (T->isX86_FP80Ty()) return; fprintf(stderr, "symex: unsupported global initialiser\n"); return; } uint64_t sz = DL->getTypeStoreSize(T); memcpy(o->d + off, &v[0].c, sz > 8 ? 8 : sz); }
static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
int main(int argc, char **argv) { P.cmpHook = cmpSqrt; P.identHook = [](E d) -> int { int g; return polyConst(d, g) ? g : 2; };
  std::string bc, entry, out; for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); }; if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--time") timeLimit = atof(nx().c_str()); else if (a == "--steps") maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--random") randomSearch = true; else if (a == "--seed") rng.seed(strtoull(nx().c_str(), 0, 10)); else if (a == "--qtime") { assertTmo = atoi(nx().c_str()); } else if (a == "--btime") S = nullptr, (void)0, setenv("SYMEX_BTIME", nx().c_str(), 1); else if (a == "--witness") maxWitness = atoi(nx().c_str()); else if (a == "--enum") enumLimit = atoi(nx().c_str()); else if (a == "--arg") { std::string kv = nx(); size_t p = kv.find('='); symArgs[kv.substr(0, p)] = atoll(kv.c_str() + p + 1); } else bc = a; } forkSel = symArgs.count("forksel") && symArgs["forksel"];
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx); if (!mod) { err.print("symex", errs()); return 3; } M = mod.get(); DL = &M->getDataLayout(); S = new Solver(P); S->linHook = linAtom; if (!getenv("SYMEX_NOBNP")) S->bnpHook = [](Solver &s, const std::vector<E> &cs, uint64_t b, Model &m) -> Res { Bnp B(P); return B.run(cs, s.linLo, s.linHi, b, m, b < 1000 ? 2 : 3); }; if (getenv("SYMEX_BTIME")) S->timeoutMs = atoi(getenv("SYMEX_BTIME")); tstart = std::chrono::steady_clock::now(); regBuiltins();
  Function *F = M->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  State *s0 = new State; s0->nextId = 64; for (auto &G : M->globals()) { if (G.getName().starts_with("llvm.")) continue; gaddr[&G] = allocObj(*s0, std::max<uint64_t>(1, DL->getTypeAllocSize(G.getValueType())), 2, 0); } for (auto &G : M->globals()) if (G.hasInitializer() && gaddr.count(&G)) initConst(*s0, gaddr[&G], G.getInitializer());
  dead = false; pushCall(*s0, F, {}, nullptr); work.push_back(s0); bool complete = true; std::string stop;
  if (const Function *RI = M->getFunction("rt_init")) if (!RI->isDeclaration()) { Frame fr; pushCall(*s0, RI, {}, nullptr); while (!dead && s0->st.size() > 1) step(*s0); }
  // after rt_init returns, its pop advanced pc of the entry frame; reset it
  if (!s0->st.empty()) s0->st[0].pc = 0;
  while (!work.empty()) {
    if (elapsed() > timeLimit) { complete = false; stop = "time"; break; } if ((int)viols.size() >= maxViol) { complete = false; stop = "violations"; break; }
    size_t k = work.size() - 1; if (randomSearch) { k = rng() % work.size(); std::swap(work[k], work.back()); } State *s = work.back(); work.pop_back(); dead = false; uint64_t cnt = 0;
    while (!dead) { step(*s); if (s->steps > maxSteps) { if (!s->unk) report(*s, "hang", "path does not finish within the step bound", nullptr); kill(*s, "step limit"); break; } if ((++cnt & 0xffff) == 0 && elapsed() > timeLimit) { kill(*s, "time limit"); complete = false; stop = "time"; break; } if (randomSearch && (cnt & 0x3ff) == 0 && false) break; }
    delete s; }
  if (nKilled) for (auto &k : killReasons) if (k.first != "infeasible" && k.first != "unreachable" && k.first.rfind("assume", 0) != 0) { complete = complete && (k.first == "exit"); }
  FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w"); fprintf(o, "{\"entry\":\"%s\",\"complete\":%s,\"stop\":\"%s\",\"paths\":%llu,\"exit_ok\":%llu,\"forks\":%llu,\"steps\":%llu,\"pending\":%zu,\"asserts\":%llu,\"assert_queries\":%llu,\"undecided\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"sym_mem\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"branch_dirs\":%zu,\"branch_sites\":%llu,", entry.c_str(), complete ? "true" : "false", stop.c_str(), (unsigned long long)nPaths, (unsigned long long)nExitOk, (unsigned long long)nForks, (unsigned long long)nSteps, work.size(), (unsigned long long)nAsserts, (unsigned long long)nAssertQ, (unsigned long long)nUndecided, (unsigned long long)S->nq, (unsigned long long)S->nsat, (unsigned long long)S->nunsat, (unsigned long long)S->nunk, (unsigned long long)S->ncache, (unsigned long long)nMemQ, S->tsol, elapsed(), brCov.size(), (unsigned long long)nBrSites);
  auto inp = [&](const std::vector<std::pair<std::string, std::string>> &v) { fprintf(o, "["); for (size_t i = 0; i < v.size(); i++) fprintf(o, "%s[\"%s\",\"%s\"]", i ? "," : "", jesc(v[i].first).c_str(), v[i].second.c_str()); fprintf(o, "]"); };
  fprintf(o, "\"kills\":{"); bool fst = true; for (auto &k : killReasons) { fprintf(o, "%s\"%s\":%llu", fst ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); fst = false; } fprintf(o, "},\"reach\":{"); fst = true; for (auto &k : reach) { fprintf(o, "%s\"%s\":%llu", fst ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); fst = false; }
  fprintf(o, "},\"functions\":["); fst = true; for (auto &k : coveredFns) { fprintf(o, "%s\"%s\"", fst ? "" : ",", jesc(k).c_str()); fst = false; } fprintf(o, "],\"witnesses\":["); for (size_t i = 0; i < witnesses.size(); i++) { if (i) fprintf(o, ","); inp(witnesses[i]); } fprintf(o, "],\"violations\":["); for (size_t i = 0; i < viols.size(); i++) { auto &v = viols[i]; fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"stack\":\"%s\",\"inputs\":", i ? "," : "", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), jesc(v.stack).c_str()); inp(v.inputs); fprintf(o, "}"); } fprintf(o, "]}\n"); if (o != stdout) fclose(o); fflush(stdout); _exit(0); }
