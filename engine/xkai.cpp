// xkai: abstract interpreter for LLVM IR over linear (in)equalities.
//
// The library code and C contract models (model/*.c) are linked as bitcode; entry
// functions (most-general clients) are analysed by forward abstract interpretation
// with a polyhedral numeric domain, trace partitioning on pointer targets and
// constant control fields, affine-hull joins and widening at loops. Callees are
// analysed in context. Obligations are memory bounds and the xk_assert() conditions of
// the models; each is reported as proven or not proven, with the function it belongs to.
#include "poly.hpp"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/ADT/PostOrderIterator.h"
#include <memory>
#include <unordered_map>
#include <chrono>
#include <unistd.h>
using namespace llvm;

static const DataLayout *DL;
static Module *MOD;
static bool REC = true;
static bool STRIDES = false;     // a merged value keeps the stride its constituents have in common
static bool COPYFACTS = false;   // remember which bytes are copies of which
static int VERB = 0;
static unsigned CAP = 16, RETCAP = 6;
static const unsigned RETKEY = 0xffffffffu;
static double BUDGET = 800;
static auto T0 = std::chrono::steady_clock::now();
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
[[noreturn]] static void die(const std::string &m) { outs().flush(); errs() << "xkai: " << m << "\n"; errs().flush(); _exit(3); }

// ---------------------------------------------------------------- values
static const int ZEROS = 1 << 30;   // Cmp against zero bytes instead of a second object
struct Val {
  enum K { Undef, Top, Num, Ptr, Null, Fn, Cmp } k = Undef;
  unsigned bits = 0;      // Num: width; Top: value < 2^bits
  Lin n;                  // Num: value; Ptr: offset; Cmp: offset A
  int obj = -1;           // Ptr: object; Cmp: object A
  int pobj = -1; Lin poff; unsigned plen = 0;   // provenance of loaded bytes / Cmp: object, offset B
  Lin clen;               // Cmp: number of bytes compared
  int hb = -1;            // Top with provenance: the byte loaded, its low hb bits cleared
  const Function *fn = nullptr;
  static Val num(unsigned b, const Lin &l) { Val v; v.k = Num; v.bits = b; v.n = l; return v; }
  static Val top(unsigned b) { Val v; v.k = Top; v.bits = b; return v; }
  static Val ptr(int o, const Lin &off) { Val v; v.k = Ptr; v.obj = o; v.n = off; return v; }
  static Val null() { Val v; v.k = Null; return v; }
  bool isC(i128 &c) const { if (k == Num && n.isConst()) { c = n.k; return true; } return false; }
};
struct Cell { Lin off, len; bool fill = false; unsigned byte = 0; Val v; };
struct Obj { int id; std::string name; Lin size; bool data = false, heap = false, ro = false, isconst = false, touched = true; const GlobalVariable *gv = nullptr; std::vector<Cell> cells; };
struct Fact { bool eq; int a, b; Lin ao, bo, len; };
typedef std::map<unsigned, Val> Env;         // value number -> value
// a map shared by copies of a state until one of them changes it
template <class K, class V> struct CowMap {
  typedef std::map<K, V> M; typedef typename M::const_iterator const_iterator;
  std::shared_ptr<M> p = std::make_shared<M>();
  M &w() { if (p.use_count() > 1) p = std::make_shared<M>(*p); return *p; }
  const M &r() const { return *p; }
  const_iterator begin() const { return p->begin(); } const_iterator end() const { return p->end(); }
  const_iterator find(const K &k) const { return p->find(k); }
  size_t count(const K &k) const { return p->count(k); } size_t size() const { return p->size(); } bool empty() const { return p->empty(); }
  const V &at(const K &k) const { return p->at(k); }
  V &operator[](const K &k) { return w()[k]; }
  void clear() { if (!p->empty()) p = std::make_shared<M>(); }
  bool operator==(const CowMap &o) const { return p == o.p || *p == *o.p; }
};
struct State {
  Poly P;
  CowMap<int, std::shared_ptr<Obj>> mem;
  std::vector<std::shared_ptr<Env>> st;
  CowMap<std::pair<Lin, i128>, Lin> divs;
  CowMap<std::pair<Lin, Lin>, Lin> ndivs;  // quotients by a variable: (dividend, divisor) -> quotient
  CowMap<std::pair<int, int>, Lin> prods;  // products of two variables
  std::vector<Fact> facts;
  std::set<int> slots;                       // variables introduced by joins at the current loop head
  Obj &wobj(int id) { auto &p = mem.w().at(id); if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return *p; }
  Env &wenv() { auto &p = st.back(); if (p.use_count() > 1) p = std::make_shared<Env>(*p); return *p; }
};
typedef std::vector<State> States;

// value numbering, liveness -------------------------------------------------
static std::unordered_map<const Value *, unsigned> VN;
static std::vector<const Value *> VNrev;
static unsigned vn(const Value *v) { auto it = VN.find(v); if (it != VN.end()) return it->second; unsigned n = VNrev.size(); VN[v] = n; VNrev.push_back(v); return n; }
struct FInfo {
  DominatorTree DT; LoopInfo LI;
  std::vector<BasicBlock *> rpo; std::unordered_map<const BasicBlock *, int> idx;
  std::unordered_map<const BasicBlock *, std::set<unsigned>> liveIn, liveOut;
};
static std::map<const Function *, std::unique_ptr<FInfo>> FI;
static FInfo &finfo(Function *F) {
  auto &p = FI[F]; if (p) return *p;
  p = std::make_unique<FInfo>();
  {
    std::vector<AllocaInst *> A;
    DominatorTree D(*F);
    while (true) { A.clear(); for (auto &I : F->getEntryBlock()) if (auto *a = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(a)) A.push_back(a); if (A.empty()) break; PromoteMemToReg(A, D); }
  }
  p->DT.recalculate(*F); p->LI.analyze(p->DT);
  ReversePostOrderTraversal<Function *> R(F);
  for (auto *B : R) { p->idx[B] = p->rpo.size(); p->rpo.push_back(B); }
  for (auto &a : F->args()) vn(&a);
  for (auto &I : instructions(F)) vn(&I);
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto it = p->rpo.rbegin(); it != p->rpo.rend(); ++it) {
      BasicBlock *B = *it; std::set<unsigned> lo;
      for (auto *S : successors(B)) {
        for (unsigned v : p->liveIn[S]) { auto *I = dyn_cast<PHINode>(VNrev[v]); if (!(I && I->getParent() == S)) lo.insert(v); }
        for (auto &ph : S->phis()) { Value *v = ph.getIncomingValueForBlock(B); if (isa<Instruction>(v) || isa<Argument>(v)) lo.insert(vn(v)); }
      }
      std::set<unsigned> li = lo;
      for (auto I = B->rbegin(); I != B->rend(); ++I) {
        if (isa<PHINode>(*I)) { li.insert(vn(&*I)); continue; }   // phis counted live-in at their block
        li.erase(vn(&*I));
        for (auto &o : I->operands()) if (isa<Instruction>(o) || isa<Argument>(o)) li.insert(vn(o));
      }
      // a phi that is not used anywhere is dropped
      for (auto &ph : B->phis()) if (ph.use_empty()) li.erase(vn(&ph));
      if (lo != p->liveOut[B]) { p->liveOut[B] = lo; ch = true; }
      if (li != p->liveIn[B]) { p->liveIn[B] = li; ch = true; }
    }
  }
  return *p;
}
static std::map<const Instruction *, std::set<unsigned>> liveAfterCache;
static const std::set<unsigned> &liveAfter(FInfo &fi, Instruction *at) {
  auto it = liveAfterCache.find(at); if (it != liveAfterCache.end()) return it->second;
  BasicBlock *B = at->getParent(); std::set<unsigned> s = fi.liveOut[B];
  for (auto I = B->rbegin(); &*I != at; ++I) { s.erase(vn(&*I)); for (auto &o : I->operands()) if (isa<Instruction>(o) || isa<Argument>(o)) s.insert(vn(o)); }
  return liveAfterCache[at] = s;
}
static std::set<unsigned> liveBefore(FInfo &fi, Instruction *at) {
  std::set<unsigned> s = liveAfter(fi, at); s.erase(vn(at)); for (auto &o : at->operands()) if (isa<Instruction>(o) || isa<Argument>(o)) s.insert(vn(o));
  return s;
}
// drop environment entries that are not in `live`
static void prune(State &s, const std::set<unsigned> &live) {
  bool any = false; for (auto &e : *s.st.back()) if (!live.count(e.first)) { any = true; break; }
  if (!any) return;
  Env &e = s.wenv(); for (auto it = e.begin(); it != e.end();) if (!live.count(it->first)) it = e.erase(it); else ++it;
}

// ---------------------------------------------------------------- obligations
struct CallCtx { const Function *f; const Instruction *at; };
static std::vector<CallCtx> STACK;
static size_t ctxHash = 0;
struct Ob { long ok = 0, fail = 0; std::string where, msg; };
static std::map<std::string, Ob> OBS;       // "kind \t id \t func"
static std::string locOf(const Instruction *I) { if (auto &d = I->getDebugLoc()) { auto *l = d.get(); return (l->getDirectory().empty() || l->getFilename().starts_with("/") ? l->getFilename().str() : l->getDirectory().str() + "/" + l->getFilename().str()) + ":" + std::to_string(l->getLine()); } return "?"; }
static bool isModelFn(const Function *f) { if (auto *sp = f->getSubprogram()) { std::string n = sp->getFilename().starts_with("/") ? sp->getFilename().str() : sp->getDirectory().str() + "/" + sp->getFilename().str(); return StringRef(n).contains("/verif/model/"); } return true; }
static void oblig(const std::string &kind, const std::string &id, bool ok, const Instruction *at, const std::string &msg) {
  if (!REC) return;
  // attribute to the innermost library function
  const Function *f = at->getFunction(); const Instruction *where = at;
  for (int i = (int)STACK.size() - 1; i >= 0 && isModelFn(f); i--) if (STACK[i].at) { f = STACK[i].at->getFunction(); where = STACK[i].at; }
  std::string fn = isModelFn(f) ? (STACK.empty() ? f->getName().str() : STACK[0].f->getName().str()) : f->getName().str();
  std::string top = STACK.size() > 1 ? STACK[1].f->getName().str() : fn;
  Ob &o = OBS[kind + "\t" + id + "\t" + fn];
  if (ok) { o.ok++; if (o.where.empty()) o.where = locOf(where); }
  else { if (!o.fail) { o.where = locOf(where); std::string chain; for (auto &c : STACK) chain += (chain.empty() ? "" : ">") + c.f->getName().str(); o.msg = msg + " [" + chain + "]"; for (auto &c : STACK) if (!isModelFn(c.f)) { o.msg += "\t" + c.f->getName().str(); break; } } o.fail++; }
}

// ---------------------------------------------------------------- joins
static long NJOIN = 0;
static void linVars(const Lin &l, std::set<int> &s) { for (auto &p : l.t) s.insert(p.first); }
template <class F> static void eachLin(State &s, F f) {   // every numeric component, in a deterministic order
  for (auto &e : s.st) for (auto &kv : *e) { Val &v = kv.second; if (v.k == Val::Num || v.k == Val::Ptr || v.k == Val::Cmp) f(v.n); if (v.pobj >= 0) f(v.poff); if (v.k == Val::Cmp) f(v.clen); }
  for (auto &m : s.mem) { f(m.second->size); for (auto &c : m.second->cells) { f(c.off); f(c.len); if (!c.fill) { Val &v = c.v; if (v.k == Val::Num || v.k == Val::Ptr || v.k == Val::Cmp) f(v.n); if (v.pobj >= 0) f(v.poff); if (v.k == Val::Cmp) f(v.clen); } } }
  for (auto &x : s.facts) { f(x.ao); f(x.bo); f(x.len); }
}
static std::set<int> valueVars(State &s) { std::set<int> r; eachLin(s, [&](Lin &l) { linVars(l, r); }); return r; }
// ---- products of variables: a fresh variable per pair, with the linear consequences that are needed
static const i128 BIG = pow2(100);
static bool prodOf(State &s, int x, int y, Lin &out) {
  if (x > y) std::swap(x, y);
  auto it = s.prods.find({x, y}); if (it != s.prods.end()) { out = s.P.norm(it->second); return true; }
  i128 lx = VARS[x].lo, ux = VARS[x].hi, ly = VARS[y].lo, uy = VARS[y].hi;
  auto big = [](i128 v) { return v > pow2(64) || v < -pow2(64); };
  if (big(lx) || big(ux) || big(ly) || big(uy)) return false;
  i128 c[4] = {lx * ly, 0, 0, 0}; 
  auto mulOk = [](i128 a, i128 b, i128 &r) { return !__builtin_mul_overflow(a, b, &r) && r < BIG && r > -BIG; };
  if (!mulOk(lx, ly, c[0]) || !mulOk(lx, uy, c[1]) || !mulOk(ux, ly, c[2]) || !mulOk(ux, uy, c[3])) return false;
  Lin p = freshLin("prod", std::min(std::min(c[0], c[1]), std::min(c[2], c[3])), std::max(std::max(c[0], c[1]), std::max(c[2], c[3])));
  s.prods[{x, y}] = p; Lin X = Lin::var(x), Y = Lin::var(y);
  auto small = [](i128 v) { return v < pow2(34) && v > -pow2(34); };
  if (small(lx) && small(ly)) s.P.addGe(p - lx * Y - ly * X + Lin(lx * ly));
  if (small(ux) && small(uy)) s.P.addGe(p - ux * Y - uy * X + Lin(ux * uy));
  if (small(lx) && small(uy)) s.P.addGe(uy * X + lx * Y - Lin(lx * uy) - p);
  if (small(ux) && small(ly)) s.P.addGe(ux * Y + ly * X - Lin(ux * ly) - p);
  out = p; return true;
}
static bool mulLin(State &s, const Lin &a0, const Lin &b0, Lin &out) {
  Lin a = s.P.norm(a0), b = s.P.norm(b0);
  if (a.isConst()) { out = a.k * b; return true; }
  if (b.isConst()) { out = b.k * a; return true; }
  if (a.t.size() * b.t.size() > 6) return false;
  Lin ac = a, bc = b; ac.k = 0; bc.k = 0;
  Lin r = Lin(a.k * b.k) + a.k * bc + b.k * ac;
  for (auto &x : a.t) for (auto &y : b.t) { Lin p; if (!prodOf(s, x.first, y.first, p)) return false; r = r + (x.second * y.second) * p; }
  out = s.P.norm(r); return true;
}
// products of variables that were replaced meanwhile
static void reexpand(State &s) {
  for (int round = 0; round < 4; round++) {
    std::vector<std::pair<std::pair<int, int>, Lin>> todo;
    for (auto &p : s.prods) { Lin x = Lin::var(p.first.first), y = Lin::var(p.first.second); if (!(s.P.norm(x) == x) || !(s.P.norm(y) == y)) todo.push_back(p); }
    if (todo.empty()) return;
    for (auto &p : todo) { s.prods.w().erase(p.first); Lin e; if (mulLin(s, Lin::var(p.first.first), Lin::var(p.first.second), e)) s.P.addEq(e - p.second); }
  }
}
static void refineProds(State &s) {
  if (s.prods.empty()) return;
  reexpand(s);
  std::vector<std::pair<std::pair<int, int>, Lin>> ps(s.prods.begin(), s.prods.end());
  for (auto &p : ps) {
    Lin x = Lin::var(p.first.first), y = Lin::var(p.first.second), v = p.second;
    for (int sw = 0; sw < 2; sw++, std::swap(x, y)) {
      if (VARS[x.t[0].first].lo < 0 || VARS[y.t[0].first].lo < 0) break;
      if (s.P.entailsGe(-x)) { s.P.addEq(x); s.P.addEq(v); }
      else if (s.P.entailsGe(x - Lin(1))) { Lin e = v - y; if (!s.P.entailsGe(e)) s.P.addGe(e); }
    }
  }
  for (size_t i = 0; i < ps.size() && ps.size() <= 12; i++) for (size_t j = 0; j < ps.size(); j++) if (i != j)
    for (int k = 0; k < 4; k++) {       // common factor
      int xi = k & 1 ? ps[i].first.first : ps[i].first.second, yi = k & 1 ? ps[i].first.second : ps[i].first.first;
      int xj = k & 2 ? ps[j].first.first : ps[j].first.second, yj = k & 2 ? ps[j].first.second : ps[j].first.first;
      if (yi != yj || VARS[yi].lo < 0) continue;
      Lin d = Lin::var(xj) - Lin::var(xi);    // x_j - x_i
      if (s.P.entailsGe(d - Lin(1))) { Lin e = ps[j].second - ps[i].second - Lin::var(yi); if (!s.P.entailsGe(e)) s.P.addGe(e); }
      else if (s.P.entailsGe(d)) { Lin e = ps[j].second - ps[i].second; if (!s.P.entailsGe(e)) s.P.addGe(e); }
    }
  reexpand(s);
}
// the quotient a / b for a non-constant positive b: a = q*b + r, 0 <= r < b
static bool ndivOf(State &s, const Lin &a0, const Lin &b0, Lin &q, bool make = true) {
  Lin a = s.P.norm(a0), b = s.P.norm(b0), pr;
  for (auto &d : s.ndivs) if (s.P.norm(d.first.second) == b && s.P.norm(d.first.first) == a) { q = s.P.norm(d.second); return true; }
  if (!make || !s.P.entailsGe(b - Lin(1)) || !s.P.entailsGe(a)) return false;
  if (!s.P.entailsGe(Lin(pow2(64)) - a)) return false;
  q = freshLin("div", 0, pow2(64)); s.P.addGe(a - q);
  if (!mulLin(s, q, b, pr)) return false;
  s.ndivs[{a, b}] = q; s.P.addGe(a - pr); s.P.addGe(pr + b - Lin(1) - a); refineProds(s); q = s.P.norm(q); return true;
}
// does e >= 0 hold (using the products)?
static bool holds(State &s, const Lin &e0) {
  Lin e = s.P.norm(e0);
  if (e.isConst()) return e.k >= 0;
  if (s.P.entailsGe(e)) return true;
  if (s.prods.empty()) return false;
  State q; q.P = s.P; q.prods = s.prods; q.P.addGe(-e - Lin(1)); if (q.P.checkBottom()) return true;
  refineProds(q); return q.P.checkBottom();
}
// is P empty over the integers? bounds of the variables that occur with a larger coefficient are rounded
static bool intEmpty1(Poly q);
static bool intEmpty(const Poly &q) {      // each connected group of constraints on its own
  std::vector<char> in(q.ge.size(), 0);
  for (size_t i = 0; i < q.ge.size(); i++) if (!in[i]) {
    Poly c; std::set<int> vs; in[i] = 1; c.ge.push_back(q.ge[i]); for (auto &t : q.ge[i].t) vs.insert(t.first);
    for (bool ch = true; ch;) { ch = false; for (size_t j = 0; j < q.ge.size(); j++) if (!in[j]) { bool h = false; for (auto &t : q.ge[j].t) if (vs.count(t.first)) h = true; if (h) { in[j] = 1; ch = true; c.ge.push_back(q.ge[j]); for (auto &t : q.ge[j].t) vs.insert(t.first); } } }
    if (c.ge.size() > 1 && intEmpty1(c)) return true;
  }
  return false;
}
static bool intEmpty1(Poly q) {
  { Poly r = q; std::set<int> vs; for (auto &g : q.ge) for (auto &t : g.t) if (t.second > 1 || t.second < -1) vs.insert(t.first);
    if (vs.empty()) return false;
    r.project([&](int v) { return vs.count(v) > 0; }); if (r.checkBottom()) return true;    // combinations are rounded
    for (auto &g : r.ge) q.addGe(g); if (q.checkBottom()) return true; }
  for (int round = 0; round < 2; round++) {
    std::set<int> vs; for (auto &g : q.ge) for (auto &t : g.t) if (t.second > 1 || t.second < -1) vs.insert(t.first);
    if (vs.empty() || vs.size() > 12) return false;
    bool ch = false;
    for (int v : vs) {
      Lin x = Lin::var(v); i128 L = VARS[v].lo, H = VARS[v].hi, lo = L, hi = H;
      auto fe = [&](const Lin &c) { Poly t = q; t.addGe(c); return !t.checkBottom(); };
      if (!fe(Lin(H) - x)) return true;
      for (auto &g : q.ge) if (g.t.size() == 1 && g.t[0].first == v) { if (g.t[0].second == 1 && -g.k > lo) lo = -g.k; if (g.t[0].second == -1 && g.k < hi) hi = g.k; }
      i128 a = lo, b = hi;
      if (a > b) return true;
      if (!fe(Lin(b) - x)) return true;
      while (a < b) { i128 m = a + (b - a) / 2; if (fe(Lin(m) - x)) b = m; else a = m + 1; }   // smallest m with x <= m possible
      i128 nlo = a; a = nlo; b = hi;
      if (!fe(x - Lin(a))) return true;
      while (a < b) { i128 m = a + (b - a + 1) / 2; if (fe(x - Lin(m))) a = m; else b = m - 1; }
      i128 nhi = a;
      if (nlo > nhi) return true;
      if (nlo > lo || nhi < hi) { q.addGe(x - Lin(nlo)); q.addGe(Lin(nhi) - x); ch = true; if (q.checkBottom()) return true; }
    }
    if (!ch) return false;
  }
  return false;
}
static bool holdsInt(State &s, const Lin &e0) {
  if (holds(s, e0)) return true;
  Poly q = s.P; Lin e = q.norm(e0); if (!e.isConst()) { q.addGe(-e - Lin(1)); if (q.checkBottom()) return true; }
  return intEmpty(q);
}
// two bounded forms that differ by a multiple of g, of which only one fits the bounds, are equal up to it
static void strideEqs(State &s) {
  for (int round = 0; round < 4; round++) {
    std::map<std::vector<std::pair<int, i128>>, std::pair<i128, i128>> iv;   // form -> [lo, hi] as far as given
    for (auto &g : s.P.ge) if (g.t.size() >= 2) {
      bool neg = g.t[0].second < 0; auto t = g.t; if (neg) for (auto &x : t) x.second = -x.second;
      auto f = iv.find(t); if (f == iv.end()) f = iv.insert({t, {-BIG, BIG}}).first;
      if (neg) f->second.second = std::min(f->second.second, g.k); else f->second.first = std::max(f->second.first, -g.k);
    }
    std::vector<std::pair<Lin, std::pair<i128, i128>>> fs;
    for (auto &x : iv) if (x.second.first > -BIG && x.second.second < BIG && x.second.second - x.second.first < pow2(20)) { Lin l; l.t = x.first; fs.push_back({l, x.second}); }
    bool ch = false;
    for (size_t i = 0; i < fs.size() && !ch; i++) for (size_t j = i + 1; j < fs.size() && !ch; j++) for (int sg = 1; sg >= -1 && !ch; sg -= 2) {
      Lin d = sg > 0 ? fs[i].first - fs[j].first : fs[i].first + fs[j].first; if (d.isConst()) continue;
      i128 g = 0; for (auto &t : d.t) { i128 x = t.second < 0 ? -t.second : t.second; while (x) { i128 r = g % x; g = x; x = r; } }
      if (g <= 1) continue;
      i128 lo = fs[i].second.first - (sg > 0 ? fs[j].second.second : -fs[j].second.first), hi = fs[i].second.second - (sg > 0 ? fs[j].second.first : -fs[j].second.second);
      auto fl = [](i128 a, i128 b) { i128 q = a / b; if (a % b != 0 && a < 0) q--; return q; };
      i128 ml = -fl(-lo, g), mh = fl(hi, g);
      if (ml == mh) { s.P.addEq(d - Lin(ml * g)); ch = true; }
    }
    if (!ch) return;
  }
}
static void normState(State &s) {
  if (!s.prods.empty()) reexpand(s);
  // rewrite all values by the solved equalities (copy on write)
  for (auto &e : s.st) { bool need = false; for (auto &kv : *e) { const Val &v = kv.second; if (!(s.P.norm(v.n) == v.n) || (v.pobj >= 0 && !(s.P.norm(v.poff) == v.poff)) || !(s.P.norm(v.clen) == v.clen)) { need = true; break; } }
    if (need) { e = std::make_shared<Env>(*e); for (auto &kv : *e) { Val &v = kv.second; v.n = s.P.norm(v.n); v.poff = s.P.norm(v.poff); v.clen = s.P.norm(v.clen); } } }
  std::vector<std::pair<int, std::shared_ptr<Obj>>> upd;
  for (auto &m : s.mem) { auto o = m.second; bool need = !(s.P.norm(o->size) == o->size); if (!need) for (auto &c : o->cells) if (!(s.P.norm(c.off) == c.off) || !(s.P.norm(c.len) == c.len) || !(s.P.norm(c.v.n) == c.v.n) || !(s.P.norm(c.v.poff) == c.v.poff) || !(s.P.norm(c.v.clen) == c.v.clen)) { need = true; break; }
    if (need) { o = std::make_shared<Obj>(*o); o->size = s.P.norm(o->size); for (auto &c : o->cells) { c.off = s.P.norm(c.off); c.len = s.P.norm(c.len); c.v.n = s.P.norm(c.v.n); c.v.poff = s.P.norm(c.v.poff); c.v.clen = s.P.norm(c.v.clen); } upd.push_back({m.first, o}); } }
  for (auto &u : upd) s.mem[u.first] = u.second;
  for (auto &x : s.facts) { x.ao = s.P.norm(x.ao); x.bo = s.P.norm(x.bo); x.len = s.P.norm(x.len); }
}
static void gc(State &s) {    // forget objects and variables no value refers to
  { std::set<int> seen; std::vector<int> todo; auto see = [&](const Val &v) { if (v.k == Val::Ptr || v.k == Val::Cmp) if (seen.insert(v.obj).second) todo.push_back(v.obj); if (v.pobj >= 0 && seen.insert(v.pobj).second) todo.push_back(v.pobj); };
    for (auto &m : s.mem) if (!m.second->heap && seen.insert(m.first).second) todo.push_back(m.first);
    for (auto &e : s.st) for (auto &kv : *e) see(kv.second);
    while (!todo.empty()) { int o = todo.back(); todo.pop_back(); auto it = s.mem.find(o); if (it != s.mem.end()) for (auto &c : it->second->cells) if (!c.fill) see(c.v); }
    bool dead = false; for (auto &m : s.mem) if (!seen.count(m.first)) dead = true;
    if (dead) { auto &M = s.mem.w(); for (auto it = M.begin(); it != M.end();) if (!seen.count(it->first)) it = M.erase(it); else ++it; }
    s.facts.erase(std::remove_if(s.facts.begin(), s.facts.end(), [&](const Fact &f) { return !s.mem.count(f.a) || !s.mem.count(f.b); }), s.facts.end()); }
  normState(s);
  std::set<int> keep = valueVars(s);
  if (!s.divs.empty()) for (auto it = s.divs.w().begin(); it != s.divs.end();) {
    bool ok = true; std::set<int> vs; linVars(s.P.norm(it->first.first), vs); linVars(s.P.norm(it->second), vs); for (int v : vs) if (!keep.count(v)) ok = false;
    if (!ok) it = s.divs.w().erase(it); else ++it;
  }
  { std::map<std::pair<Lin, Lin>, Lin> nd;      // a quotient is kept with its dividend and divisor
    for (auto &d : s.ndivs) { Lin a = s.P.norm(d.first.first), b = s.P.norm(d.first.second), q = s.P.norm(d.second); std::set<int> vs; linVars(a, vs); linVars(b, vs); bool ok = true; for (int v : vs) if (!keep.count(v)) ok = false; if (ok) { nd[{a, b}] = q; linVars(q, keep); } }
    if (!s.ndivs.empty()) s.ndivs.w() = nd; }
  if (!s.prods.empty()) for (auto it = s.prods.w().begin(); it != s.prods.end();) {
    if (!keep.count(it->first.first) || !keep.count(it->first.second)) { it = s.prods.w().erase(it); continue; }
    ++it;
  }
  if (!s.prods.empty()) for (auto &p : s.prods.w()) { p.second = s.P.norm(p.second); linVars(p.second, keep); }
  s.P.project([&](int v) { return keep.count(v) > 0; });
}
static std::string sigVal(const Val &v, bool consts) {
  switch (v.k) {
  case Val::Undef: return "u"; case Val::Top: return "t"; case Val::Null: return "0"; case Val::Fn: return "f" + v.fn->getName().str();
  case Val::Ptr: return "p" + std::to_string(v.obj);
  case Val::Cmp: return "t";
  case Val::Num: { i128 c; if (consts && v.isC(c) && c >= 0 && c < 256) return "n" + i128s(c); return "n"; }
  }
  return "?";
}
typedef std::set<std::pair<int, i128>> CellSet;     // cells not used for partitioning (object, offset)
static std::string signature(State &s, const CellSet &coarse, bool consts, bool envc = false) {
  std::string r;
  if (envc) for (size_t f = 0; f < s.st.size(); f++) for (auto &kv : *s.st[f]) if (kv.first != RETKEY && kv.second.k == Val::Num && !coarse.count({-1 - (int)f, (i128)kv.first})) { auto x = sigVal(kv.second, true); if (x != "n") r += std::to_string(kv.first) + x + ","; }
  for (auto &e : s.st) { for (auto &kv : *e) if (kv.first == RETKEY) r += "R" + sigVal(kv.second, true) + ","; else if (kv.second.k == Val::Ptr || kv.second.k == Val::Null || kv.second.k == Val::Fn) r += std::to_string(kv.first) + sigVal(kv.second, false) + ","; r += "|"; }
  for (auto &m : s.mem) {
    if (m.second->touched) r += "T" + std::to_string(m.first) + ",";
    if (m.second->data) continue;
    std::map<i128, std::string> cs;
    for (auto &c : m.second->cells) if (!c.fill && c.off.isConst()) {
      if (c.v.k == Val::Ptr || c.v.k == Val::Null) cs[c.off.k] = sigVal(c.v, false);
      else if (c.v.k == Val::Num && consts && !coarse.count({m.first, c.off.k})) { auto x = sigVal(c.v, true); if (x != "n") cs[c.off.k] = x; }
    }
    if (!cs.empty()) { r += "M" + std::to_string(m.first) + ":"; for (auto &x : cs) r += i128s(x.first) + x.second + ","; }
  }
  return r;
}
// substitute variables by linear expressions
static Lin subst(const Lin &l, const std::map<int, Lin> &m) {
  bool need = false; for (auto &p : l.t) if (m.count(p.first)) need = true;
  if (!need) return l;
  Lin r(l.k); for (auto &p : l.t) { auto it = m.find(p.first); if (it == m.end()) { Lin v; v.t.push_back(p); r = r + v; } else r = r + p.second * it->second; }
  return r;
}
struct Slot { int var; std::vector<Lin> vals; };
// join of states with equal signature. widenFrom: state whose inequalities are the only candidates
static State joinStates(std::vector<State *> ss, bool widen) {
  NJOIN++;
  if (ss.size() == 1) return *ss[0];
  for (auto *s : ss) normState(*s);
  size_t n = ss.size();
  State J; J.divs.clear();
  std::vector<Slot> slots;
  std::map<std::vector<Lin>, int> slotIdx; std::vector<Lin> strided;
  auto joinLin = [&](const std::vector<Lin> &ls, const std::string &name, i128 lo, i128 hi) -> Lin {
    bool same = true; for (size_t i = 1; i < n; i++) if (!(ls[i] == ls[0])) { same = false; break; }
    if (same) return ls[0];
    auto it = slotIdx.find(ls); if (it != slotIdx.end() && VARS[slots[it->second].var].hi <= hi && VARS[slots[it->second].var].lo >= lo) return Lin::var(slots[it->second].var);
    if (STRIDES) {
      i128 g = 0; auto acc = [&](i128 x) { if (x < 0) x = -x; while (x) { i128 t = g % x; g = x; x = t; } };
      for (auto &l : ls) { Lin d = l - ls[0]; for (auto &t : d.t) acc(t.second); acc(d.k); }
      if (g > 1 && g < pow2(20)) {
        auto md = [&](i128 x) { x %= g; return x < 0 ? x + g : x; };
        Lin base(md(ls[0].k)); i128 bl = base.k, bh = base.k; for (auto &t : ls[0].t) if (md(t.second)) { i128 c = md(t.second); if (c > g / 2) c -= g; Lin b; b.t.push_back({t.first, c}); base = base + b; auto &vi = VARS[t.first]; bl += c > 0 ? c * vi.lo : c * vi.hi; bh += c > 0 ? c * vi.hi : c * vi.lo; }
        std::vector<Lin> qs; for (auto &l : ls) { Lin q = l - base; q.k /= g; for (auto &t : q.t) t.second /= g; qs.push_back(q); }
        auto fl = [](i128 a, i128 b) { i128 q = a / b; if (a % b != 0 && a < 0) q--; return q; };
        auto i2 = slotIdx.find(qs); int v; i128 l2 = -fl(-(lo - bh), g), h2 = fl(hi - bl, g);
        if (i2 != slotIdx.end() && VARS[slots[i2->second].var].hi <= h2 && VARS[slots[i2->second].var].lo >= l2) v = slots[i2->second].var;
        else { v = newVar(name + "/" + i128s(g), l2, h2); slotIdx[qs] = slots.size(); slots.push_back({v, qs}); }
        strided.push_back(g * Lin::var(v) + base); return strided.back();
      }
    }
    int v = newVar(name, lo, hi); slotIdx[ls] = slots.size(); slots.push_back({v, ls}); return Lin::var(v);
  };
  auto joinVal = [&](const std::vector<Val> &vs, const std::string &name, Val &out) -> bool {
    Val r = vs[0];
    bool allZeroOrCmp = true, anyCmp = false; const Val *cmp = nullptr;
    for (auto &v : vs) { if (v.k == Val::Cmp) { anyCmp = true; cmp = &v; } else { i128 c; if (!(v.isC(c) && c == 0)) allZeroOrCmp = false; } }
    if (anyCmp && allZeroOrCmp) {
      std::vector<Lin> a, b, l; bool ok = true;
      for (auto &v : vs) if (v.k == Val::Cmp) { if (v.obj != cmp->obj || v.pobj != cmp->pobj) ok = false; a.push_back(v.n); b.push_back(v.poff); l.push_back(v.clen); } else { a.push_back(cmp->n); b.push_back(cmp->poff); l.push_back(Lin(0)); }
      for (auto &x : a) for (auto &q : x.t) (void)q;
      if (ok) { bool sameA = true, sameB = true; for (auto &x : a) if (!(x == a[0])) sameA = false; for (auto &x : b) if (!(x == b[0])) sameB = false;
        if (sameA && sameB) { r = *cmp; for (auto &v : vs) if (v.k == Val::Cmp) r.plen = std::max(r.plen, v.plen); r.n = a[0]; r.poff = b[0]; r.clen = joinLin(l, name + ".n", 0, pow2(62)); out = r; return true; } }
      out = Val::top(cmp->bits); return true;
    }
    for (auto &v : vs) if (v.k != r.k) {
      unsigned b = 0; bool num = true; for (auto &w : vs) { if (w.k != Val::Top && w.k != Val::Num && w.k != Val::Cmp) num = false; b = std::max(b, w.bits); }
      if (num) { out = Val::top(b); return true; }
      out = Val(); return false;
    }
    switch (r.k) {
    case Val::Undef: case Val::Null: out = r; return true;
    case Val::Fn: for (auto &v : vs) if (v.fn != r.fn) { out = Val(); return false; } out = r; return true;
    case Val::Top: { unsigned b = 0; bool sp = true; for (auto &v : vs) { b = std::max(b, v.bits); if (v.pobj != r.pobj || v.plen != r.plen || v.hb != r.hb || !(v.poff == r.poff)) sp = false; } out = sp ? r : Val::top(b); out.bits = b; return true; }
    case Val::Num: { std::vector<Lin> ls; unsigned b = 0; for (auto &v : vs) { ls.push_back(v.n); b = std::max(b, v.bits); } out = Val::num(b, joinLin(ls, name, 0, pow2(b) - 1)); return true; }
    case Val::Ptr: { std::vector<Lin> ls; for (auto &v : vs) { if (v.obj != r.obj) { out = Val(); return false; } ls.push_back(v.n); } out = Val::ptr(r.obj, joinLin(ls, name + ".o", -pow2(62), pow2(62))); return true; }
    default: out = Val::top(64); return true;
    }
  };
  // frames
  for (size_t f = 0; f < ss[0]->st.size(); f++) {
    bool same = true; for (size_t i = 1; i < n; i++) if (ss[i]->st[f] != ss[0]->st[f]) same = false;
    if (same) { J.st.push_back(ss[0]->st[f]); continue; }
    auto E = std::make_shared<Env>();
    for (auto &kv : *ss[0]->st[f]) {
      std::vector<Val> vs; bool all = true; for (auto *s : ss) { auto it = s->st[f]->find(kv.first); if (it == s->st[f]->end()) { all = false; break; } vs.push_back(it->second); }
      if (!all) continue;
      Val o; std::string nm = kv.first == RETKEY ? std::string("ret") : VNrev[kv.first]->hasName() ? VNrev[kv.first]->getName().str() : "v" + std::to_string(kv.first);
      joinVal(vs, nm, o); (*E)[kv.first] = o;
    }
    J.st.push_back(E);
  }
  for (auto &m : ss[0]->mem) {
    bool all = true, same = true; for (auto *s : ss) { auto it = s->mem.find(m.first); if (it == s->mem.end()) { all = false; break; } if (it->second != m.second) same = false; }
    if (!all) continue;
    if (same) { J.mem[m.first] = m.second; continue; }
    auto O = std::make_shared<Obj>(*m.second); O->cells.clear(); for (auto *s : ss) if (s->mem.at(m.first)->touched) O->touched = true;
    std::vector<Lin> sz; for (auto *s : ss) sz.push_back(s->mem.at(m.first)->size); O->size = joinLin(sz, O->name + ".size", 0, pow2(62));
    // exact cells with equal position
    for (auto &c : m.second->cells) if (!c.fill) {
      std::vector<Val> vs; bool ok = true;
      for (auto *s : ss) { const Cell *hit = nullptr; for (auto &d : s->mem.at(m.first)->cells) if (!d.fill && d.off == c.off && d.len == c.len) hit = &d;
        if (hit) { vs.push_back(hit->v); continue; }
        // constant inside a fill
        for (auto &d : s->mem.at(m.first)->cells) if (d.fill && d.off.isConst() && d.len.isConst() && c.off.isConst() && c.len.isConst() && d.off.k <= c.off.k && c.off.k + c.len.k <= d.off.k + d.len.k && c.len.k <= 8 && c.v.k == Val::Num) { i128 x = 0; for (int b = 0; b < (int)c.len.k; b++) x = x * 256 + d.byte; vs.push_back(Val::num(c.v.bits, Lin(x))); hit = &d; break; }
        if (!hit) { ok = false; break; } }
      if (!ok) {    // a cell at a position that has a different name in each state
        bool an = m.second->data; if (c.off.isConst() && !an) continue;
        std::vector<Lin> offs; vs.clear(); ok = true; size_t ord = 0; for (auto &d : m.second->cells) { if (&d == &c) break; if (!d.fill && (an || !d.off.isConst()) && d.len == c.len) ord++; }
        for (auto *s : ss) { const Cell *hit = nullptr; size_t k = 0; for (auto &d : s->mem.at(m.first)->cells) if (!d.fill && (an || !d.off.isConst()) && d.len == c.len) { if (k == ord) hit = &d; k++; } if (!hit) { ok = false; break; } offs.push_back(hit->off); vs.push_back(hit->v); }
        if (!ok) continue;
        Cell o; o.off = joinLin(offs, O->name + ".at", 0, pow2(62)); o.len = c.len;
        if (joinVal(vs, O->name + "+?", o.v) && (o.v.k != Val::Top || (c.len.isConst() && o.v.bits < 8 * (unsigned)c.len.k && c.len.k <= 8)) && o.v.k != Val::Undef) O->cells.push_back(o);
        continue;
      }
      Cell o; o.off = c.off; o.len = c.len; if (joinVal(vs, O->name + "+" + c.off.str(), o.v) && (o.v.k != Val::Top || (c.len.isConst() && o.v.bits < 8 * (unsigned)c.len.k && c.len.k <= 8)) && o.v.k != Val::Undef) O->cells.push_back(o);
    }
    // fills: same start and byte; a state without one contributes an empty fill
    std::vector<std::pair<Lin, unsigned>> starts;
    for (auto *s : ss) for (auto &c : s->mem.at(m.first)->cells) if (c.fill) { auto k = std::make_pair(c.off, c.byte); if (std::find(starts.begin(), starts.end(), k) == starts.end()) starts.push_back(k); }
    for (auto &k : starts) {
      std::vector<Lin> ln; bool some = true;
      for (auto *s : ss) { const Cell *hit = nullptr; for (auto &d : s->mem.at(m.first)->cells) if (d.fill && d.off == k.first && d.byte == k.second) hit = &d; ln.push_back(hit ? hit->len : Lin(0)); }
      // start must be meaningful in every state: only shared variables (checked by the caller through columns)
      std::set<int> sv; linVars(k.first, sv); bool shared = true;
      if (!k.first.isConst()) { for (auto *s : ss) { bool has = false; for (auto &d : s->mem.at(m.first)->cells) if (d.fill && d.off == k.first) has = true; if (!has) shared = false; } }
      if (!shared || !some) continue;
      Cell o; o.off = k.first; o.fill = true; o.byte = k.second; o.len = joinLin(ln, O->name + ".fill", 0, pow2(62));
      if (o.len.isConst() && o.len.k == 0) continue;
      // must not overlap kept cells: drop exact cells inside a fill region of constant extent
      O->cells.push_back(o);
    }
    // remove exact cells overlapping (possibly) fills
    { std::vector<Cell> out; for (auto &c : O->cells) { bool bad = false; if (!c.fill) for (auto &d : O->cells) if (d.fill) { if (d.off.isConst() && d.len.isConst() && c.off.isConst() && c.len.isConst()) { if (!(c.off.k + c.len.k <= d.off.k || d.off.k + d.len.k <= c.off.k)) bad = true; } } if (!bad) out.push_back(c); } O->cells = out; }
    J.mem[m.first] = O;
  }
  for (auto &x : ss[0]->facts) { bool all = true; for (auto *s : ss) { bool h = false; for (auto &y : s->facts) if (y.eq == x.eq && y.a == x.a && y.b == x.b && y.ao == x.ao && y.bo == x.bo && y.len == x.len) h = true; if (!h) all = false; } if (all) J.facts.push_back(x); }
  if (COPYFACTS) {      // the one remaining copy between two objects, at merged positions
    auto sameF = [](const Fact &x, const Fact &y) { return y.eq == x.eq && y.a == x.a && y.b == x.b && y.ao == x.ao && y.bo == x.bo && y.len == x.len; };
    auto rest = [&](State *s, const Fact &k) { std::vector<const Fact *> r; for (auto &y : s->facts) if (y.eq == k.eq && y.a == k.a && y.b == k.b) { bool c = false; for (auto &z : J.facts) if (sameF(y, z)) c = true; if (!c) r.push_back(&y); } return r; };
    std::vector<Fact> add;
    for (auto &x : ss[0]->facts) {
      std::vector<Lin> ao, bo, ln; bool ok = x.eq; for (auto *s : ss) { auto r = rest(s, x); if (r.size() != 1) { ok = false; break; } ao.push_back(r[0]->ao); bo.push_back(r[0]->bo); ln.push_back(r[0]->len); }
      if (!ok) continue;
      Fact f = x; f.ao = joinLin(ao, "fact.a", 0, pow2(62)); f.bo = joinLin(bo, "fact.b", 0, pow2(62)); f.len = joinLin(ln, "fact.n", 0, pow2(62)); add.push_back(f);
    }
    for (auto &f : add) J.facts.push_back(f);
  }
  // products of a merged value with a variable common to all states
  { size_t ns = slots.size();
    std::vector<std::map<int, std::set<int>>> by(n); for (size_t i = 0; i < n; i++) for (auto &p : ss[i]->prods) { by[i][p.first.first].insert(p.first.second); by[i][p.first.second].insert(p.first.first); }
    for (size_t k = 0; k < ns; k++) {
      std::set<int> ys; for (size_t i = 0; i < n; i++) for (auto &t : ss[i]->P.norm(slots[k].vals[i]).t) { auto f = by[i].find(t.first); if (f != by[i].end()) ys.insert(f->second.begin(), f->second.end()); }
      std::set<int> quo; for (auto *s : ss) for (auto &d : s->ndivs) linVars(d.second, quo);
      for (int y : ys) {
        bool ok = !quo.count(y); for (auto *s : ss) if (!(s->P.norm(Lin::var(y)) == Lin::var(y))) ok = false; if (!ok) continue;
        std::vector<Lin> ls; for (size_t i = 0; i < n && ok; i++) for (auto &t : ss[i]->P.norm(slots[k].vals[i]).t) if (!ss[i]->prods.count({std::min(t.first, y), std::max(t.first, y)})) ok = false;
        for (size_t i = 0; i < n && ok; i++) { Lin e; if (!mulLin(*ss[i], slots[k].vals[i], Lin::var(y), e)) ok = false; ls.push_back(e); } if (!ok) continue;
        i128 lo = 0, hi = 0; bool first = true; { i128 c[4]; int v = slots[k].var; c[0] = VARS[v].lo; c[1] = VARS[v].hi; if (VARS[y].hi > pow2(36) || VARS[y].lo < 0 || c[1] > pow2(64) || c[0] < -pow2(64)) { lo = -BIG; hi = BIG; } else { for (int q = 0; q < 2; q++) for (i128 z : {VARS[y].lo, VARS[y].hi}) { i128 x = c[q] * z; if (first || x < lo) lo = x; if (first || x > hi) hi = x; first = false; } } }
        Lin p = joinLin(ls, "prod", lo, hi); int a = slots[k].var, b = y; if (a > b) std::swap(a, b); J.prods[{a, b}] = p;
      }
    }
    for (auto &p : ss[0]->prods) { bool all = true; for (auto *s : ss) { auto it = s->prods.find(p.first); if (it == s->prods.end() || !(s->P.norm(it->second) == ss[0]->P.norm(p.second))) all = false; } if (all) J.prods[p.first] = p.second; }
    for (auto &p : ss[0]->ndivs) { bool all = true; for (auto *s : ss) { auto it = s->ndivs.find(p.first); if (it == s->ndivs.end() || !(it->second == p.second)) all = false; } if (all) J.ndivs[p.first] = p.second; }
  }
  // columns: fresh slots and variables known to all states
  std::set<int> shared; bool first = true;
  for (auto *s : ss) {
    std::set<int> m; for (auto &q : s->P.sub) { m.insert(q.first); linVars(q.second, m); } for (auto &q : s->P.ge) linVars(q, m);
    auto vv = valueVars(*s); m.insert(vv.begin(), vv.end());
    if (first) shared = m; else { std::set<int> t; for (int v : shared) if (m.count(v)) t.insert(v); shared = t; }
    first = false;
  }
  // only shared variables that remain referenced by the joined values
  std::set<int> ref = valueVars(J); for (auto &sl : slots) ref.erase(sl.var);
  std::set<int> colsv; for (int v : shared) colsv.insert(v);
  // variables referenced by J but not in `shared` appear identically in all states, so they are shared as well
  for (int v : ref) colsv.insert(v);
  std::vector<int> cols; for (auto &sl : slots) cols.push_back(sl.var); for (int v : colsv) cols.push_back(v);
  std::vector<std::vector<Lin>> vals(n);
  for (size_t i = 0; i < n; i++) { for (auto &sl : slots) vals[i].push_back(ss[i]->P.norm(sl.vals[i])); for (int v : colsv) vals[i].push_back(ss[i]->P.norm(Lin::var(v))); }
  auto hull = affineHull(vals, (int)cols.size());
  for (auto &h : hull) { Lin e(h[cols.size()]); for (size_t c = 0; c < cols.size(); c++) if (h[c] != 0) e = e + h[c] * Lin::var(cols[c]); J.P.addEq(e); }
  std::vector<std::map<int, Lin>> sb(n); for (size_t i = 0; i < n; i++) for (auto &sl : slots) sb[i][sl.var] = sl.vals[i];
  std::set<int> colset(cols.begin(), cols.end()), keep = ref; for (auto &sl : slots) keep.insert(sl.var);
  std::vector<Lin> cand;
  for (size_t i = 0; i < n; i++) {
    if (widen && i > 0) break;
    Poly Q = ss[i]->P; for (auto &sl : slots) Q.addEq(Lin::var(sl.var) - sl.vals[i]);
    auto harvest = [&](Poly &R) {
      for (auto &g : R.ge) cand.push_back(g);
      for (auto &q : R.sub) { Lin e = Lin::var(q.first) - q.second; cand.push_back(e); cand.push_back(-e);
        // intrinsic range of the solved variable is a constraint on its definition
        cand.push_back(q.second - Lin(VARS[q.first].lo)); cand.push_back(Lin(VARS[q.first].hi) - q.second); } };
    Poly Q2 = Q;
    Q.project([&](int v) { return colset.count(v) > 0; }); harvest(Q);
    // the same in terms of what the joined values refer to: a merged value takes the place of its constituents
    if (!widen) { Q2.project([&](int v) { return keep.count(v) > 0; }); harvest(Q2); }
  }
  if (!widen || true) {
    size_t ns = slots.size();
    for (size_t a = 0; a < ns && ns <= 24; a++) for (size_t b = 0; b < cols.size() && cols.size() <= 60; b++) if (a != b) {
      if (widen) break;
      Lin d = Lin::var(cols[b]) - Lin::var(cols[a]);
      cand.push_back(d); cand.push_back(d - Lin(1)); if (b >= ns) cand.push_back(-d);
    }
  }
  for (auto &sl : slots) if (VARS[sl.var].lo == 0) cand.push_back(Lin::var(sl.var) - Lin(1));
  std::sort(cand.begin(), cand.end()); cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
  for (auto &c : cand) {
    if (c.t.empty()) continue;
    if (J.P.entailsGe(c)) continue;
    bool ok = true; for (size_t i = 0; i < n && ok; i++) ok = ss[i]->P.entailsGe(subst(c, sb[i]));
    if (ok) J.P.addGe(c);
  }
  // a merged value defined by an affine relation has no bound of its own yet: the loosest of its bounds in the merged states
  std::sort(strided.begin(), strided.end()); strided.erase(std::unique(strided.begin(), strided.end()), strided.end());
  std::vector<Lin> bounded = strided; for (auto &sl : slots) if (J.P.norm(Lin::var(sl.var)).t.size() >= 2) bounded.push_back(Lin::var(sl.var));
  for (auto &bv : bounded) {
    for (int up = 0; up < 2; up++) {
      i128 K = 0; bool some = false;
      for (size_t i = 0; i < n; i++) {
        if (widen && i > 0) break;
        Lin x = ss[i]->P.norm(subst(bv, sb[i])); if (up) x = -x;                // lower bound of x
        i128 k = 0; bool h = false;
        if (x.isConst()) { k = x.k; h = true; }
        else for (auto &g : ss[i]->P.ge) if (g.t == x.t && (!h || x.k - g.k > k)) { k = x.k - g.k; h = true; }
        if (h && (!some || k < K)) { K = k; some = true; }
      }
      if (!some) continue;
      Lin c = (up ? -bv : bv) - Lin(K);
      if (J.P.entailsGe(c)) continue;
      bool ok = true; for (size_t i = 0; i < n && ok; i++) ok = ss[i]->P.entailsGe(subst(c, sb[i]));
      if (ok) J.P.addGe(c);
    }
  }
  // a bound that only follows from several constraints would be lost: keep the tightest threshold
  for (int cv : cols) if (VARS[cv].hi >= pow2(32) - 1) for (int b : {20, 31, 44, 54, 60}) {
    if (pow2(b) >= VARS[cv].hi) break;
    Lin c = Lin(pow2(b)) - Lin::var(cv); bool direct = false; for (auto &g : J.P.ge) if (g.t == c.t) direct = true; if (direct) break;
    bool ok = true; for (size_t i = 0; i < n && ok; i++) ok = ss[i]->P.entailsGe(subst(c, sb[i]));
    if (ok) { J.P.addGe(c); break; }
  }
  // division memo common to all
  for (auto &d : ss[0]->divs) { bool all = true; for (auto *s : ss) { auto it = s->divs.find(d.first); if (it == s->divs.end() || !(it->second == d.second)) all = false; } std::set<int> vs; linVars(d.first.first, vs); linVars(d.second, vs); for (int v : vs) if (!colsv.count(v)) all = false; if (all) J.divs.w().insert(d); }
  for (auto &sl : slots) J.slots.insert(sl.var);
  for (auto *s : ss) J.slots.insert(s->slots.begin(), s->slots.end());
  gc(J);
  { auto vv = valueVars(J); for (auto it = J.slots.begin(); it != J.slots.end();) if (!vv.count(*it)) it = J.slots.erase(it); else ++it; }
  return J;
}
// does B satisfy the invariant I (same signature)?
static bool included1(State &I, State &B) {
  normState(I); normState(B);
  std::map<int, Lin> m; bool ok = true; std::vector<std::pair<Lin, Lin>> later;
  auto bind = [&](const Lin &i, const Lin &b) {
    if (i.t.size() == 1 && i.t[0].second == 1 && I.slots.count(i.t[0].first)) { int v = i.t[0].first; auto f = m.find(v); if (f == m.end()) { m[v] = b - Lin(i.k); return; } if (f->second == b - Lin(i.k)) return; }
    else if (STRIDES) {
      int v = -1, k = 0; i128 g = 0; for (auto &t : i.t) if (I.slots.count(t.first)) { v = t.first; g = t.second; k++; }
      if (k == 1 && g >= 1) {
        Lin d = b - i + g * Lin::var(v); bool dv = d.k % g == 0; for (auto &t : d.t) if (t.second % g) dv = false;
        if (dv) { d.k /= g; for (auto &t : d.t) t.second /= g; auto f = m.find(v); if (f == m.end()) { m[v] = d; return; } if (f->second == d) return; }
      } else if (k == 0 && i == b) return;
    }
    else if (i == b) { bool sl = false; for (auto &p : i.t) if (I.slots.count(p.first)) sl = true; if (!sl) return; }
    later.push_back({i, b}); };
  auto bindVal = [&](const Val &i, const Val &b) {
    if (i.k == Val::Undef) return; if (i.k == Val::Top) { if (b.k == Val::Top) { if (b.bits > i.bits) ok = false; if (i.pobj >= 0 && (b.pobj != i.pobj || b.plen != i.plen || b.hb != i.hb)) ok = false; else if (i.pobj >= 0) bind(i.poff, b.poff); } return; }
    if (i.k == Val::Cmp) { if (b.k == Val::Cmp) { if (b.obj != i.obj || b.pobj != i.pobj || b.plen > i.plen) ok = false; else { bind(i.n, b.n); bind(i.poff, b.poff); bind(i.clen, b.clen); } } else { i128 c; if (b.isC(c) && c == 0) bind(i.clen, Lin(0)); else ok = false; } return; }
    if (i.k != b.k) { ok = false; return; }
    if (i.k == Val::Ptr) { if (i.obj != b.obj) ok = false; else bind(i.n, b.n); }
    if (i.k == Val::Num) { bind(i.n, b.n); if (i.pobj >= 0) { if (b.pobj != i.pobj || b.plen != i.plen) ok = false; else bind(i.poff, b.poff); } }
    if (i.k == Val::Fn && i.fn != b.fn) ok = false;
  };
  for (size_t f = 0; f < I.st.size(); f++) { if (I.st[f] == B.st[f] && I.slots.empty()) continue; for (auto &kv : *I.st[f]) { auto it = B.st[f]->find(kv.first); if (it == B.st[f]->end()) { if (kv.second.k != Val::Undef) return false; continue; } bindVal(kv.second, it->second); } }
  for (auto &mo : I.mem) {
    auto it = B.mem.find(mo.first); if (it == B.mem.end()) return false; if (it->second == mo.second && I.slots.empty()) continue;
    bind(mo.second->size, it->second->size); if (it->second->touched && !mo.second->touched) return false;
    for (auto &c : mo.second->cells) {
      const Cell *hit = nullptr;
      for (auto &d : it->second->cells) if (d.fill == c.fill && d.off == c.off && (c.fill ? d.byte == c.byte : d.len == c.len)) hit = &d;
      if (c.fill) { bind(c.len, hit ? hit->len : Lin(0)); continue; }
      if (hit) { bindVal(c.v, hit->v); continue; }
      bool inF = false;
      for (auto &d : it->second->cells) if (d.fill && d.off.isConst() && d.len.isConst() && c.off.isConst() && c.len.isConst() && d.off.k <= c.off.k && c.off.k + c.len.k <= d.off.k + d.len.k && c.len.k <= 8 && c.v.k == Val::Num) { i128 x = 0; for (int b = 0; b < (int)c.len.k; b++) x = x * 256 + d.byte; bindVal(c.v, Val::num(c.v.bits, Lin(x))); inF = true; break; }
      if (!inF && !c.off.isConst()) {
        size_t ord = 0; bool an = mo.second->data; for (auto &d : mo.second->cells) { if (&d == &c) break; if (!d.fill && (an || !d.off.isConst()) && d.len == c.len) ord++; }
        size_t k = 0; const Cell *h2 = nullptr; for (auto &d : it->second->cells) if (!d.fill && (an || !d.off.isConst()) && d.len == c.len) { if (k == ord) h2 = &d; k++; }
        if (h2) { bind(c.off, h2->off); bindVal(c.v, h2->v); inF = true; }
      }
      if (!inF) return false;
    }
  }
  for (auto &x : I.facts) { bool h = false; for (auto &y : B.facts) if (y.eq == x.eq && y.a == x.a && y.b == x.b && y.ao == x.ao && y.bo == x.bo && y.len == x.len) h = true; if (!h && COPYFACTS && x.eq) { const Fact *r = nullptr; int n = 0; for (auto &y : B.facts) if (y.eq && y.a == x.a && y.b == x.b) { bool c = false; for (auto &z : I.facts) if (z.eq && z.a == y.a && z.b == y.b && z.ao == y.ao && z.bo == y.bo && z.len == y.len) c = true; if (!c) { r = &y; n++; } }
    if (n == 1) { bind(x.ao, r->ao); bind(x.bo, r->bo); bind(x.len, r->len); h = true; } }
    if (!h) return false; }
  if (!ok) return false;
  auto slotOf = [&](const Lin &l) { return l.t.size() == 1 && l.t[0].second == 1 && l.k == 0 && I.slots.count(l.t[0].first) ? l.t[0].first : -1; };
  for (auto &d : I.ndivs) {
    std::set<int> vs; linVars(d.first.first, vs); linVars(d.first.second, vs); linVars(d.second, vs); bool sl = false; for (int v : vs) if (I.slots.count(v)) sl = true; if (!sl) continue;
    Lin have; int q = slotOf(d.second);
    if (!ndivOf(B, subst(d.first.first, m), subst(d.first.second, m), have)) return false;
    if (q >= 0 && !m.count(q)) m[q] = B.P.norm(have); else later.push_back({d.second, have});
  }
  for (auto &p : I.prods) {
    int q = slotOf(p.second); bool sl = q >= 0 || I.slots.count(p.first.first) || I.slots.count(p.first.second); if (!sl) continue;
    auto val = [&](int v) { auto it = m.find(v); return it == m.end() ? Lin::var(v) : it->second; };
    Lin e; if (!mulLin(B, val(p.first.first), val(p.first.second), e)) return false;
    if (q >= 0 && !m.count(q)) m[q] = B.P.norm(e); else later.push_back({p.second, e});
  }
  auto why = [&](const char *w, const std::string &t) { if (VERB > 1) errs() << "not included: " << w << " " << t << "\n"; return false; };
  for (auto &l : later) { Lin d = subst(l.first, m) - l.second; if (!B.P.entailsEq(d) && !(holds(B, d) && holds(B, -d))) { if (VERB > 1) { errs() << d.str() << " want " << l.second.str() << "\n" << B.P.str() << "\nprods:"; for (auto &p : B.prods) errs() << VARS[p.first.first].name << "#" << p.first.first << "*" << p.first.second << "=" << p.second.str() << " "; errs() << "\nI prods:"; for (auto &p : I.prods) errs() << VARS[p.first.first].name << "#" << p.first.first << "*" << p.first.second << "=" << p.second.str() << " "; errs() << "\n"; } return why("eq", l.first.str()); } }
  for (auto &q : I.P.sub) { Lin d = subst(Lin::var(q.first) - q.second, m); if (!B.P.entailsEq(d) && !(holds(B, d) && holds(B, -d))) return why("sub", (Lin::var(q.first) - q.second).str()); }
  for (auto &q : I.P.ge) if (!holds(B, subst(q, m))) return why("ge", q.str());
  for (auto &x : m) { auto &vi = VARS[x.first]; if (!B.P.entailsGe(x.second - Lin(vi.lo)) || !B.P.entailsGe(Lin(vi.hi) - x.second)) return false; }
  return true;
}
static bool included(State &I, State &B) {
  if (I.ndivs.empty() && I.prods.empty()) return included1(I, B);
  State c = B; return included1(I, c);    // auxiliary quotients and products stay local
}
// reduce a list of states; coarse remembers cells no longer partitioned on
static std::map<std::string, std::vector<State *>> partition(States &in, CellSet &coarse, unsigned cap, bool envc = false) {
  while (true) {
    std::map<std::string, std::vector<State *>> g; for (auto &s : in) g[signature(s, coarse, true, envc)].push_back(&s);
    if (g.size() <= cap) return g;
    // coarsen: the cell with the most distinct constants
    std::map<std::pair<int, i128>, std::set<std::string>> dist;
    for (auto &s : in) for (auto &m : s.mem) if (!m.second->data) for (auto &c : m.second->cells) if (!c.fill && c.off.isConst() && c.v.k == Val::Num) { auto x = sigVal(c.v, true); if (!coarse.count({m.first, c.off.k})) dist[{m.first, c.off.k}].insert(x); }
    if (envc) for (auto &s : in) for (size_t f = 0; f < s.st.size(); f++) for (auto &kv : *s.st[f]) if (kv.first != RETKEY && kv.second.k == Val::Num && !coarse.count({-1 - (int)f, (i128)kv.first})) dist[{-1 - (int)f, (i128)kv.first}].insert(sigVal(kv.second, true));
    std::pair<int, i128> best; size_t bn = 1;
    for (auto &d : dist) if (d.second.size() > bn) { bn = d.second.size(); best = d.first; }
    if (bn <= 1) return g;
    coarse.insert(best);
  }
}
static bool sameState(State &a, State &b) {   // cheap duplicate test (values and constraints)
  if (a.st.size() != b.st.size() || a.mem.size() != b.mem.size()) return false;
  for (size_t f = 0; f < a.st.size(); f++) if (a.st[f] != b.st[f]) return false;
  for (auto &m : a.mem) { auto it = b.mem.find(m.first); if (it == b.mem.end() || it->second != m.second) return false; }
  return a.P.sub == b.P.sub && a.P.ge == b.P.ge;
}
static void reduce(States &in, unsigned cap) {
  if (in.size() <= cap) return;
  for (auto &s : in) gc(s);
  States live; for (auto &s : in) if (!s.P.checkBottom()) live.push_back(std::move(s));
  in = std::move(live);
  if (in.size() <= cap) return;
  CellSet coarse; auto g = partition(in, coarse, cap, true);
  States out; for (auto &x : g) out.push_back(joinStates(x.second, false));
  in = std::move(out);
}

// ---------------------------------------------------------------- interpreter
struct Flow { BasicBlock *from, *to; State s; };
struct Outcome { State s; Val ret; };
static std::map<std::pair<size_t, const void *>, int> objIds; static std::vector<std::string> objNames;
static int objId(const void *key, const std::string &name, bool global) { auto k = std::make_pair(global ? (size_t)0 : ctxHash, key); auto it = objIds.find(k); if (it != objIds.end()) return it->second; int id = objNames.size(); objIds[k] = id; objNames.push_back(name); return id; }

static std::vector<Outcome> callFunction(Function *F, const std::vector<Val> &args, State s, const Instruction *at);

struct Interp {
  Function *F; FInfo &fi;
  std::vector<Outcome> outs_;
  Interp(Function *f) : F(f), fi(finfo(f)) {}

  static bool feasibleState(State &s) { return !s.P.bottom; }
  // ----- constants
  Val constant(State &s, Constant *C) {
    if (auto *ci = dyn_cast<ConstantInt>(C)) { unsigned b = ci->getBitWidth(); if (b > 64) return Val::top(b); return Val::num(b, Lin((i128)ci->getZExtValue())); }
    if (isa<ConstantPointerNull>(C)) return Val::null();
    if (auto *f = dyn_cast<Function>(C)) { Val v; v.k = Val::Fn; v.fn = f; return v; }
    if (auto *g = dyn_cast<GlobalVariable>(C)) return Val::ptr(globalObj(s, g), Lin(0));
    if (auto *ce = dyn_cast<ConstantExpr>(C)) {
      if (ce->getOpcode() == Instruction::GetElementPtr) { APInt o(64, 0); auto *gep = cast<GEPOperator>(ce); if (gep->accumulateConstantOffset(*DL, o)) { Val b = constant(s, cast<Constant>(gep->getPointerOperand())); b.n = b.n + Lin((i128)o.getSExtValue()); return b; } }
      if (ce->isCast()) return constant(s, ce->getOperand(0));
    }
    if (C->getType()->isIntegerTy() && C->getType()->getIntegerBitWidth() <= 64) return Val::top(C->getType()->getIntegerBitWidth());
    return Val::top(4096);
  }
  static void initCells(State &s, Obj &o, Constant *c, i128 off) {
    Type *t = c->getType();
    if (c->isNullValue()) { Cell x; x.off = Lin(off); x.len = Lin((i128)DL->getTypeStoreSize(t)); if (t->isPointerTy()) { x.v = Val::null(); } else if (t->isIntegerTy()) x.v = Val::num(t->getIntegerBitWidth(), Lin(0)); else { x.fill = true; x.byte = 0; } o.cells.push_back(x); return; }
    if (auto *ci = dyn_cast<ConstantInt>(c)) { Cell x; x.off = Lin(off); x.len = Lin((i128)DL->getTypeStoreSize(t)); x.v = Val::num(ci->getBitWidth(), Lin((i128)ci->getZExtValue())); o.cells.push_back(x); return; }
    if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < st->getNumElements(); i++) initCells(s, o, c->getAggregateElement(i), off + (i128)DL->getStructLayout(st)->getElementOffset(i)); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { if (at->getNumElements() > 256) return; i128 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initCells(s, o, c->getAggregateElement(i), off + es * i); return; }
  }
  int globalObj(State &s, GlobalVariable *g) {
    int id = objId(g, g->getName().str(), true);
    if (!s.mem.count(id)) {
      auto o = std::make_shared<Obj>(); o->id = id; o->name = g->getName().str(); o->size = Lin((i128)DL->getTypeAllocSize(g->getValueType())); o->gv = g; o->isconst = g->isConstant();
      if (g->hasInitializer()) { if (!o->isconst) initCells(s, *o, g->getInitializer(), 0); }
      s.mem[id] = o;
    }
    return id;
  }
  Val get(State &s, Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return constant(s, c);
    auto it = s.st.back()->find(vn(v));
    if (it == s.st.back()->end()) { if (v->getType()->isIntegerTy() && v->getType()->getIntegerBitWidth() <= 64) return Val::top(v->getType()->getIntegerBitWidth()); if (v->getType()->isPointerTy()) return Val(); return Val::top(4096); }
    return it->second;
  }
  void set(State &s, Value *v, const Val &x) { s.wenv()[vn(v)] = x; }
  // numeric value; materialises an unknown
  Val getNum(State &s, Value *v) {
    Val x = get(s, v);
    if (x.k == Val::Num) { x.n = s.P.norm(x.n); return x; }
    if (!v->getType()->isIntegerTy()) return x;
    unsigned w = v->getType()->getIntegerBitWidth(); if (w > 64) return x;
    if (x.k == Val::Ptr || x.k == Val::Cmp) return x;
    if (x.k == Val::Null) return Val::num(w, Lin(0));
    unsigned b = x.k == Val::Top ? std::min(w, x.bits) : w;
    Val r = Val::num(w, freshLin(v->hasName() ? v->getName().str() : "t", 0, pow2(b) - 1));
    if (x.hb < 0) { r.pobj = x.pobj; r.poff = x.poff; r.plen = x.plen; }
    if (!isa<Constant>(v)) set(s, v, r);
    return r;
  }
  // split a state on e >= 0; returns {holds, fails}
  static void split(State &s, const Lin &e, State *&yes, State *&no, State &ys, State &ns) {
    yes = no = nullptr;
    Lin x = s.P.norm(e);
    if (x.isConst()) { if (x.k >= 0) { ys = s; yes = &ys; } else { ns = s; no = &ns; } return; }
    bool ent = s.P.entailsGe(x);
    if (ent) { ys = s; yes = &ys; return; }
    bool entn = s.P.entailsGe(-x - Lin(1));
    if (entn) { ns = s; no = &ns; return; }
    ys = s; ys.P.addGe(x); if (!ys.prods.empty()) refineProds(ys); if (!ys.P.checkBottom()) yes = &ys;
    ns = s; ns.P.addGe(-x - Lin(1)); if (!ns.prods.empty()) refineProds(ns); if (!ns.P.checkBottom()) no = &ns;
  }
  // ----- memory
  enum Ov { Dis, Same, Inside, Unknown };
  static bool disjoint(State &s, const Lin &a, const Lin &al, const Lin &b, const Lin &bl) {
    Lin d1 = s.P.norm(b - a - al); if (d1.isConst() ? d1.k >= 0 : s.P.entailsGe(d1)) return true;
    Lin d2 = s.P.norm(a - b - bl); if (d2.isConst() ? d2.k >= 0 : s.P.entailsGe(d2)) return true;
    return false;
  }
  static void dropFacts(State &s, int id) { s.facts.erase(std::remove_if(s.facts.begin(), s.facts.end(), [&](const Fact &f) { return f.a == id || f.b == id; }), s.facts.end()); }
  // values read from, or compared with, the bytes about to be overwritten say nothing about the new contents
  static bool stale(State &s, const Val &v, int id, const Lin &off, const Lin &len) {
    if (v.k == Val::Cmp) return (v.obj == id && !disjoint(s, v.n, v.clen, off, len)) || (v.pobj == id && !disjoint(s, v.poff, v.clen, off, len));
    return v.pobj == id && !disjoint(s, v.poff, Lin((int)v.plen), off, len);
  }
  static void unstale(Val &v) { if (v.k == Val::Cmp) { unsigned b = v.bits; v = Val::top(b ? b : 32); } else { v.pobj = -1; v.poff = Lin(0); v.plen = 0; v.hb = -1; } }
  static void clobber(State &s, Obj &o, const Lin &off, const Lin &len) {
    int id = o.id;
    for (auto &e : s.st) {
      std::vector<unsigned> ks;
      for (auto &kv : *e) if ((kv.second.pobj == id || (kv.second.k == Val::Cmp && kv.second.obj == id)) && stale(s, kv.second, id, off, len)) ks.push_back(kv.first);
      if (ks.empty()) continue;
      if (e.use_count() > 1) e = std::make_shared<Env>(*e);
      for (unsigned k : ks) unstale((*e)[k]);
    }
    { std::vector<int> ms; for (auto &m : s.mem) if (m.first != id) for (auto &c : m.second->cells) if (!c.fill && (c.v.pobj == id || (c.v.k == Val::Cmp && c.v.obj == id)) && stale(s, c.v, id, off, len)) { ms.push_back(m.first); break; }
      for (int m : ms) for (auto &c : s.wobj(m).cells) if (!c.fill && (c.v.pobj == id || (c.v.k == Val::Cmp && c.v.obj == id)) && stale(s, c.v, id, off, len)) unstale(c.v);
      for (auto &c : o.cells) if (!c.fill && (c.v.pobj == id || (c.v.k == Val::Cmp && c.v.obj == id)) && stale(s, c.v, id, off, len)) unstale(c.v); }
    std::vector<Cell> out;
    for (auto &c : o.cells) {
      if (disjoint(s, c.off, c.len, off, len)) { out.push_back(c); continue; }
      if (!c.fill) continue;
      // keep the parts of a fill before / after the written range
      Lin pre = s.P.norm(off - c.off), post = s.P.norm(c.off + c.len - off - len);
      if (s.P.entailsGe(pre)) { if (!(pre.isConst() && pre.k == 0)) { Cell x = c; x.len = pre; out.push_back(x); } }
      if (s.P.entailsGe(post)) { if (!(post.isConst() && post.k == 0)) { Cell x = c; x.off = s.P.norm(off + len); x.len = post; out.push_back(x); } }
    }
    o.cells = out;
    if (!s.facts.empty()) {      // what is left of a copy before and after the bytes written
      std::vector<Fact> keep;
      for (auto &f : s.facts) {
        if (!f.eq) { if ((f.a == o.id && !disjoint(s, f.ao, f.len, off, len)) || (f.b == o.id && !disjoint(s, f.bo, f.len, off, len))) continue; keep.push_back(f); continue; }
        bool ha = f.a == o.id && !disjoint(s, f.ao, f.len, off, len), hb = f.b == o.id && !disjoint(s, f.bo, f.len, off, len);
        if (!ha && !hb) { keep.push_back(f); continue; }
        if (!COPYFACTS || (ha && hb)) continue;
        Lin at = ha ? f.ao : f.bo, pre = s.P.norm(off - at), suf = s.P.norm(at + f.len - off - len);
        if (!(pre.isConst() && pre.k == 0) && s.P.entailsGe(pre) && s.P.entailsGe(f.len - pre)) { Fact g = f; g.len = pre; keep.push_back(g); }
        if (!(suf.isConst() && suf.k == 0) && s.P.entailsGe(suf) && s.P.entailsGe(f.len - suf)) { Fact g = f; Lin d = f.len - suf; g.ao = s.P.norm(f.ao + d); g.bo = s.P.norm(f.bo + d); g.len = suf; keep.push_back(g); }
      }
      s.facts.swap(keep);
    }
  }
  bool checkAccess(State &s, const Val &p, const Lin &len, bool wr, const Instruction *at) {
    Lin l = s.P.norm(len); if (l.isConst() && l.k == 0) return true;
    std::string what = wr ? "write" : "read";
    if (p.k != Val::Ptr) {
      if (p.k == Val::Null || p.k == Val::Undef || p.k == Val::Top || p.k == Val::Num) {
        bool zero = s.P.entailsGe(-l);
        oblig("MEM", what, zero, at, p.k == Val::Null ? "null pointer dereferenced" : "access through a pointer the analysis lost");
        return zero ? true : false;
      }
      oblig("MEM", what, false, at, "access through a non-object pointer"); return false;
    }
    auto it = s.mem.find(p.obj);
    if (it == s.mem.end()) { oblig("MEM", what, false, at, "access to a dead object " + objNames[p.obj]); return false; }
    Obj &o = *it->second; Lin off = s.P.norm(p.n), size = s.P.norm(o.size);
    bool lo = holds(s, off), hi = holds(s, size - off - l);
    if (!(lo && hi) && !l.isConst()) {   // an empty access needs no room
      Poly q = s.P; q.addGe(l - Lin(1)); if (q.checkBottom()) return true;
      lo = q.entailsGe(off); hi = q.entailsGe(size - off - l);
    }
    if (!(lo && hi) && REC) { lo = lo || holdsInt(s, off); hi = hi || holdsInt(s, size - off - l); }
    bool ok = lo && hi;
    std::string m; if (!ok && REC) m = what + " of " + l.str() + " bytes at offset " + off.str() + " of " + o.name + " (size " + size.str() + ")";
    oblig("MEM", what, ok, at, m);
    if (wr && !o.touched) s.wobj(p.obj).touched = true;
    if (wr && (o.ro || o.isconst)) { bool z = s.P.entailsGe(-l); oblig("MEM", "write-const", z, at, "write to read-only " + o.name); }
    if (!ok) { if (!lo) s.P.addGe(off); if (!hi) s.P.addGe(size - off - l); if (s.P.checkBottom()) return false; }
    return true;
  }
  static Val extractConst(GlobalVariable *g, i128 off, Type *t) {
    if (!g->hasInitializer()) return Val();
    Constant *c = g->getInitializer(); unsigned sz = DL->getTypeStoreSize(t);
    // walk down
    while (true) {
      Type *ct = c->getType();
      if (DL->getTypeStoreSize(ct) == sz && off == 0 && !ct->isAggregateType()) { if (auto *ci = dyn_cast<ConstantInt>(c)) if (t->isIntegerTy()) return Val::num(t->getIntegerBitWidth(), Lin((i128)ci->getZExtValue())); return Val(); }
      if (auto *at = dyn_cast<ArrayType>(ct)) { i128 es = DL->getTypeAllocSize(at->getElementType()); if (es == 0) return Val(); i128 i = off / es; if (i < 0 || i >= (i128)at->getNumElements()) return Val(); if (off % es + sz > es) return Val(); c = c->getAggregateElement((unsigned)i); off -= i * es; }
      else if (auto *st = dyn_cast<StructType>(ct)) { auto *sl = DL->getStructLayout(st); if (off < 0 || off >= (i128)sl->getSizeInBytes()) return Val(); unsigned i = sl->getElementContainingOffset((uint64_t)off); off -= (i128)sl->getElementOffset(i); c = c->getAggregateElement(i); }
      else return Val();
      if (!c) return Val();
    }
  }
  Val load(State &s, const Val &p, Type *t, const Instruction *at) {
    i128 sz = DL->getTypeStoreSize(t); unsigned bits = t->isIntegerTy() ? t->getIntegerBitWidth() : 4096;
    Val none = t->isPointerTy() ? Val() : Val::top(bits);
    if (p.k != Val::Ptr || !s.mem.count(p.obj)) return none;
    Lin off = s.P.norm(p.n); Obj &o0 = *s.mem.at(p.obj);
    if (o0.isconst && o0.gv) { if (off.isConst()) { Val v = extractConst(const_cast<GlobalVariable *>(o0.gv), off.k, t); if (v.k != Val::Undef) return v; } none.pobj = p.obj; none.poff = off; none.plen = (unsigned)sz; return none; }
    for (auto &c : o0.cells) {
      if (!c.fill && c.len.isConst() && c.len.k == sz && (c.off == off || (!c.off.isConst() && s.P.norm(c.off) == off))) { Val v = c.v; if (v.k == Val::Num && t->isIntegerTy() && v.bits != bits) v.bits = bits; if (COPYFACTS && sz == 1 && v.k == Val::Num && !v.n.isConst()) { v.pobj = p.obj; v.poff = off; v.plen = 1; } if (t->isPointerTy() == (v.k == Val::Ptr || v.k == Val::Null || v.k == Val::Fn || v.k == Val::Undef)) return v; if (t->isPointerTy()) { i128 k; if (v.isC(k) && k == 0) return Val::null(); return Val(); } return t->isIntegerTy() && v.k != Val::Ptr ? v : none; }
    }
    for (auto &c : o0.cells) {
      if (c.fill && t->isIntegerTy() && bits <= 64) {
        Lin a = s.P.norm(off - c.off), b = s.P.norm(c.off + c.len - off - Lin(sz));
        if (s.P.entailsGe(a) && s.P.entailsGe(b)) { i128 x = 0; for (int i = 0; i < (int)sz; i++) x = x * 256 + c.byte; return Val::num(bits, Lin(x)); }
      }
      if (c.fill && t->isPointerTy() && c.byte == 0) { Lin a = s.P.norm(off - c.off), b = s.P.norm(c.off + c.len - off - Lin(sz)); if (s.P.entailsGe(a) && s.P.entailsGe(b)) return Val::null(); }
      // narrow load from a wider constant
      i128 k; if (!c.fill && t->isIntegerTy() && bits <= 64 && c.off.isConst() && off.isConst() && c.len.isConst() && c.off.k <= off.k && off.k + sz <= c.off.k + c.len.k && c.v.isC(k) && DL->isLittleEndian()) { k >>= (int)(8 * (off.k - c.off.k)); k &= pow2(8 * sz) - 1; return Val::num(bits, Lin(k)); }
    }
    if (!o0.data && off.isConst() && t->isIntegerTy() && bits <= 64) {
      bool ov = false; for (auto &c : o0.cells) if (!disjoint(s, c.off, c.len, off, Lin(sz))) ov = true;
      if (!ov) { Val v = Val::num(bits, freshLin(o0.name + "+" + i128s(off.k), 0, pow2(bits) - 1)); Obj &o = s.wobj(p.obj); Cell c; c.off = off; c.len = Lin(sz); c.v = v; o.cells.push_back(c); if (COPYFACTS && sz == 1) { v.pobj = p.obj; v.poff = off; v.plen = 1; } return v; }
    }
    none.pobj = p.obj; none.poff = off; none.plen = (unsigned)sz;
    return none;
  }
  void store(State &s, const Val &p, const Val &v, Type *t) {
    if (p.k != Val::Ptr || !s.mem.count(p.obj)) return;
    i128 sz = DL->getTypeStoreSize(t); Lin off = s.P.norm(p.n); Obj &o = s.wobj(p.obj);
    i128 c; 
    if (v.isC(c) && sz == 1) {   // extend or keep a fill
      for (auto &f : o.cells) if (f.fill && f.byte == (unsigned)c) {
        Lin end = s.P.norm(f.off + f.len);
        if (end == off || (!(off.isConst() && end.isConst()) && s.P.entailsEq(end - off))) { Cell g = f; g.len = s.P.norm(f.len + Lin(1)); clobber(s, o, off, Lin(1)); for (auto &h : o.cells) if (h.fill && h.off == g.off && h.byte == g.byte) { h.len = g.len; return; } o.cells.push_back(g); return; }
        if (s.P.entailsGe(off - f.off) && s.P.entailsGe(end - off - Lin(1))) return;
      }
      if (o.data) { clobber(s, o, off, Lin(1)); Cell g; g.off = off; g.len = Lin(1); g.fill = true; g.byte = (unsigned)c; o.cells.push_back(g); return; }
    }
    clobber(s, o, off, Lin(sz));
    if (o.data && v.k == Val::Top && t->isIntegerTy() && v.bits < 8 * (unsigned)sz) { Cell x; x.off = off; x.len = Lin(sz); x.v = Val::top(v.bits); o.cells.push_back(x); return; }   // a masked byte
    if (o.data && !(v.k == Val::Ptr) && !(v.k == Val::Num && sz == 1 && (v.pobj < 0 || COPYFACTS))) return;
    if (o.data && v.k == Val::Num) { Cell x; x.off = off; x.len = Lin(sz); x.v = v; x.v.bits = 8; o.cells.push_back(x); return; }
    if (v.k == Val::Top || v.k == Val::Undef) { if (!t->isPointerTy() || v.k == Val::Top) return; }
    if (!off.isConst() && !COPYFACTS) return;
    Cell x; x.off = off; x.len = Lin(sz); x.v = v; if (COPYFACTS && x.v.k == Val::Num) { x.v.pobj = -1; x.v.plen = 0; x.v.poff = Lin(0); } if (x.v.k == Val::Num && x.v.pobj < 0) x.v.bits = t->isIntegerTy() ? t->getIntegerBitWidth() : x.v.bits; o.cells.push_back(x);
  }
  void havocRange(State &s, const Val &p, const Lin &len) { if (p.k != Val::Ptr || !s.mem.count(p.obj)) return; Obj &o = s.wobj(p.obj); clobber(s, o, s.P.norm(p.n), s.P.norm(len)); }
  void memCopy(State &s, const Val &d, const Val &sr, const Lin &len0) {
    if (d.k != Val::Ptr || !s.mem.count(d.obj)) return;
    Lin len = s.P.norm(len0), doff = s.P.norm(d.n);
    std::vector<Cell> add;
    if (sr.k == Val::Ptr && s.mem.count(sr.obj)) {
      Lin soff = s.P.norm(sr.n); Obj &so = *s.mem.at(sr.obj);
      Obj tmp; std::vector<Cell> srcCells = so.cells;
      if (so.isconst && so.gv && so.gv->hasInitializer() && len.isConst() && len.k <= 512) { Obj t; initCells(s, t, const_cast<Constant *>(so.gv->getInitializer()), 0); srcCells = t.cells; }
      for (auto &c : srcCells) {
        Lin a = s.P.norm(c.off - soff), b = s.P.norm(soff + len - c.off - c.len);
        if (s.P.entailsGe(a) && s.P.entailsGe(b)) { Cell x = c; x.off = s.P.norm(doff + a); add.push_back(x); }
        else if (c.fill && s.P.entailsGe(-a) && s.P.entailsGe(-b)) { Cell x = c; x.off = doff; x.len = len; add.push_back(x); }
      }
    }
    Obj &o = s.wobj(d.obj); clobber(s, o, doff, len);
    for (auto &x : add) if (!(o.data && !x.fill && x.v.k == Val::Num)) o.cells.push_back(x);
    if (COPYFACTS && sr.k == Val::Ptr) {   // copies of copies
      Lin so = s.P.norm(sr.n); std::vector<Fact> more;
      for (auto &f : s.facts) if (f.eq) for (int sw = 0; sw < 2; sw++) {
        int a = sw ? f.b : f.a, b = sw ? f.a : f.b; Lin ao = sw ? f.bo : f.ao, bo = sw ? f.ao : f.bo;
        if (a == sr.obj && b != d.obj && s.P.entailsGe(so - ao) && s.P.entailsGe(ao + f.len - so - len)) { Fact g; g.eq = true; g.a = d.obj; g.b = b; g.ao = doff; g.bo = s.P.norm(bo + so - ao); g.len = len; more.push_back(g); }
      }
      for (auto &g : more) s.facts.push_back(g);
    }
    if (COPYFACTS && sr.k == Val::Ptr && sr.obj != d.obj) { Fact f; f.eq = true; f.a = d.obj; f.b = sr.obj; f.ao = doff; f.bo = s.P.norm(sr.n); f.len = len; s.facts.push_back(f); }
  }
  void memSet(State &s, const Val &d, const Val &c, const Lin &len0) {
    if (d.k != Val::Ptr || !s.mem.count(d.obj)) return;
    Lin len = s.P.norm(len0), doff = s.P.norm(d.n); Obj &o = s.wobj(d.obj); clobber(s, o, doff, len);
    i128 k; if (c.isC(k) && !(len.isConst() && len.k == 0)) { Cell x; x.off = doff; x.len = len; x.fill = true; x.byte = (unsigned)(k & 255); o.cells.push_back(x); }
  }
  // ----- arithmetic helpers (may fork: results appended)
  typedef std::vector<std::pair<State, Val>> Forks;
  void wrap(State &s, unsigned w, const Lin &r0, i128 lo, i128 hi, Forks &out) {   // lo/hi: number of possible wraps each way
    Lin r = s.P.norm(r0);
    State ys, ns; State *y, *n;
    // below zero?
    State cur = s; bool have = true;
    if (lo) { split(cur, r, y, n, ys, ns); if (n) { State t = ns; out.push_back({t, Val::num(w, r + Lin(pow2(w)))}); } if (!y) have = false; else cur = ys; }
    if (!have) return;
    if (hi) { State y2, n2; split(cur, Lin(pow2(w) - 1) - r, y, n, y2, n2); if (n) out.push_back({n2, Val::num(w, r - Lin(pow2(w)))}); if (!y) return; cur = y2; }
    out.push_back({cur, Val::num(w, r)});
  }
  Lin divq(State &s, const Lin &a0, i128 c) {    // floor(a / c), a >= 0
    Lin a = s.P.norm(a0);
    Lin q, rest; i128 rk = a.k % c; if (rk < 0) rk += c; q.k = (a.k - rk) / c; rest.k = rk;
    for (auto &p : a.t) { if (p.second % c == 0) q.t.push_back({p.first, p.second / c}); else rest.t.push_back(p); }
    if (rest.t.empty()) return q;
    if (s.P.entailsGe(rest) && s.P.entailsGe(Lin(c - 1) - rest)) return q;
    if (rest.t.size() == 1 && rest.k == 0 && rest.t[0].second == 1)     // floor(floor(x / d) / c) = floor(x / (d * c))
      for (auto &d : s.divs) if (d.first.second > 0 && d.second == rest && d.first.second < pow2(64) / c) { Lin x = d.first.first; i128 dd = d.first.second; Lin z = divq(s, x, dd * c); s.P.addGe(rest - c * z); s.P.addGe(c * z + Lin(c - 1) - rest); return q + z; }
    auto key = std::make_pair(rest, c); auto it = s.divs.find(key);
    if (it != s.divs.end()) return q + it->second;
    for (auto &d : s.divs) if (d.first.second == c) {   // the dividend of a memoised quotient may have been rewritten since
      Lin df = rest - s.P.norm(d.first.first); bool mul = df.k % c == 0; for (auto &p : df.t) if (p.second % c != 0) mul = false;
      if (mul) { Lin x; x.k = df.k / c; for (auto &p : df.t) x.t.push_back({p.first, p.second / c}); return s.P.norm(q + d.second + x); }
    }
    i128 lo = rest.k, hi = rest.k; for (auto &p : rest.t) { auto &vi = VARS[p.first]; if (p.second > 0) { lo += p.second * vi.lo; hi += p.second * vi.hi; } else { lo += p.second * vi.hi; hi += p.second * vi.lo; } }
    auto fl = [](i128 x, i128 y) { i128 z = x / y; if (x % y != 0 && x < 0) z--; return z; };
    Lin v = Lin::var(newVar("q", fl(lo, c), fl(hi, c)));
    s.P.addGe(rest - c * v); s.P.addGe(c * v + Lin(c - 1) - rest);
    s.divs[key] = v;
    return q + v;
  }
  // 2^b for 0 <= b < w: one variable per exponent, with the convex bounds of the exponential
  Lin pow2of(State &s, const Lin &b0, unsigned w) {
    Lin b = s.P.norm(b0); if (b.isConst()) return Lin(pow2((unsigned)b.k));
    auto key = std::make_pair(b, (i128)-1); auto it = s.divs.find(key); if (it != s.divs.end()) return s.P.norm(it->second);
    for (auto &d : s.divs) if (d.first.second == -1 && s.P.norm(d.first.first) == b) return s.P.norm(d.second);
    unsigned hi = w - 1; while (hi > 0 && s.P.entailsGe(Lin((int)hi - 1) - b)) hi--;
    Lin v = freshLin("pow", 1, pow2(hi));
    s.P.addGe(v - b - Lin(1)); for (unsigned k = 1; k <= hi && k <= 8; k++) s.P.addGe(v - Lin(pow2(k)) - pow2(k) * (b - Lin((int)k)));
    if (hi > 0 && hi <= 16) s.P.addGe((pow2(hi) - 1) * b - (i128)hi * (v - Lin(1)));
    s.divs[key] = v; return v;
  }
  Lin modc(State &s, const Lin &a, i128 c) { Lin q = divq(s, a, c); return s.P.norm(a - c * q); }
  void toSigned(State &s, unsigned w, const Lin &v, std::vector<std::pair<State, Lin>> &out) {
    State ys, ns, *y, *n; split(s, Lin(pow2(w - 1) - 1) - v, y, n, ys, ns);
    if (y) out.push_back({ys, v}); if (n) out.push_back({ns, v - Lin(pow2(w))});
  }
  void binop(State &s, BinaryOperator *I, Forks &out) {
    Type *t = I->getType();
    if (!t->isIntegerTy() || t->getIntegerBitWidth() > 64) { out.push_back({s, Val::top(4096)}); return; }
    unsigned w = t->getIntegerBitWidth(); unsigned op = I->getOpcode();
    Val a = get(s, I->getOperand(0)), b = get(s, I->getOperand(1)); i128 ca, cb;
    // pointer arithmetic through integers
    if (a.k == Val::Ptr || b.k == Val::Ptr) {
      if (op == Instruction::Sub && a.k == Val::Ptr && b.k == Val::Ptr && a.obj == b.obj) { wrap(s, w, a.n - b.n, 1, 0, out); return; }
      out.push_back({s, Val::top(w)}); return;
    }
    // comparisons by difference accumulation
    if (op == Instruction::Xor && (a.k == Val::Top || a.k == Val::Num) && a.pobj >= 0 && a.hb < 0 && b.isC(cb) && cb == 0) { out.push_back({s, a}); return; }
    if (op == Instruction::Xor && (b.k == Val::Top || b.k == Val::Num) && b.pobj >= 0 && b.hb < 0 && a.isC(ca) && ca == 0) { out.push_back({s, b}); return; }
    if (op == Instruction::Or) for (int i = 0; i < 2; i++) {   // bytes accumulated to see whether all are zero
      Val &x = i ? b : a, &y = i ? a : b; i128 c;
      if ((x.k != Val::Top && x.k != Val::Num) || x.pobj < 0 || x.hb >= 0 || !x.plen || (x.k == Val::Top && x.bits > 8 * x.plen)) continue;
      bool z = y.isC(c) && c == 0, adj = y.k == Val::Cmp && y.pobj == ZEROS && y.obj == x.pobj && (s.P.entailsEq(y.n + y.clen - x.poff) || s.P.entailsEq(x.poff + Lin((int)x.plen) - y.n));
      if (!z && !adj) continue;
      Val q; q.k = Val::Cmp; q.bits = w; q.obj = x.pobj; q.n = x.poff; q.pobj = ZEROS; q.poff = Lin(0); q.clen = Lin((int)x.plen); q.plen = x.plen;
      if (z) { out.push_back({s, x}); return; }
      x = q; break;
    }
    if (op == Instruction::Or && a.k == Val::Top && b.k == Val::Top && a.pobj >= 0 && a.pobj == b.pobj && a.hb < 0 && b.hb < 0 && a.plen && b.plen && a.bits <= 8 * a.plen && b.bits <= 8 * b.plen) for (int sw = 0; sw < 2; sw++) {
      if (s.P.entailsEq(a.poff + Lin((int)a.plen) - b.poff)) { Val q; q.k = Val::Cmp; q.bits = w; q.obj = a.pobj; q.n = a.poff; q.pobj = ZEROS; q.poff = Lin(0); q.clen = Lin((int)(a.plen + b.plen)); q.plen = std::max(a.plen, b.plen); out.push_back({s, q}); return; }
      std::swap(a, b);
    }
    if (op == Instruction::Xor && a.pobj >= 0 && b.pobj >= 0 && a.hb < 0 && b.hb < 0 && (a.k == Val::Top || b.k == Val::Top) && a.plen == b.plen && a.k != Val::Cmp && b.k != Val::Cmp) { Val c; c.k = Val::Cmp; c.bits = w; c.obj = a.pobj; c.n = a.poff; c.pobj = b.pobj; c.poff = b.poff; c.clen = Lin((int)a.plen); c.plen = a.plen; out.push_back({s, c}); return; }
    if (op == Instruction::Or && (a.k == Val::Cmp || b.k == Val::Cmp)) {
      if (a.isC(ca) && ca == 0) { out.push_back({s, b}); return; } if (b.isC(cb) && cb == 0) { out.push_back({s, a}); return; }
      if (a.k == Val::Cmp && b.k == Val::Cmp && a.obj == b.obj && a.pobj == b.pobj) {
        for (int sw = 0; sw < 2; sw++) { if (s.P.entailsEq(a.n + a.clen - b.n) && (a.pobj == ZEROS || s.P.entailsEq(a.poff + a.clen - b.poff))) { Val c = a; c.bits = w; c.plen = std::max(a.plen, b.plen); c.clen = s.P.norm(a.clen + b.clen); out.push_back({s, c}); return; } std::swap(a, b); }
      }
      out.push_back({s, Val::top(w)}); return;
    }
    if (a.k == Val::Cmp || b.k == Val::Cmp) { if (op == Instruction::And && ((b.isC(cb) && cb == pow2(w) - 1) || (a.k == Val::Cmp && b.isC(cb) && (cb & (pow2(8 * std::max(1u, a.plen)) - 1)) == pow2(8 * std::max(1u, a.plen)) - 1))) { out.push_back({s, a}); return; } out.push_back({s, Val::top(w)}); return; }
    bool isC = a.isC(ca), isD = b.isC(cb);
    if (isC && isD) {
      i128 r = 0; bool ok = true; i128 M = pow2(w); auto sg = [&](i128 x) { return x >= M / 2 ? x - M : x; };
      switch (op) {
      case Instruction::Add: r = ca + cb; break; case Instruction::Sub: r = ca - cb; break; case Instruction::Mul: { unsigned __int128 m = (unsigned __int128)ca * (unsigned __int128)cb; r = (i128)(m & (unsigned __int128)(M - 1)); break; }
      case Instruction::UDiv: if (!cb) ok = false; else r = ca / cb; break; case Instruction::URem: if (!cb) ok = false; else r = ca % cb; break;
      case Instruction::SDiv: if (!cb) ok = false; else r = sg(ca) / sg(cb); break; case Instruction::SRem: if (!cb) ok = false; else r = sg(ca) % sg(cb); break;
      case Instruction::Shl: if (cb >= w) ok = false; else r = (i128)(((unsigned __int128)ca << (int)cb) & (unsigned __int128)(M - 1)); break; case Instruction::LShr: if (cb >= w) ok = false; else r = ca >> (int)cb; break; case Instruction::AShr: if (cb >= w) ok = false; else r = sg(ca) >> (int)cb; break;
      case Instruction::And: r = ca & cb; break; case Instruction::Or: r = ca | cb; break; case Instruction::Xor: r = ca ^ cb; break; default: ok = false; }
      if (!ok) { out.push_back({s, Val::top(w)}); return; }
      r %= M; if (r < 0) r += M; out.push_back({s, Val::num(w, Lin(r))}); return;
    }
    bool bothTop = a.k == Val::Top && b.k == Val::Top;
    bool aTop = a.k == Val::Top || a.k == Val::Undef, bTop = b.k == Val::Top || b.k == Val::Undef;
    if (op == Instruction::And) for (int i = 0; i < 2; i++) { const Val &x = i ? b : a, &y = i ? a : b; i128 c; if (x.k == Val::Top && x.pobj >= 0 && x.plen == 1 && x.hb < 0 && y.isC(c)) { c &= 255; int h = 0; while (h < 8 && !((c >> h) & 1)) h++; if (h < 8 && (c >> h) == (255 >> h)) { Val r = x; r.hb = h; r.bits = std::min(x.bits, 8u); if (h == 0) r.hb = -1; out.push_back({s, r}); return; } } }
    if (op == Instruction::And && isD && cb == 0) { out.push_back({s, Val::num(w, Lin(0))}); return; }
    if (op == Instruction::And && (aTop != bTop)) { Val &x = aTop ? b : a; i128 c; if (x.k == Val::Num && !x.isC(c)) { Lin r = freshLin("and", 0, pow2(w) - 1); s.P.addGe(x.n - r); out.push_back({s, Val::num(w, r)}); return; } }
    if (op == Instruction::And && (aTop || bTop)) { unsigned nb = w; for (int i = 0; i < 2; i++) { const Val &x = i ? b : a; if (x.k == Val::Top) nb = std::min(nb, x.bits); if (x.k == Val::Num) { i128 c; if (x.isC(c)) { unsigned k = 0; while (k < 64 && pow2(k) <= c) k++; nb = std::min(nb, k); } } } out.push_back({s, Val::top(nb)}); return; }
    if (bothTop || ((aTop || bTop) && (op == Instruction::Or || op == Instruction::Xor))) { unsigned nb = w; if (op == Instruction::Or || op == Instruction::Xor) { unsigned x = 0; for (int i = 0; i < 2; i++) { const Val &q = i ? b : a; i128 c; unsigned k = w; if (q.k == Val::Top) k = std::min(w, q.bits); else if (q.isC(c)) { k = 0; while (k < 64 && pow2(k) <= c) k++; } x = std::max(x, k); } nb = x; } if (op == Instruction::LShr && isD) nb = cb >= w ? 0 : w - (unsigned)cb; out.push_back({s, Val::top(nb)}); return; }
    if (aTop && (op == Instruction::LShr) && isD) { unsigned ab = a.k == Val::Top ? std::min(w, a.bits) : w; out.push_back({s, Val::top(cb >= ab ? 0 : ab - (unsigned)cb)}); return; }
    if (aTop && (op == Instruction::Shl || op == Instruction::AShr || op == Instruction::Add || op == Instruction::Sub || op == Instruction::Mul) && w >= 8 && (a.pobj >= 0 || a.k == Val::Undef || a.bits >= 32) ) { out.push_back({s, Val::top(w)}); return; }
    if (bTop && (op == Instruction::Add || op == Instruction::Sub) && b.bits >= 32) { out.push_back({s, Val::top(w)}); return; }
    a = getNum(s, I->getOperand(0)); b = getNum(s, I->getOperand(1));
    if (a.k != Val::Num || b.k != Val::Num) { out.push_back({s, Val::top(w)}); return; }
    isC = a.isC(ca); isD = b.isC(cb);
    switch (op) {
    case Instruction::Add: { 
      // adding a negative constant
      if (isD && cb >= pow2(w - 1)) { wrap(s, w, a.n + Lin(cb - pow2(w)), 1, 0, out); return; }
      if (isC && ca >= pow2(w - 1)) { wrap(s, w, b.n + Lin(ca - pow2(w)), 1, 0, out); return; }
      wrap(s, w, a.n + b.n, 0, 1, out); return; }
    case Instruction::Sub: wrap(s, w, a.n - b.n, 1, 0, out); return;
    case Instruction::Mul: case Instruction::Shl: {
      if (op == Instruction::Shl) {
        if (!isD) {
          if (isC && ca == 1 && s.P.entailsGe(Lin((int)w - 1) - b.n)) { out.push_back({s, Val::num(w, pow2of(s, b.n, w))}); return; }
          if (s.P.entailsGe(Lin(15) - b.n)) { // enumerate small shift amounts
            bool any = false; for (int k = 0; k < 16 && k < (int)w; k++) { State t = s; t.P.addEq(b.n - Lin(k)); if (t.P.checkBottom()) continue; any = true; Lin r = pow2(k) * t.P.norm(a.n); if (t.P.entailsGe(Lin(pow2(w) - 1) - r)) out.push_back({t, Val::num(w, r)}); else out.push_back({t, Val::top(w)}); }
            if (any) return;
          }
          out.push_back({s, Val::top(w)}); return; }
        if (cb >= w) { out.push_back({s, Val::top(w)}); return; } cb = pow2((unsigned)cb);
      }
      if (isC && !isD) { std::swap(a, b); std::swap(ca, cb); std::swap(isC, isD); }
      if (!isD) { if (!s.P.constVal(b.n, cb) && !s.P.constVal(a.n, ca)) {
          Lin r; if (mulLin(s, a.n, b.n, r)) { refineProds(s); r = s.P.norm(r); if (holds(s, Lin(pow2(w) - 1) - r)) { out.push_back({s, Val::num(w, r)}); return; } }
          r = freshLin("mul", 0, pow2(w) - 1); 
          out.push_back({s, Val::num(w, r)}); return; } }
      if (cb > pow2(w - 1)) { // negative multiplier
        out.push_back({s, Val::top(w)}); return; }
      Lin r = cb * a.n;
      if (s.P.entailsGe(Lin(pow2(w) - 1) - r)) { out.push_back({s, Val::num(w, r)}); return; }
      Lin m = modc(s, r, pow2(w)); out.push_back({s, Val::num(w, m)}); return; }
    case Instruction::SDiv: case Instruction::SRem: if (!(s.P.entailsGe(Lin(pow2(w - 1) - 1) - a.n)) || !(isD && cb < pow2(w - 1))) { out.push_back({s, Val::top(w)}); return; }
    case Instruction::UDiv: case Instruction::URem: case Instruction::LShr: {
      if (op == Instruction::LShr) { if (isD && cb < w) cb = pow2((unsigned)cb); else { if (!isD && s.P.entailsGe(Lin(64) - b.n)) { Lin r = freshLin("shr", 0, pow2(w) - 1); s.P.addGe(a.n - r); out.push_back({s, Val::num(w, r)}); return; } out.push_back({s, Val::top(w)}); return; } }
      else if (!isD) {
        i128 kb; bool rem = op == Instruction::URem || op == Instruction::SRem;
        if (!s.P.constVal(b.n, kb)) {   // a = q*b + r with 0 <= r < b
          s.P.addGe(b.n - Lin(1)); if (s.P.checkBottom()) return;
          a.n = s.P.norm(a.n); b.n = s.P.norm(b.n); Lin q, pr; bool ok; auto it = s.ndivs.find({a.n, b.n});
          if (it != s.ndivs.end()) { q = s.P.norm(it->second); ok = mulLin(s, q, b.n, pr); }
          else { q = freshLin("div", 0, pow2(w) - 1); s.P.addGe(a.n - q); ok = mulLin(s, q, b.n, pr); if (ok) { s.ndivs[{a.n, b.n}] = q; s.P.addGe(a.n - pr); s.P.addGe(pr + b.n - Lin(1) - a.n); refineProds(s); if (s.P.checkBottom()) return; } }
          if (ok) { Lin r = s.P.norm(a.n - pr); if (rem) { s.P.addGe(a.n - r); } out.push_back({s, Val::num(w, rem ? r : s.P.norm(q))}); return; }
          Lin r = freshLin(rem ? "rem" : "div", 0, pow2(w) - 1); s.P.addGe(a.n - r); if (rem) s.P.addGe(b.n - r - Lin(1)); if (s.P.checkBottom()) return; out.push_back({s, Val::num(w, r)}); return; }
        cb = kb; }
      if (cb == 0) { out.push_back({s, Val::top(w)}); return; }
      Lin q = divq(s, a.n, cb); bool rem = op == Instruction::URem || op == Instruction::SRem;
      out.push_back({s, Val::num(w, rem ? s.P.norm(a.n - cb * q) : q)}); return; }
    case Instruction::AShr: { if (s.P.entailsGe(Lin(pow2(w - 1) - 1) - a.n) && isD && cb < w) { out.push_back({s, Val::num(w, divq(s, a.n, pow2((unsigned)cb)))}); return; } out.push_back({s, Val::top(w)}); return; }
    case Instruction::And: {
      if (isC && !isD) { std::swap(a, b); std::swap(ca, cb); std::swap(isC, isD); }
      if (isD) {
        if (cb == pow2(w) - 1) { out.push_back({s, a}); return; }
        unsigned k = 0; while (k < w && (cb & (pow2(k + 1) - 1)) == pow2(k + 1) - 1) k++;
        if (cb == pow2(k) - 1) { out.push_back({s, Val::num(w, modc(s, a.n, pow2(k)))}); return; }          // low mask
        unsigned z = 0; while (z < w && !((cb >> z) & 1)) z++;
        if (cb == pow2(w) - pow2(z)) { Lin q = divq(s, a.n, pow2(z)); out.push_back({s, Val::num(w, pow2(z) * q)}); return; }   // high mask
        // high mask narrower than the value
        i128 hb = cb; unsigned top = 0; while (top < 64 && pow2(top) <= hb) top++; if (cb == pow2(top) - pow2(z) && s.P.entailsGe(Lin(pow2(top) - 1) - a.n)) { Lin q = divq(s, a.n, pow2(z)); out.push_back({s, Val::num(w, pow2(z) * q)}); return; }
      }
      Lin r = freshLin("and", 0, isD ? cb : pow2(w) - 1); s.P.addGe(a.n - r); s.P.addGe(b.n - r); out.push_back({s, Val::num(w, r)}); return; }
    case Instruction::Or: case Instruction::Xor: {
      if (isC && !isD) { std::swap(a, b); std::swap(ca, cb); std::swap(isC, isD); }
      if (isD && cb == 0) { out.push_back({s, a}); return; }
      if (isD && op == Instruction::Xor && cb == pow2(w) - 1) { out.push_back({s, Val::num(w, Lin(pow2(w) - 1) - a.n)}); return; }
      if (s.P.entailsGe(Lin(1) - a.n) && s.P.entailsGe(Lin(1) - b.n)) { // booleans: case split
        for (int k = 0; k < 2; k++) { State t = s; t.P.addEq(a.n - Lin(k)); if (t.P.checkBottom()) continue; if (k == 0) out.push_back({t, b}); else if (op == Instruction::Or) out.push_back({t, Val::num(w, Lin(1))}); else out.push_back({t, Val::num(w, Lin(1) - t.P.norm(b.n))}); }
        return; }
      if (isD && op == Instruction::Xor && cb == 1) { Lin m = modc(s, a.n, 2); out.push_back({s, Val::num(w, a.n + Lin(1) - 2 * m)}); return; }
      // disjoint bit ranges: or == add when a is a multiple of 2^k and b < 2^k
      for (int sw = 0; sw < 2; sw++) { i128 g = 0; Lin an = s.P.norm(a.n); i128 x = an.k < 0 ? -an.k : an.k; unsigned k = 64; auto tz = [](i128 y) { unsigned z = 0; if (y < 0) y = -y; if (!y) return 64u; while (!(y & 1)) { y >>= 1; z++; } return z; }; k = std::min(k, tz(x)); for (auto &p : an.t) k = std::min(k, tz(p.second)); (void)g;
        if (k > 0 && k < 64 && s.P.entailsGe(Lin(pow2(k) - 1) - b.n)) { out.push_back({s, Val::num(w, an + b.n)}); return; } std::swap(a, b); }
      Lin r = freshLin("or", 0, pow2(w) - 1); s.P.addGe(a.n + b.n - r); if (op == Instruction::Or) { s.P.addGe(r - a.n); s.P.addGe(r - b.n); }
      // bounded by the next power of two
      for (unsigned k = 1; k <= w; k++) if (s.P.entailsGe(Lin(pow2(k) - 1) - a.n) && s.P.entailsGe(Lin(pow2(k) - 1) - b.n)) { s.P.addGe(Lin(pow2(k) - 1) - r); break; }
      out.push_back({s, Val::num(w, r)}); return; }
    }
    out.push_back({s, Val::top(w)});
  }
  void addCmpFact(State &s, const Val &c, bool eq) {
    if (c.pobj == ZEROS) { if (eq && s.mem.count(c.obj)) { auto &o = s.wobj(c.obj); Cell x; x.off = c.n; x.len = c.clen; x.fill = true; x.byte = 0; if (o.data) o.cells.push_back(x); } return; }
    Fact f; f.eq = eq; f.a = c.obj; f.b = c.pobj; f.ao = c.n; f.bo = c.poff; f.len = c.clen;
    if (COPYFACTS) {   // what is known of a copy of one side
      std::vector<Fact> more;
      for (auto &h : s.facts) if (h.eq) for (int sd = 0; sd < 2; sd++) { int x = sd ? f.b : f.a, y = sd ? f.a : f.b; Lin xo = sd ? f.bo : f.ao, yo = sd ? f.ao : f.bo;
        for (int sw = 0; sw < 2; sw++) { int a = sw ? h.b : h.a, b = sw ? h.a : h.b; Lin ao = sw ? h.bo : h.ao, bo = sw ? h.ao : h.bo;
          if (a == x && b != y && s.P.entailsGe(xo - ao) && s.P.entailsGe(ao + h.len - xo - f.len)) { Fact g; g.eq = eq; g.a = b; g.b = y; g.ao = s.P.norm(bo + xo - ao); g.bo = yo; g.len = f.len; more.push_back(g); } } }
      for (auto &g : more) s.facts.push_back(g);
    }
    s.facts.push_back(f); }
  void icmp(State &s, ICmpInst *I, Forks &out) {
    auto pr = I->getPredicate(); Value *A = I->getOperand(0), *B = I->getOperand(1);
    auto res = [&](State &t, bool r) { out.push_back({t, Val::num(1, Lin(r ? 1 : 0))}); };
    auto both = [&]() { State t = s; res(t, true); State u = s; res(u, false); };
    if (I->getType()->isVectorTy()) { out.push_back({s, Val::top(4096)}); return; }
    Val a = get(s, A), b = get(s, B); i128 ca, cb;
    if (a.k == Val::Cmp || b.k == Val::Cmp) {
      if (b.k == Val::Cmp) std::swap(a, b);
      if (I->isEquality() && ((b.isC(cb) && cb == 0))) { bool isEq = pr == ICmpInst::ICMP_EQ; State t = s; addCmpFact(t, a, true); res(t, isEq); State u = s; addCmpFact(u, a, false); res(u, !isEq); return; }
      both(); return;
    }
    if (I->isEquality()) for (int i = 0; i < 2; i++) { const Val &x = i ? b : a, &y = i ? a : b; i128 c; if (x.k == Val::Top && x.pobj >= 0 && x.hb >= 0 && y.isC(c) && c == 0) {
      bool isEq = pr == ICmpInst::ICMP_EQ; State t = s; if (t.mem.count(x.pobj) && x.plen == 1) { Cell q; q.off = x.poff; q.len = Lin(1); q.v = Val::top((unsigned)x.hb); auto &o = t.wobj(x.pobj); if (o.data) o.cells.push_back(q); } res(t, isEq); State u = s; res(u, !isEq); return; } }
    if (I->isEquality() && a.pobj >= 0 && b.pobj >= 0 && a.hb < 0 && b.hb < 0 && (a.k == Val::Top || b.k == Val::Top) && a.plen == b.plen && a.plen) { Val c; c.obj = a.pobj; c.n = a.poff; c.pobj = b.pobj; c.poff = b.poff; c.clen = Lin((int)a.plen); bool isEq = pr == ICmpInst::ICMP_EQ; State t = s; addCmpFact(t, c, true); res(t, isEq); State u = s; addCmpFact(u, c, false); res(u, !isEq); return; }
    bool pt = A->getType()->isPointerTy() || a.k == Val::Ptr || b.k == Val::Ptr;
    if (pt) {
      if (a.k == Val::Num && a.isC(ca) && ca == 0) a = Val::null(); if (b.k == Val::Num && b.isC(cb) && cb == 0) b = Val::null();
      if (a.k == Val::Null && b.k == Val::Null) { bool r = ICmpInst::isTrueWhenEqual(pr); res(s, r); return; }
      if ((a.k == Val::Null && (b.k == Val::Ptr || b.k == Val::Fn)) || (b.k == Val::Null && (a.k == Val::Ptr || a.k == Val::Fn))) { if (pr == ICmpInst::ICMP_EQ) { res(s, false); return; } if (pr == ICmpInst::ICMP_NE) { res(s, true); return; } both(); return; }
      if (a.k == Val::Ptr && b.k == Val::Ptr) {
        if (a.obj != b.obj) { if (pr == ICmpInst::ICMP_EQ) { res(s, false); return; } if (pr == ICmpInst::ICMP_NE) { res(s, true); return; } both(); return; }
        a = Val::num(64, a.n); b = Val::num(64, b.n);
      } else { both(); return; }
    } else {
      if ((a.k == Val::Top || a.k == Val::Undef) && (b.k == Val::Top || b.k == Val::Undef)) { both(); return; }
      a = getNum(s, A); b = getNum(s, B);
      if (a.k != Val::Num || b.k != Val::Num) { both(); return; }
      if (I->isSigned()) {
        unsigned w = A->getType()->getIntegerBitWidth();
        std::vector<std::pair<State, Lin>> fa; toSigned(s, w, a.n, fa);
        for (auto &x : fa) { std::vector<std::pair<State, Lin>> fb; toSigned(x.first, w, b.n, fb); for (auto &y : fb) cmpLin(y.first, ICmpInst::getUnsignedPredicate(pr), x.second, y.second, out); }
        return;
      }
    }
    cmpLin(s, pr, a.n, b.n, out);
  }
  void cmpLin(State &s, CmpInst::Predicate pr, const Lin &a, const Lin &b, Forks &out) {
    auto res = [&](State &t, bool r) { out.push_back({t, Val::num(1, Lin(r ? 1 : 0))}); };
    State ys, ns, *y, *n;
    switch (pr) {
    case CmpInst::ICMP_ULT: split(s, b - a - Lin(1), y, n, ys, ns); break;
    case CmpInst::ICMP_ULE: split(s, b - a, y, n, ys, ns); break;
    case CmpInst::ICMP_UGT: split(s, a - b - Lin(1), y, n, ys, ns); break;
    case CmpInst::ICMP_UGE: split(s, a - b, y, n, ys, ns); break;
    default: {
      bool eqT = pr == CmpInst::ICMP_EQ; Lin d = s.P.norm(a - b);
      if (d.isConst()) { res(s, (d.k == 0) == eqT); return; }
      split(s, d, y, n, ys, ns);
      if (n) res(ns, !eqT);
      if (y) { State y2, n2, *yy, *nn; split(ys, -d, yy, nn, y2, n2); if (nn) res(n2, !eqT); if (yy) { y2.P.addEq(d); if (!y2.P.checkBottom()) res(y2, eqT); } }
      return; }
    }
    if (y) res(ys, true); if (n) res(ns, false);
  }
  // pointer + sum of scaled indices
  void gep(State &s, GetElementPtrInst *I, Forks &out) {
    if (I->getType()->isVectorTy()) { out.push_back({s, Val()}); return; }
    struct It { State s; Val v; };
    Val base = get(s, I->getPointerOperand());
    std::vector<It> cur{{s, base}};
    unsigned k = 1;
    for (auto gti = gep_type_begin(I), e = gep_type_end(I); gti != e; ++gti, ++k) {
      Value *ix = I->getOperand(k); std::vector<It> nx;
      for (auto &c : cur) {
        if (c.v.k == Val::Null) { // null + offset is only used with empty accesses
          nx.push_back(c); continue; }
        if (c.v.k != Val::Ptr) { nx.push_back(c); continue; }
        if (auto *st = gti.getStructTypeOrNull()) { c.v.n = c.v.n + Lin((i128)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue())); nx.push_back(c); continue; }
        i128 es = DL->getTypeAllocSize(gti.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(ix)) { c.v.n = c.v.n + Lin(es * (i128)ci->getSExtValue()); nx.push_back(c); continue; }
        Val iv = getNum(c.s, ix);
        if (iv.k != Val::Num) { c.v = Val(); nx.push_back(c); continue; }
        std::vector<std::pair<State, Lin>> f; toSigned(c.s, ix->getType()->getIntegerBitWidth(), iv.n, f);
        for (auto &x : f) { Val v = c.v; v.n = x.first.P.norm(v.n + es * x.second); nx.push_back({x.first, v}); }
      }
      cur = nx;
    }
    for (auto &c : cur) out.push_back({c.s, c.v});
  }
  std::string strArg(State &s, Value *v) {
    v = v->stripPointerCasts(); if (auto *g = dyn_cast<GlobalVariable>(v)) if (g->hasInitializer()) if (auto *d = dyn_cast<ConstantDataArray>(g->getInitializer())) if (d->isCString()) return d->getAsCString().str();
    return "?";
  }
  // ----- calls; results: states with the call's value set
  void call(State s, CallInst *I, States &out) {
    Function *callee = I->getCalledFunction();
    if (!callee) { Val f = get(s, I->getCalledOperand()); if (f.k == Val::Fn) callee = const_cast<Function *>(f.fn); }
    auto ret = [&](State &t, const Val &v) { if (!I->getType()->isVoidTy()) set(t, I, v); out.push_back(std::move(t)); };
    auto retTop = [&](State &t) { if (I->getType()->isVoidTy()) { out.push_back(std::move(t)); return; } ret(t, I->getType()->isIntegerTy() ? Val::top(I->getType()->getIntegerBitWidth()) : (I->getType()->isPointerTy() ? Val() : Val::top(4096))); };
    if (!callee) { retTop(s); return; }
    StringRef nm = callee->getName();
    if (nm.starts_with("llvm.dbg") || nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.stack") || nm.starts_with("llvm.prefetch")) { if (I->getType()->isVoidTy()) out.push_back(std::move(s)); else ret(s, Val()); return; }
    if (isa<InlineAsm>(I->getCalledOperand())) { retTop(s); return; }
    auto lenArg = [&](unsigned k) -> Lin { Val v = getNum(s, I->getArgOperand(k)); return v.k == Val::Num ? v.n : freshLin("len", 0, pow2(63)); };
    if (nm == "memcpy" || nm == "memmove" || nm.starts_with("llvm.memcpy") || nm.starts_with("llvm.memmove") || nm == "__memcpy_chk") {
      Lin l = lenArg(2); Val d = get(s, I->getArgOperand(0)), r = get(s, I->getArgOperand(1));
      if (!checkAccess(s, r, l, false, I)) return; if (!checkAccess(s, d, l, true, I)) return;
      memCopy(s, d, r, l); if (I->getType()->isVoidTy()) out.push_back(std::move(s)); else ret(s, d); return;
    }
    if (nm == "memset" || nm.starts_with("llvm.memset") || nm == "__memset_chk") {
      Lin l = lenArg(2); Val d = get(s, I->getArgOperand(0)), c = get(s, I->getArgOperand(1));
      if (!checkAccess(s, d, l, true, I)) return;
      memSet(s, d, c, l); if (I->getType()->isVoidTy()) out.push_back(std::move(s)); else ret(s, d); return;
    }
    if (nm == "explicit_bzero" || nm == "bzero") { Lin l = lenArg(1); Val d = get(s, I->getArgOperand(0)); if (!checkAccess(s, d, l, true, I)) return; memSet(s, d, Val::num(8, Lin(0)), l); out.push_back(std::move(s)); return; }
    if (nm == "memcmp" || nm == "bcmp") {
      Lin l = lenArg(2); Val a = get(s, I->getArgOperand(0)), b = get(s, I->getArgOperand(1));
      if (!checkAccess(s, a, l, false, I)) return; if (!checkAccess(s, b, l, false, I)) return;
      if (a.k == Val::Ptr && b.k == Val::Ptr) { Val c; c.k = Val::Cmp; c.bits = 32; c.obj = a.obj; c.n = a.n; c.pobj = b.obj; c.poff = b.n; c.clen = l; c.plen = 4; ret(s, c); } else retTop(s);
      return;
    }
    if (nm.starts_with("xk_")) {
      if (nm == "xk_assert") {
        Val c = getNum(s, I->getArgOperand(0)); std::string id = strArg(s, I->getArgOperand(1)); std::string kind = id.substr(0, id.find(':')), rest = id.find(':') == std::string::npos ? "" : id.substr(id.find(':') + 1);
        if (c.k != Val::Num) { oblig(kind, rest, false, I, "undecided"); out.push_back(std::move(s)); return; }
        bool ok = holds(s, c.n - Lin(1)) || (REC && holdsInt(s, c.n - Lin(1)));
        oblig(kind, rest, ok, I, VERB ? s.P.str() : "not established");
        if (ok && c.n.isConst() && c.n.k < 1) return;
        if (!ok) { if (VERB > 1) errs() << "ASSERT " << id << " fails:\n" << s.P.str() << "\n"; if (c.n.isConst()) return; s.P.addGe(c.n - Lin(1)); if (s.P.checkBottom()) return; }
        out.push_back(std::move(s)); return;
      }
      if (nm == "xk_assume") { Val c = getNum(s, I->getArgOperand(0)); if (c.k == Val::Num) { s.P.addGe(c.n - Lin(1)); if (s.P.checkBottom()) return; } out.push_back(std::move(s)); return; }
      if (nm == "xk_reach") { oblig("REACH", strArg(s, I->getArgOperand(0)), true, I, ""); out.push_back(std::move(s)); return; }
      if (nm.starts_with("xk_range")) { Val a = getNum(s, I->getArgOperand(0)), b = getNum(s, I->getArgOperand(1)); i128 x, y; unsigned w = I->getType()->getIntegerBitWidth(); if (a.isC(x) && b.isC(y)) { ret(s, Val::num(w, freshLin("in", x, y))); return; } Lin v = freshLin("in", 0, pow2(w) - 1); s.P.addGe(v - a.n); s.P.addGe(b.n - v); if (s.P.checkBottom()) return; ret(s, Val::num(w, v)); return; }
      if (nm == "xk_choice") { // xk_choice(n): forks into constants 0..n-1
        Val a = getNum(s, I->getArgOperand(0)); i128 n; if (!a.isC(n)) die("xk_choice needs a constant"); for (int k = 0; k < n; k++) { State t = s; set(t, I, Val::num(I->getType()->getIntegerBitWidth(), Lin(k))); out.push_back(std::move(t)); } return; }
      if (nm == "xk_in" || nm == "xk_out" || nm == "xk_mem") { // fresh object of given size
        Lin sz = lenArg(0); std::string name = strArg(s, I->getArgOperand(1)); int id = objId(I, name, false);
        auto o = std::make_shared<Obj>(); o->id = id; o->name = name; o->size = sz; o->data = nm != "xk_mem"; o->heap = true; o->ro = nm == "xk_in"; dropFacts(s, id); s.mem[id] = o; ret(s, Val::ptr(id, Lin(0))); return; }
      if (nm == "xk_read" || nm == "xk_write") { Lin l = lenArg(1); Val p = get(s, I->getArgOperand(0)); bool w = nm == "xk_write"; if (!checkAccess(s, p, l, w, I)) return; if (w) havocRange(s, p, l); out.push_back(std::move(s)); return; }
      if (nm == "xk_havoc") { Lin l = lenArg(1); Val p = get(s, I->getArgOperand(0)); havocRange(s, p, l); out.push_back(std::move(s)); return; }
      if (nm == "xk_untouched") { Val p = get(s, I->getArgOperand(0)); ret(s, Val::num(32, Lin(p.k == Val::Null || (p.k == Val::Ptr && s.mem.count(p.obj) && !s.mem.at(p.obj)->touched) ? 1 : 0))); return; }
      if (nm == "xk_watch") { Val p = get(s, I->getArgOperand(0)); if (p.k == Val::Ptr && s.mem.count(p.obj)) s.wobj(p.obj).touched = false; out.push_back(std::move(s)); return; }
      if (nm == "xk_same") { // same object?
        Val a = get(s, I->getArgOperand(0)), b = get(s, I->getArgOperand(1)); bool r = a.k == b.k && a.k == Val::Ptr && a.obj == b.obj; ret(s, Val::num(32, Lin(r ? 1 : 0))); return; }
      if (nm == "xk_known_eq") { Val a = getNum(s, I->getArgOperand(0)), b = getNum(s, I->getArgOperand(1)); ret(s, Val::num(32, Lin(a.k == Val::Num && b.k == Val::Num && s.P.entailsEq(a.n - b.n) ? 1 : 0))); return; }   // without a case split
      if (nm == "xk_isnull") { Val a = get(s, I->getArgOperand(0)); ret(s, Val::num(32, Lin(a.k == Val::Null ? 1 : 0))); return; }
      if (nm == "xk_filled") { // is [p, p+len) known to hold byte c?
        Val p = get(s, I->getArgOperand(0)), c = get(s, I->getArgOperand(1)); Lin l = lenArg(2); bool r = s.P.entailsGe(-l); i128 k;
        if (!r && p.k == Val::Ptr && s.mem.count(p.obj) && c.isC(k)) for (auto &x : s.mem.at(p.obj)->cells) if (x.fill && x.byte == (unsigned)k && s.P.entailsGe(p.n - x.off) && s.P.entailsGe(x.off + x.len - p.n - l)) r = true;
        ret(s, Val::num(32, Lin(r ? 1 : 0))); return; }
      if (nm == "xk_unwritten") { // was the data object left untouched? (no cell, no havoc): tracked by a marker cell
        Val p = get(s, I->getArgOperand(0)); Lin l = lenArg(1); bool r = s.P.entailsGe(-l);
        if (!r && p.k == Val::Ptr && s.mem.count(p.obj)) for (auto &x : s.mem.at(p.obj)->cells) if (x.fill && x.byte == 0xA5 && s.P.entailsGe(p.n - x.off) && s.P.entailsGe(x.off + x.len - p.n - l)) r = true;
        ret(s, Val::num(32, Lin(r ? 1 : 0))); return; }
      if (STRIDES && nm == "xk_equal") strideEqs(s);
      if (nm == "xk_equal" || nm == "xk_differ") { // known comparison outcome of [p..) against [q..)
        Val p = get(s, I->getArgOperand(0)), q = get(s, I->getArgOperand(1)); Lin l = lenArg(2); bool r = false;
        if (p.k == Val::Ptr && q.k == Val::Ptr) {
          // union of facts: chain intervals from the start
          bool eq = nm == "xk_equal"; Lin pos(0); bool adv = true;
          if (eq) { while (adv && !s.P.entailsGe(pos - l)) { adv = false; for (auto &f : s.facts) if (f.eq) for (int sw = 0; sw < 2; sw++) { int a = sw ? f.b : f.a, b = sw ? f.a : f.b; Lin ao = sw ? f.bo : f.ao, bo = sw ? f.ao : f.bo; if (a == p.obj && b == q.obj && s.P.entailsEq((ao - p.n) - (bo - q.n)) && s.P.entailsGe(p.n + pos - ao) && (s.P.entailsGe(ao + f.len - p.n - pos - Lin(1)) || (s.P.entailsGe(ao + f.len - p.n - l) && !s.P.entailsGe(pos - l)))) { pos = s.P.norm(ao + f.len - p.n); adv = true; } } } r = s.P.entailsGe(pos - l); }
          else for (auto &f : s.facts) if (!f.eq) for (int sw = 0; sw < 2; sw++) { int a = sw ? f.b : f.a, b = sw ? f.a : f.b; Lin ao = sw ? f.bo : f.ao, bo = sw ? f.ao : f.bo; if (a == p.obj && b == q.obj && s.P.entailsEq((ao - p.n) - (bo - q.n)) && s.P.entailsGe(ao - p.n) && s.P.entailsGe(p.n + l - ao - f.len)) r = true; }
        }
        ret(s, Val::num(32, Lin(r ? 1 : 0))); return; }
      if (nm == "xk_dump") { errs() << "DUMP " << strArg(s, I->getArgOperand(0)) << "\n" << s.P.str(); for (auto &f : s.facts) errs() << " fact " << (f.eq ? "eq " : "ne ") << f.a << "+" << f.ao.str() << " " << f.b << "+" << f.bo.str() << " len " << f.len.str() << "\n"; for (auto &m : s.mem) { errs() << " obj " << m.first << " " << m.second->name << " size " << m.second->size.str() << "\n"; for (auto &c : m.second->cells) errs() << "   +" << c.off.str() << " len " << c.len.str() << (c.fill ? " fill " + std::to_string(c.byte) : c.v.k == Val::Num ? " = " + c.v.n.str() : c.v.k == Val::Ptr ? " -> obj" + std::to_string(c.v.obj) + "+" + c.v.n.str() : " ?") << "\n"; } out.push_back(std::move(s)); return; }
      if (nm == "xk_copy_facts") { out.push_back(std::move(s)); return; }
      if (nm == "xk_fn_is_lib") { retTop(s); return; }
      die("unknown intrinsic " + nm.str());
    }
    if (nm == "__assert_fail" || nm == "abort" || nm == "exit") { return; }
    if (!callee->isDeclaration()) {
      std::vector<Val> args; for (auto &a : I->args()) args.push_back(get(s, a));
      State t = s; prune(t, liveAfter(fi, I));
      auto res = callFunction(callee, args, std::move(t), I);
      for (auto &r : res) { if (!I->getType()->isVoidTy() && !I->use_empty()) set(r.s, I, r.ret); out.push_back(std::move(r.s)); }
      return;
    }
    // unknown external: everything reachable through its pointers becomes unknown
    if (!callee->isIntrinsic()) for (auto &a : I->args()) { Val v = get(s, a); if (v.k == Val::Ptr && s.mem.count(v.obj) && !s.mem.at(v.obj)->isconst) { Obj &o = s.wobj(v.obj); o.cells.clear(); } }
    else if (callee->onlyReadsMemory() || callee->doesNotAccessMemory()) {}
    else for (auto &a : I->args()) { Val v = get(s, a); if (v.k == Val::Ptr && s.mem.count(v.obj) && !s.mem.at(v.obj)->isconst) { Obj &o = s.wobj(v.obj); o.cells.clear(); } }
    if (!callee->isIntrinsic()) oblig("EXT", nm.str(), true, I, "");
    retTop(s);
  }
  // ----- one block; produces flows
  void execBlock(BasicBlock *B, States in, std::vector<Flow> &flows) {
    struct W { State s; BasicBlock::iterator it; };
    // states wait at instructions; the earliest instruction goes first, and too many states at one are merged
    std::unordered_map<const Instruction *, int> pos; { int k = 0; for (auto &i : *B) pos[&i] = k++; }
    struct Queue { std::map<int, std::pair<BasicBlock::iterator, States>> q; std::unordered_map<const Instruction *, int> *pos; void push_back(W w) { auto &e = q[(*pos)[&*w.it]]; e.first = w.it; e.second.push_back(std::move(w.s)); } bool empty() { return q.empty(); } } work; work.pos = &pos;
    if (VERB > 1) errs() << "[" << (int)(elapsed()*10) << "] " << std::string(STACK.size() * 2, ' ') << F->getName() << ":" << fi.idx[B] << " states " << in.size() << (in.size() ? " ge " + std::to_string(in[0].P.ge.size()) : std::string()) << "\n";
    for (auto &s : in) work.push_back({std::move(s), B->getFirstNonPHI()->getIterator()});
    while (!work.empty()) {
      if (elapsed() > BUDGET) die("time budget exceeded in " + F->getName().str());
      auto qi = work.q.begin(); States &qs = qi->second.second;
      if (qs.size() > CAP) { const std::set<unsigned> lv = liveBefore(fi, &*qi->second.first); for (auto &x : qs) prune(x, lv); reduce(qs, CAP); }
      W w{std::move(qs.back()), qi->second.first}; qs.pop_back(); if (qs.empty()) work.q.erase(qi);
      int here = pos[&*w.it];
      while (true) {
        Instruction *I = &*w.it; auto next = std::next(w.it); State &s = w.s;
        if (!work.empty() && work.q.begin()->first < pos[I]) { work.push_back(std::move(w)); break; }   // let the others catch up
        (void)here;
        auto forks = [&](Forks &f) -> bool { // continue with several states
          if (f.empty()) return false;
          for (size_t k = 1; k < f.size(); k++) { set(f[k].first, I, f[k].second); work.push_back(W{std::move(f[k].first), next}); }
          State t = std::move(f[0].first); Val v = f[0].second; set(t, I, v); w.s = std::move(t); w.it = next; return true; };
        if (auto *bo = dyn_cast<BinaryOperator>(I)) { Forks f; binop(s, bo, f); if (!forks(f)) break; continue; }
        if (auto *ic = dyn_cast<ICmpInst>(I)) { Forks f; icmp(s, ic, f); if (!forks(f)) break; continue; }
        if (auto *g = dyn_cast<GetElementPtrInst>(I)) { Forks f; gep(s, g, f); if (!forks(f)) break; continue; }
        if (auto *sel = dyn_cast<SelectInst>(I)) { Val c = getNum(s, sel->getCondition()); Forks f; if (c.k != Val::Num) { f.push_back({s, get(s, sel->getTrueValue())}); f.push_back({s, get(s, sel->getFalseValue())}); } else for (int k = 0; k < 2; k++) { State t = s; t.P.addEq(c.n - Lin(k)); if (!t.P.checkBottom()) f.push_back({t, get(t, k ? sel->getTrueValue() : sel->getFalseValue())}); } if (!forks(f)) break; continue; }
        if (isa<ZExtInst>(I) || isa<TruncInst>(I) || isa<SExtInst>(I)) {
          Value *o = I->getOperand(0); Type *t = I->getType();
          if (!t->isIntegerTy() || t->getIntegerBitWidth() > 64 || !o->getType()->isIntegerTy() || o->getType()->getIntegerBitWidth() > 64) { set(s, I, Val::top(4096)); w.it = next; continue; }
          unsigned wb = t->getIntegerBitWidth(), ob = o->getType()->getIntegerBitWidth(); Val v = get(s, o);
          if (v.k == Val::Cmp) { if (isa<TruncInst>(I) && 8 * v.plen > wb) set(s, I, Val::top(wb)); /* the difference may be in the bits dropped */ else set(s, I, v); w.it = next; continue; }
          if (v.k == Val::Top || v.k == Val::Undef) { Val r = Val::top(v.k == Val::Top ? std::min(wb, isa<SExtInst>(I) && v.bits >= ob ? wb : v.bits) : wb); if (isa<ZExtInst>(I) || isa<SExtInst>(I) || (isa<TruncInst>(I) && v.bits <= wb && 8 * v.plen <= wb)) { r.pobj = v.pobj; r.poff = v.poff; r.plen = v.plen; r.hb = v.hb; } set(s, I, r); w.it = next; continue; }
          if (v.k != Val::Num) { set(s, I, v.k == Val::Ptr ? v : Val::top(wb)); w.it = next; continue; }
          if (isa<ZExtInst>(I)) { v.bits = wb; set(s, I, v); w.it = next; continue; }
          if (isa<TruncInst>(I)) { Lin n = s.P.norm(v.n); if (!s.P.entailsGe(Lin(pow2(wb) - 1) - n)) n = modc(s, n, pow2(wb)); Val r = Val::num(wb, n); if (v.pobj >= 0 && n == s.P.norm(v.n)) { r.pobj = v.pobj; r.poff = v.poff; r.plen = v.plen; } set(s, I, r); w.it = next; continue; }
          std::vector<std::pair<State, Lin>> fs; toSigned(s, ob, v.n, fs); Forks f; for (auto &x : fs) { Lin n = x.second; i128 dummy; (void)dummy; // negative values get the upper bits
            bool neg = !(x.first.P.entailsGe(n)); if (neg) n = n + Lin(pow2(wb)); f.push_back({x.first, Val::num(wb, n)}); } if (!forks(f)) break; continue;
        }
        if (auto *a = dyn_cast<AllocaInst>(I)) {
          int id = objId(I, a->hasName() ? a->getName().str() : "local", false); dropFacts(s, id); auto o = std::make_shared<Obj>(); o->id = id; o->name = F->getName().str() + "." + (a->hasName() ? a->getName().str() : "local");
          Lin sz((i128)DL->getTypeAllocSize(a->getAllocatedType())); if (a->isArrayAllocation()) { Val nval = getNum(s, a->getArraySize()); if (nval.k == Val::Num) sz = sz.k * nval.n; else sz = freshLin("vla", 0, pow2(40)); }
          o->size = sz; s.mem[id] = o; set(s, I, Val::ptr(id, Lin(0))); w.it = next; continue; }
        if (auto *l = dyn_cast<LoadInst>(I)) {
          Val p = get(s, l->getPointerOperand()); Lin sz((i128)DL->getTypeStoreSize(l->getType())); if (!checkAccess(s, p, sz, false, I)) break;
          Val lv = load(s, p, l->getType(), I); set(s, I, lv); w.it = next; continue; }
        if (auto *st = dyn_cast<StoreInst>(I)) {
          Val p = get(s, st->getPointerOperand()); Type *t = st->getValueOperand()->getType(); Lin sz((i128)DL->getTypeStoreSize(t)); if (!checkAccess(s, p, sz, true, I)) break;
          store(s, p, get(s, st->getValueOperand()), t); w.it = next; continue; }
        if (auto *c = dyn_cast<CallInst>(I)) {
          States out; if (isa<DbgInfoIntrinsic>(c)) { w.it = next; continue; }
          call(std::move(w.s), c, out); if (out.empty()) break;
          for (size_t k = 1; k < out.size(); k++) work.push_back({std::move(out[k]), next});
          State t = std::move(out[0]); w.s = std::move(t); w.it = next; continue; }
        if (auto *b = dyn_cast<BranchInst>(I)) {
          if (b->isUnconditional()) { flows.push_back({B, b->getSuccessor(0), std::move(s)}); break; }
          Val c = getNum(s, b->getCondition());
          for (int k = 0; k < 2; k++) { State t = s; if (c.k == Val::Num) { t.P.addEq(c.n - Lin(k)); if (t.P.checkBottom()) continue; } flows.push_back({B, b->getSuccessor(k ? 0 : 1), std::move(t)}); }
          break; }
        if (auto *sw = dyn_cast<SwitchInst>(I)) {
          Val c = getNum(s, sw->getCondition()); State rest = s;
          for (auto &cs : sw->cases()) { State t = s; if (c.k == Val::Num) { t.P.addEq(c.n - Lin((i128)cs.getCaseValue()->getZExtValue())); if (t.P.checkBottom()) continue; } flows.push_back({B, cs.getCaseSuccessor(), std::move(t)}); }
          // default: exclude the case values one by one
          States rs{rest}; if (c.k == Val::Num) for (auto &cs : sw->cases()) { States nx; for (auto &r : rs) { Forks f; cmpLin(r, CmpInst::ICMP_EQ, c.n, Lin((i128)cs.getCaseValue()->getZExtValue()), f); for (auto &x : f) { i128 k; if (x.second.isC(k) && k == 0) nx.push_back(x.first); } } rs = nx; }
          for (auto &r : rs) flows.push_back({B, sw->getDefaultDest(), std::move(r)});
          break; }
        if (auto *r = dyn_cast<ReturnInst>(I)) { Val v; if (r->getReturnValue()) v = get(s, r->getReturnValue()); outs_.push_back({std::move(s), v}); break; }
        if (isa<UnreachableInst>(I)) break;
        if (isa<BitCastInst>(I) || isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I) || isa<FreezeInst>(I) || isa<AddrSpaceCastInst>(I)) {
          Val v = get(s, I->getOperand(0));
          if (isa<BitCastInst>(I) && I->getType() != I->getOperand(0)->getType()) v = I->getType()->isIntegerTy() && I->getType()->getIntegerBitWidth() <= 64 ? Val::top(I->getType()->getIntegerBitWidth()) : Val::top(4096);
          if (isa<IntToPtrInst>(I) && v.k != Val::Ptr && v.k != Val::Null) { i128 c; v = v.isC(c) && c == 0 ? Val::null() : Val(); }
          set(s, I, v); w.it = next; continue; }
        // anything else: unknown value
        if (!I->getType()->isVoidTy()) set(s, I, I->getType()->isIntegerTy() && I->getType()->getIntegerBitWidth() <= 64 ? Val::top(I->getType()->getIntegerBitWidth()) : (I->getType()->isPointerTy() ? Val() : Val::top(4096)));
        w.it = next;
      }
    }
  }
  // apply phi nodes of `to` for the edge, prune dead values
  void enter(Flow &f) {
    std::vector<std::pair<unsigned, Val>> nv;
    for (auto &ph : f.to->phis()) { Val v = get(f.s, ph.getIncomingValueForBlock(f.from)); nv.push_back({vn(&ph), v}); }
    if (!nv.empty()) { Env &e = f.s.wenv(); for (auto &x : nv) e[x.first] = x.second; }
    prune(f.s, fi.liveIn[f.to]);
  }
  // process the blocks directly in loop L (nullptr: function level). in: states entering `start`.
  // exits receive flows leaving L; backs receive states at L's header from inside
  void region(Loop *L, BasicBlock *start, States init, std::vector<Flow> &exits, States &backs) {
    std::map<int, std::pair<BasicBlock *, States>> pend;
    pend[fi.idx[start]] = {start, std::move(init)};
    auto route = [&](std::vector<Flow> &fl) {
      for (auto &f : fl) {
        if (L && !L->contains(f.to)) { exits.push_back(std::move(f)); continue; }
        enter(f);
        if (L && f.to == L->getHeader()) { backs.push_back(std::move(f.s)); continue; }
        auto &p = pend[fi.idx[f.to]]; p.first = f.to; p.second.push_back(std::move(f.s));
      }
    };
    bool firstBlock = true;
    while (!pend.empty()) {
      auto it = pend.begin(); BasicBlock *B = it->second.first; States in = std::move(it->second.second); pend.erase(it);
      std::vector<Flow> fl;
      Loop *BL = fi.LI.getLoopFor(B);
      if (BL != L && !(firstBlock && L && B == L->getHeader())) { // header of an inner loop
        while (BL->getParentLoop() != L) BL = BL->getParentLoop();
        reduce(in, CAP);
        loop(BL, std::move(in), fl);
      } else { reduce(in, CAP); execBlock(B, std::move(in), fl); }
      firstBlock = false;
      route(fl);
    }
  }
  // a loop that shifts a value right by a constant (or divides it) each round ends after at most 64 rounds: unroll it
  static bool shiftLoop(Loop *L) {
    for (auto *B : L->blocks()) for (auto &I : *B) if (isa<CallInst>(I) && !isa<DbgInfoIntrinsic>(I)) return false;
    for (auto &I : *L->getHeader()) if (auto *P = dyn_cast<PHINode>(&I)) for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (L->contains(P->getIncomingBlock(i)))
      if (auto *O = dyn_cast<BinaryOperator>(P->getIncomingValue(i))) if (O->getOperand(0) == P && isa<ConstantInt>(O->getOperand(1)) && (O->getOpcode() == Instruction::LShr || O->getOpcode() == Instruction::UDiv)) return true;
    // or shifts a constant left by a counter
    for (auto *B : L->blocks()) for (auto &I : *B) if (auto *O = dyn_cast<BinaryOperator>(&I)) if (O->getOpcode() == Instruction::Shl && isa<ConstantInt>(O->getOperand(0))) {
      Value *x = O->getOperand(1); while (auto *C = dyn_cast<CastInst>(x)) x = C->getOperand(0);
      if (auto *P = dyn_cast<PHINode>(x)) if (P->getParent() == L->getHeader()) for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (!L->contains(P->getIncomingBlock(i)) && isa<ConstantInt>(P->getIncomingValue(i))) return true;
    }
    return false;
  }
  void loop(Loop *L, States in, std::vector<Flow> &exits) {
    BasicBlock *H = L->getHeader();
    States cur = std::move(in);
    if (shiftLoop(L)) {
      std::map<std::string, Ob> saved; if (REC) saved = OBS; std::vector<Flow> ex; States c = cur; int it = 0;
      for (; it < 66 && !c.empty() && c.size() <= 8; it++) { States bk; for (auto &s : c) { std::vector<Flow> e1; States b1; region(L, H, States{s}, e1, b1); for (auto &x : e1) ex.push_back(std::move(x)); for (auto &b : b1) if (!b.P.checkBottom()) bk.push_back(std::move(b)); } c = std::move(bk); }
      if (VERB > 0) errs() << "shift loop in " << F->getName() << ": rounds " << it << " left " << c.size() << " exits " << ex.size() << "\n";
      if (c.empty()) { for (auto &x : ex) exits.push_back(std::move(x)); return; }
      if (REC) OBS = saved;
    }
    // phase 1: unroll while the exit decision is determined
    SmallVector<BasicBlock *, 4> exb; L->getExitBlocks(exb);
    for (int it = 0; it < 400 && !cur.empty() && !exb.empty(); it++) {
      bool decided = true; std::vector<Flow> ex; States bk;
      std::map<std::string, Ob> saved; if (REC) saved = OBS;
      for (auto &s : cur) { std::vector<Flow> e1; States b1; region(L, H, States{s}, e1, b1); if (!e1.empty() && !b1.empty()) { decided = false; break; } for (auto &x : e1) ex.push_back(std::move(x)); for (auto &x : b1) bk.push_back(std::move(x)); }
      if (!decided) { if (REC) OBS = saved; break; }
      for (auto &x : ex) exits.push_back(std::move(x));
      reduce(bk, std::max(8u, RETCAP));
      cur = std::move(bk);
      if (it == 399) break;
    }
    if (cur.empty()) return;
    // phase 2: fixpoint per signature
    bool rec = REC; REC = false;
    CellSet coarse; std::map<std::string, State> inv; std::map<std::string, int> cnt;
    States entry = cur; for (auto &s : entry) { gc(s); s.slots.clear(); }
    auto build = [&]() { auto g = partition(entry, coarse, CAP); for (auto &x : g) inv[x.first] = joinStates(x.second, false); };
    build();
    bool stable = false; unsigned lateCap = CAP;
    for (int it = 0; it < 60 && !stable; it++) {
      stable = true; States bk; std::vector<Flow> ex;
      for (auto &x : inv) { States b1; ex.clear(); region(L, H, States{x.second}, ex, b1); for (auto &b : b1) bk.push_back(std::move(b)); }
      States lv; for (auto &s : bk) { gc(s); if (!s.P.checkBottom()) lv.push_back(std::move(s)); }
      bk = std::move(lv);
      if (VERB > 0) errs() << "[" << (int)elapsed() << "s] loop in " << F->getName() << " iteration " << it << " invariants " << inv.size() << " back states " << bk.size() << "\n";
      if (VERB > 1) for (auto &x : inv) errs() << "  inv " << F->getName() << " " << x.first << "\n";
      size_t nc = coarse.size();
      // a counter that starts at a constant would add one partition per iteration: stop distinguishing it
      { States all = bk; for (auto &x : inv) all.push_back(x.second); if (it == 5) lateCap = std::max<size_t>(2, std::min<size_t>(CAP, inv.size())); partition(all, coarse, it >= 5 ? lateCap : CAP); }
      if (coarse.size() != nc) { // merge existing invariants under the coarser partition
        States olds; for (auto &x : inv) olds.push_back(x.second); inv.clear(); auto g = partition(olds, coarse, CAP); for (auto &x : g) inv[x.first] = joinStates(x.second, false); stable = false; }
      for (auto &b : bk) {
        std::string sg = signature(b, coarse, true); auto f = inv.find(sg);
        if (f == inv.end()) { inv[sg] = b; stable = false; continue; }
        if (included(f->second, b)) continue;
        stable = false; int &c = cnt[sg]; c++;
        if (VERB > 1) { for (auto &d : f->second.ndivs) errs() << "I ndiv " << d.first.first.str() << " / " << d.first.second.str() << " = " << d.second.str() << "\n"; for (auto &d : b.ndivs) errs() << "B ndiv " << d.first.first.str() << " / " << d.first.second.str() << " = " << d.second.str() << "\n"; }
        std::vector<State *> v{&f->second, &b}; State j = joinStates(v, c > 4); 
        if (VERB > 2) errs() << "join " << F->getName() << " it " << it << " sig " << sg << "\n" << j.P.str() << "\n";
        f->second = std::move(j);
      }
      if (elapsed() > BUDGET) die("time budget exceeded in " + F->getName().str());
      if (it == 59) die("no fixpoint in " + F->getName().str());
    }
    // one descending step
    {
      States bk = entry; std::vector<Flow> ex;
      for (auto &x : inv) { States b1; region(L, H, States{x.second}, ex, b1); for (auto &b : b1) { gc(b); if (!b.P.checkBottom()) bk.push_back(std::move(b)); } }
      auto g = partition(bk, coarse, 1000000); std::map<std::string, State> n2; for (auto &x : g) n2[x.first] = joinStates(x.second, false);
      inv = std::move(n2);
    }
    REC = rec;
    States bk; for (auto &x : inv) region(L, H, States{x.second}, exits, bk);
  }
};
static unsigned DEPTH = 0;
static std::vector<Outcome> callFunction(Function *F, const std::vector<Val> &args, State s, const Instruction *at) {
  if (++DEPTH > 60) die("call depth");
  size_t oldHash = ctxHash; ctxHash = ctxHash * 1000003u + (size_t)vn(at ? (const Value *)at : (const Value *)F) + 17;
  STACK.push_back({F, at});
  Interp I(F);
  auto e = std::make_shared<Env>(); unsigned k = 0; for (auto &a : F->args()) { if (k < args.size()) { Val v = args[k]; if (auto *it = dyn_cast<IntegerType>(a.getType())) if (v.k == Val::Num) v.bits = it->getBitWidth(); if (!a.use_empty()) (*e)[vn(&a)] = v; } k++; }
  std::set<int> before; for (auto &m : s.mem) before.insert(m.first);
  s.st.push_back(e);
  std::vector<Flow> ex; States bk; I.region(nullptr, &F->getEntryBlock(), States{std::move(s)}, ex, bk);
  // leave the frame: keep the return value, drop locals
  for (auto &o : I.outs_) {
    o.s.st.pop_back();
    auto &OM = o.s.mem.w(); for (auto it = OM.begin(); it != OM.end();) { bool local = !before.count(it->first) && !it->second->gv && !it->second->data && it->second->name.rfind(F->getName().str() + ".", 0) == 0; if (local) it = OM.erase(it); else ++it; }
  }
  STACK.pop_back(); ctxHash = oldHash; DEPTH--;
  std::vector<Outcome> live;
  for (auto &o : I.outs_) if (!o.s.P.bottom) live.push_back(std::move(o));
  if (live.size() > RETCAP && !live[0].s.st.empty()) {   // merge outcomes with equal control state and return value
    States ss; for (auto &o : live) { o.s.wenv()[RETKEY] = o.ret; ss.push_back(std::move(o.s)); }
    reduce(ss, RETCAP);
    live.clear(); for (auto &x : ss) { Outcome o; o.ret = x.wenv()[RETKEY]; x.wenv().erase(RETKEY); o.s = std::move(x); live.push_back(std::move(o)); }
  }
  return live;
}

int main(int argc, char **argv) {
  LLVMContext C; std::unique_ptr<Module> M; std::vector<std::string> entries;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-v") { VERB++; continue; } if (a == "-t") { BUDGET = atof(argv[++i]); continue; } if (a == "-retcap") { RETCAP = atoi(argv[++i]); continue; } if (a == "-strides") { STRIDES = true; continue; } if (a == "-copyfacts") { COPYFACTS = true; continue; } if (a == "-cap") { CAP = atoi(argv[++i]); continue; }
    if (a == "-e") { entries.push_back(argv[++i]); continue; }
    SMDiagnostic E; auto m = parseIRFile(a, E, C); if (!m) { errs() << "xkai: cannot read " << a << ": " << E.getMessage() << "\n"; return 3; }
    if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { errs() << "xkai: cannot link " << a << "\n"; return 3; }
  }
  if (!M) return 3;
  MOD = M.get(); DL = &M->getDataLayout();
  for (auto &en : entries) {
    Function *F = M->getFunction(en); if (!F || F->isDeclaration()) die("no entry " + en);
    State s; ctxHash = 0;
    double t = elapsed();
    auto r = callFunction(F, {}, s, nullptr);
    outs() << "ENTRY\t" << en << "\t" << r.size() << "\t" << (long)((elapsed() - t) * 1000) << "ms\n";
  }
  for (auto &o : OBS) outs() << "OB\t" << (o.second.fail ? "FAIL" : "ok") << "\t" << o.first << "\t" << o.second.where << "\t" << (o.second.ok + o.second.fail) << "\t" << [&] { std::string m = o.second.msg; for (auto &c : m) if (c == '\n' || c == '\t') c = ' '; return m; }() << "\n";
  outs() << "STAT\tjoins " << NJOIN << " lp " << LPCALLS << " vars " << VARS.size() << "\n";
  outs().flush(); _exit(0);
}
