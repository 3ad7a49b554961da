// xkflow: interprocedural flow analyses over LLVM IR (no execution, no solver)
//   mod    which caller/global memory each function may write
//   taint  secret-dependent branches, addresses, lengths and divisions
//   ext    external functions reached from library code
// usage: xkflow a.bc b.bc ...      output: one tab-separated record per line
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
using std::map; using std::set; using std::string; using std::vector; using std::pair;

static string loc(const Instruction *I) {
  if (auto &d = I->getDebugLoc()) {
    const DILocation *l = d.get();
    auto *s = cast<DIScope>(l->getScope());
    string f = (s->getFilename()).str();
    return f + ":" + std::to_string(l->getLine());
  }
  return "?";
}

// ---------------------------------------------------------------- bases
// A base is an abstract memory object; derefs are collapsed to one level.
struct Base {
  enum K { Param, Alloca, Glob, Deref, Unknown } k; const Value *v; // Param: Argument ; Deref: Argument/GlobalVariable
  bool operator<(const Base &o) const { return k != o.k ? k < o.k : v < o.v; }
};
typedef set<Base> Bases;

static map<const Value *, Bases> PTS;                 // pointer SSA value -> bases
static map<const Value *, Bases> CONT;                // alloca / argument / global -> pointers stored in it
struct Summary { map<Base, const Instruction *> mod; set<int> retParam; bool retUnknown = false; Bases retGlob;
  set<pair<int,int>> storesInto; };
static map<const Function *, Summary> SUM;

static bool ptrLike(Type *t) { return t->isPointerTy(); }

static Bases basesOf(const Value *v) {
  if (auto *a = dyn_cast<Argument>(v)) return {{Base::Param, a}};
  if (auto *a = dyn_cast<AllocaInst>(v)) return {{Base::Alloca, a}};
  if (auto *g = dyn_cast<GlobalVariable>(v)) return {{Base::Glob, g}};
  if (auto *g = dyn_cast<GEPOperator>(v)) return basesOf(g->getPointerOperand());
  if (auto *c = dyn_cast<ConstantExpr>(v)) { if (c->isCast()) return basesOf(c->getOperand(0)); return {}; }
  if (isa<Constant>(v)) return {};
  auto it = PTS.find(v);
  return it == PTS.end() ? Bases() : it->second;
}
static Bases contentOf(const Bases &bs) {
  Bases r;
  for (auto &b : bs) {
    if (b.k == Base::Param) { r.insert({Base::Deref, b.v}); }
    if (b.k == Base::Deref) r.insert(b);
    if (b.k == Base::Glob) r.insert({Base::Deref, b.v});
    auto it = CONT.find(b.v);
    if (it != CONT.end()) r.insert(it->second.begin(), it->second.end());
  }
  return r;
}
static bool addAll(Bases &d, const Bases &s) { size_t n = d.size(); d.insert(s.begin(), s.end()); return d.size() != n; }

static bool readsOnly(StringRef n, unsigned i) {
  if (n == "memcmp" || n == "strlen" || n == "strcmp" || n == "bcmp" || n.starts_with("display") || n == "printf" || n == "__assert_fail" || n == "puts") return true;
  if ((n == "memcpy" || n == "memmove") && i == 1) return true;
  return false;
}
// constness of the parameters of functions without a body here (assembly), from the prototypes given with -P
static map<string, vector<bool>> PROTO;
static bool extConst(StringRef n, unsigned i) { auto it = PROTO.find(n.str()); return it != PROTO.end() && i < it->second.size() && it->second[i]; }

static void modPass(Module &M) {
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto &F : M) {
      if (F.isDeclaration()) continue;
      auto &S = SUM[&F];
      for (auto &I : instructions(F)) {
        auto mod = [&](const Value *p) {
          for (auto &b : basesOf(p)) if (b.k != Base::Alloca) if (S.mod.insert({b, &I}).second) ch = true;
        };
        auto storePtr = [&](const Value *dst, const Bases &what) {
          if (what.empty()) return;
          for (auto &b : basesOf(dst)) if (addAll(CONT[b.v], what)) ch = true;
        };
        if (auto *s = dyn_cast<StoreInst>(&I)) { mod(s->getPointerOperand()); if (ptrLike(s->getValueOperand()->getType())) storePtr(s->getPointerOperand(), basesOf(s->getValueOperand())); }
        else if (auto *r = dyn_cast<AtomicRMWInst>(&I)) mod(r->getPointerOperand());
        else if (auto *r = dyn_cast<AtomicCmpXchgInst>(&I)) mod(r->getPointerOperand());
        else if (auto *l = dyn_cast<LoadInst>(&I)) { if (ptrLike(l->getType())) if (addAll(PTS[l], contentOf(basesOf(l->getPointerOperand())))) ch = true; }
        else if (auto *p = dyn_cast<PHINode>(&I)) { if (ptrLike(p->getType())) for (auto &v : p->incoming_values()) if (addAll(PTS[p], basesOf(v))) ch = true; }
        else if (auto *p = dyn_cast<SelectInst>(&I)) { if (ptrLike(p->getType())) for (auto *v : {p->getTrueValue(), p->getFalseValue()}) if (addAll(PTS[p], basesOf(v))) ch = true; }
        else if (isa<IntToPtrInst>(&I)) {
          // pointer arithmetic through integers: follow the integer expression back to ptrtoint operands
          set<const Value *> seen; vector<const Value *> w{I.getOperand(0)};
          while (!w.empty()) { auto *v = w.back(); w.pop_back(); if (!seen.insert(v).second) continue;
            if (auto *pi = dyn_cast<PtrToIntOperator>(v)) { if (addAll(PTS[&I], basesOf(pi->getPointerOperand()))) ch = true; }
            else if (auto *u = dyn_cast<Instruction>(v)) { if (!isa<LoadInst>(u) && !isa<CallInst>(u)) for (auto &o : u->operands()) if (!isa<BasicBlock>(o)) w.push_back(o); } }
        }
        else if (auto *c = dyn_cast<CallBase>(&I)) {
          auto *cal = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
          if (auto *mi = dyn_cast<MemIntrinsic>(c)) { mod(mi->getDest());
            if (auto *mt = dyn_cast<MemTransferInst>(c)) storePtr(mi->getDest(), contentOf(basesOf(mt->getSource()))); continue; }
          if (isa<DbgInfoIntrinsic>(c)) continue;
          if (auto *ii = dyn_cast<IntrinsicInst>(c)) {
            StringRef n = ii->getCalledFunction()->getName();
            if (ii->mayWriteToMemory() && !n.starts_with("llvm.lifetime") && !n.starts_with("llvm.assume") && !n.starts_with("llvm.va") && !n.starts_with("llvm.stack"))
              for (auto &a : c->args()) if (ptrLike(a->getType())) mod(a);
            continue;
          }
          if (!cal || cal->isDeclaration()) {
            StringRef n = cal ? cal->getName() : "";
            if (c->isInlineAsm()) { auto *ia = cast<InlineAsm>(c->getCalledOperand());
              auto cons = ia->ParseConstraints(); unsigned ai = 0;
              for (auto &ci : cons) { if (ci.Type == InlineAsm::isClobber) continue; if (ci.Type == InlineAsm::isOutput && !ci.isIndirect) continue;
                if (ai < c->arg_size()) { auto *a = c->getArgOperand(ai); if (ci.Type == InlineAsm::isOutput && ptrLike(a->getType())) mod(a); } ai++; }
              continue; }
            for (unsigned i = 0; i < c->arg_size(); i++) { auto *a = c->getArgOperand(i);
              if (ptrLike(a->getType()) && !readsOnly(n, i) && !extConst(n, i)) mod(a); }
            if (ptrLike(c->getType()) && c->arg_size()) if (addAll(PTS[c], basesOf(c->getArgOperand(0)))) ch = true;
            continue;
          }
          auto &T = SUM[cal];
          for (auto &kv : map<Base, const Instruction *>(T.mod)) {
            auto &b = kv.first;
            Bases tgt;
            if (b.k == Base::Glob || (b.k == Base::Deref && isa<GlobalVariable>(b.v))) tgt.insert(b);
            else if (auto *a = dyn_cast<Argument>(b.v)) { if (a->getArgNo() < c->arg_size()) { tgt = basesOf(c->getArgOperand(a->getArgNo())); if (b.k == Base::Deref) tgt = contentOf(tgt); } }
            for (auto &t : tgt) if (t.k != Base::Alloca) if (S.mod.insert({t, kv.second}).second) ch = true;
          }
          if (ptrLike(c->getType())) for (auto &BB : *cal) if (auto *ri = dyn_cast<ReturnInst>(BB.getTerminator())) {
            for (auto &b : basesOf(ri->getReturnValue())) { Bases t;
              if (b.k == Base::Glob) t.insert(b);
              else if (auto *a = dyn_cast<Argument>(b.v)) { t = basesOf(c->getArgOperand(a->getArgNo())); if (b.k == Base::Deref) t = contentOf(t); }
              if (addAll(PTS[c], t)) ch = true; } }
          // pointers the callee stores into its parameters' objects
          for (auto &A : cal->args()) { auto it = CONT.find(&A); if (it == CONT.end()) continue;
            for (auto &b : Bases(it->second)) { Bases t; if (b.k == Base::Glob) t.insert(b);
              else if (auto *a2 = dyn_cast<Argument>(b.v)) if (a2->getParent() == cal) { t = basesOf(c->getArgOperand(a2->getArgNo())); if (b.k == Base::Deref) t = contentOf(t); }
              storePtr(c->getArgOperand(A.getArgNo()), t); } }
        }
      }
    }
  }
}

// ---------------------------------------------------------------- taint
typedef string Key;           // abstract location of scalar data
static string structName(Type *t) { if (auto *s = dyn_cast<StructType>(t)) { string n = s->hasName() ? s->getName().str() : "";
    // linked modules rename duplicates struct.X.12
    size_t p = n.rfind('.'); if (p != string::npos && p > 6 && n.find_first_not_of("0123456789", p + 1) == string::npos) n = n.substr(0, p); return n; } return ""; }
// innermost struct member reached by the address, "" if none
static Key memberOf(const Value *p) {
  while (true) {
    if (auto *g = dyn_cast<GEPOperator>(p)) {
      Type *t = g->getSourceElementType(); Key k; unsigned n = 0;
      for (auto it = g->idx_begin(); it != g->idx_end(); ++it, ++n) {
        if (n == 0) continue;
        if (auto *s = dyn_cast<StructType>(t)) { auto *ci = dyn_cast<ConstantInt>(*it); if (!ci) return ""; unsigned f = ci->getZExtValue();
          if (!s->isLiteral() && s->getName().starts_with("union.")) { k = ""; } else k = structName(s) + "#" + std::to_string(f); t = s->getElementType(f); }
        else if (auto *a = dyn_cast<ArrayType>(t)) t = a->getElementType();
        else break;
      }
      if (!k.empty()) return k;
      p = g->getPointerOperand(); continue;
    }
    return "";
  }
}
// levels: 0 public, 1 delimited (secret bits below a public delimiter bit), 2 secret
static map<const Value *, int> TV;          // tainted SSA values
static map<Key, int> TK;                    // tainted struct members
static map<const Value *, int> TO;          // tainted objects (allocas, args, globals)
template<class MM, class KK> static bool raise(MM &m, const KK &k, int l) { if (!l) return false; int &x = m[k]; if (x >= l) return false; x = l; return true; }
static bool rootArg(const Argument *a) { return !a->getParent()->hasLocalLinkage(); }

static const DIType *strip(const DIType *t) {
  while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
    if (d->getTag() == dwarf::DW_TAG_pointer_type) return d;
    t = d->getBaseType();
  }
  return t;
}
static const DIType *argType(const Argument *a) {
  auto *sp = a->getParent()->getSubprogram(); if (!sp) return nullptr;
  auto tys = sp->getType()->getTypeArray(); unsigned i = a->getArgNo() + 1;
  if (i >= tys.size()) return nullptr; return tys[i];
}
static bool isConstPtr(const Argument *a) {
  const DIType *t = argType(a);
  while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
    if (d->getTag() == dwarf::DW_TAG_pointer_type) {
      const DIType *e = d->getBaseType();
      while (auto *x = dyn_cast_or_null<DIDerivedType>(e)) { if (x->getTag() == dwarf::DW_TAG_const_type) return true; if (x->getTag() == dwarf::DW_TAG_pointer_type) return false; e = x->getBaseType(); }
      return false;
    }
    t = d->getBaseType();
  }
  return false;
}
// is the raw content behind a root pointer parameter secret? struct pointees are tracked per member instead.
static bool rootSecret(const Argument *a) {
  const DIType *t = strip(argType(a));
  auto *d = dyn_cast_or_null<DIDerivedType>(t);
  if (!d) return true;
  const DIType *e = strip(d->getBaseType());
  if (!e) return true;                              // void *
  if (auto *c = dyn_cast<DICompositeType>(e)) return c->getTag() != dwarf::DW_TAG_structure_type;
  if (auto *b = dyn_cast<DIBasicType>(e)) { (void)b; return true; }
  return true;
}
// members that hold secret material: arrays of bytes/lanes and nested states
static bool secretMember(const Key &k, Module &M) {
  auto h = k.find('#'); if (h == string::npos) return false;
  static map<string, StructType *> byName;
  if (byName.empty()) for (auto *s : M.getIdentifiedStructTypes()) byName[structName(s)] = s;
  auto it = byName.find(k.substr(0, h)); if (it == byName.end()) return false;
  Type *t = it->second->getElementType(std::stoul(k.substr(h + 1)));
  return isa<ArrayType>(t) || isa<VectorType>(t);   // state lanes, queues, keys
}
static int loadTainted(const Value *p, Module &M) {
  Key k = memberOf(p);
  if (!k.empty()) { if (secretMember(k, M)) return 2; auto it = TK.find(k); return it == TK.end() ? 0 : it->second; }
  int r = 0;
  for (auto &b : basesOf(p)) {
    auto it = TO.find(b.v); int t = it == TO.end() ? 0 : it->second;
    if (b.k == Base::Alloca || b.k == Base::Glob) r = std::max(r, t);
    else if (b.k == Base::Param) { auto *a = cast<Argument>(b.v); r = std::max(r, t); if (rootArg(a) && rootSecret(a)) r = 2; }
    else if (b.k == Base::Deref) { if (!isa<GlobalVariable>(b.v)) r = 2; }
  }
  return r;
}
static bool taintMem(const Value *p, int lv) {      // returns changed
  Key k = memberOf(p); bool ch = false;
  if (!k.empty()) return raise(TK, k, lv);
  for (auto &b : basesOf(p)) { if (b.k == Base::Glob && cast<GlobalVariable>(b.v)->isConstant()) continue; if (b.v && b.k != Base::Deref && raise(TO, b.v, lv)) ch = true; }
  return ch;
}
static int T(const Value *v) { auto it = TV.find(v); return it == TV.end() ? 0 : it->second; }
static bool isDelimiter(const Value *v) {   // public shifted delimiter: const/param << n, possibly cast
  while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0);
  if (T(v) > 1) return false;
  if (auto *o = dyn_cast<BinaryOperator>(v)) return o->getOpcode() == Instruction::Shl;
  return false;
}
static int opTaint(const Instruction &I) {
  int t = 0;
  if (auto *b = dyn_cast<BinaryOperator>(&I)) {
    int x = T(b->getOperand(0)), y = T(b->getOperand(1));
    if ((b->getOpcode() == Instruction::Or || b->getOpcode() == Instruction::Add || b->getOpcode() == Instruction::Xor) && ((x && isDelimiter(b->getOperand(1))) || (y && isDelimiter(b->getOperand(0))))) return 1;
    return std::max(x, y);
  }
  for (auto &o : I.operands()) if (!isa<BasicBlock>(o)) t = std::max(t, T(o));
  return t;
}

static void taintPass(Module &M) {
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto &F : M) { if (F.isDeclaration()) continue;
      for (auto &I : instructions(F)) {
        auto set1 = [&](const Value *v, int l) { if (raise(TV, v, l)) ch = true; };
        if (auto *l = dyn_cast<LoadInst>(&I)) { if (l->getType()->isPointerTy()) continue; int t = std::max(T(l->getPointerOperand()), loadTainted(l->getPointerOperand(), M)); set1(l, t); }
        else if (auto *s = dyn_cast<StoreInst>(&I)) { if (int t = T(s->getValueOperand())) if (taintMem(s->getPointerOperand(), t)) ch = true; }
        else if (auto *c = dyn_cast<CallBase>(&I)) {
          if (isa<DbgInfoIntrinsic>(c)) continue;
          if (auto *mt = dyn_cast<MemTransferInst>(c)) { if (int t = loadTainted(mt->getSource(), M)) if (taintMem(mt->getDest(), t)) ch = true; continue; }
          if (auto *ms = dyn_cast<MemSetInst>(c)) { if (int t = T(ms->getValue())) if (taintMem(ms->getDest(), t)) ch = true; continue; }
          auto *cal = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
          if (cal && !cal->isDeclaration()) {
            for (auto &A : cal->args()) { if (A.getArgNo() >= c->arg_size()) break; auto *x = c->getArgOperand(A.getArgNo());
              set1(&A, T(x));
              if (ptrLike(A.getType())) {
                if (raise(TO, (const Value *)&A, loadTainted(x, M))) ch = true;
                // callee writes secrets through the parameter
                auto it = TO.find(&A); int t = it == TO.end() ? 0 : it->second;
                bool w = t && SUM[cal].mod.count({Base::Param, &A});
                if (w && memberOf(x).empty()) { for (auto &b : basesOf(x)) if ((b.k == Base::Alloca || b.k == Base::Param) && raise(TO, b.v, t)) ch = true; }
                else if (w) { if (raise(TK, memberOf(x), t)) ch = true; } } }
            for (auto &BB : *cal) if (auto *ri = dyn_cast<ReturnInst>(BB.getTerminator())) if (ri->getReturnValue()) set1(c, T(ri->getReturnValue()));
          } else {
            int t = 0; for (auto &x : c->args()) { t = std::max(t, T(x)); if (ptrLike(x->getType())) t = std::max(t, loadTainted(x, M)); }
            StringRef n = cal ? cal->getName() : "";
            if (n == "memcmp" || n == "bcmp") { set1(c, t); continue; }
            if (!c->getType()->isVoidTy() && !ptrLike(c->getType())) { int st = 0; for (auto &x : c->args()) { st = std::max(st, T(x)); if (isa<IntrinsicInst>(c) && ptrLike(x->getType())) st = std::max(st, loadTainted(x, M)); }
              if (c->isInlineAsm()) st = t;
              set1(c, st); }
            if (t) for (unsigned i = 0; i < c->arg_size(); i++) { auto *x = c->getArgOperand(i); if (ptrLike(x->getType()) && !readsOnly(n, i) && !extConst(n, i)) if (taintMem(x, t)) ch = true; }
          }
        } else set1(&I, opTaint(I));
      }
    }
  }
}

static string esc(string s) { for (auto &c : s) if (c == '\t' || c == '\n') c = ' '; return s; }
static string instStr(const Instruction *I) { string s; raw_string_ostream o(s); I->print(o); o.flush(); size_t p = s.find(", !dbg"); if (p != string::npos) s = s.substr(0, p); return esc(s); }

int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic E;
  std::unique_ptr<Module> M;
  for (int i = 1; i < argc; i++) {
    if (string(argv[i]) == "-P") { auto b = MemoryBuffer::getFile(argv[++i]); if (!b) return 2; SmallVector<StringRef, 64> ls; (*b)->getBuffer().split(ls, '\n'); for (auto l : ls) { SmallVector<StringRef, 8> f; l.split(f, ' '); if (f.size() < 2) continue; vector<bool> v; for (auto ch : f[1]) v.push_back(ch == 'c'); PROTO[f[0].str()] = v; } continue; }
    auto m = parseIRFile(argv[i], E, C);
    if (!m) { E.print("xkflow", errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 2; }
  }
  for (auto &F : *M) if (!F.isDeclaration()) {
    DominatorTree DT(F); vector<AllocaInst *> as;
    do { as.clear(); for (auto &I : F.getEntryBlock()) if (auto *a = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(a)) as.push_back(a);
      if (!as.empty()) PromoteMemToReg(as, DT); } while (!as.empty());
  }
  modPass(*M);
  taintPass(*M);
  unsigned nfun = 0, ninst = 0, nload = 0, nstore = 0, nbr = 0, nmem = 0;
  // records
  for (auto &F : *M) {
    if (F.isDeclaration()) { if (!F.isIntrinsic() && !F.use_empty()) { string callers; set<string> cs; for (auto *u : F.users()) if (auto *i = dyn_cast<Instruction>(u)) cs.insert(i->getFunction()->getName().str() + "@" + loc(i)); for (auto &c : cs) callers += c + " "; outs() << "EXT\t" << F.getName() << "\t" << callers << "\n"; } continue; }
    nfun++;
    outs() << "FUN\t" << F.getName() << "\t" << (F.hasLocalLinkage() ? "static" : "extern") << "\t" << (F.getSubprogram() ? F.getSubprogram()->getFilename() : "?") << "\t" << F.arg_size() << "\n";
    for (auto &kv : SUM[&F].mod) {
      auto &b = kv.first;
      if (b.k == Base::Glob) outs() << "MODG\t" << F.getName() << "\t" << b.v->getName() << "\t" << loc(kv.second) << "\t" << kv.second->getFunction()->getName() << "\n";
      else if (auto *a = dyn_cast<Argument>(b.v)) outs() << (b.k == Base::Deref ? "MODD\t" : "MODP\t") << F.getName() << "\t" << a->getArgNo() << "\t" << a->getName() << "\t" << (isConstPtr(a) ? "const" : "mutable") << "\t" << loc(kv.second) << "\t" << kv.second->getFunction()->getName() << "\n";
    }
    for (auto &A : F.args()) if (ptrLike(A.getType())) outs() << "PTRARG\t" << F.getName() << "\t" << A.getArgNo() << "\t" << A.getName() << "\t" << (isConstPtr(&A) ? "const" : "mutable") << "\n";
    for (auto &A : F.args()) { auto it = CONT.find(&A); if (it != CONT.end()) for (auto &b : it->second) if (b.k == Base::Param && cast<Argument>(b.v)->getParent() == &F) outs() << "KEEP\t" << F.getName() << "\t" << A.getArgNo() << "\t" << cast<Argument>(b.v)->getArgNo() << "\t" << (F.getSubprogram() ? F.getSubprogram()->getFilename() : "?") << "\n"; }
    set<string> callees; for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *cal = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) if (!cal->isIntrinsic()) callees.insert(cal->getName().str());
    for (auto &c : callees) outs() << "CALL\t" << F.getName() << "\t" << c << "\n";
    DominatorTree DT(F); LoopInfo LI(DT);
    for (auto &I : instructions(F)) {
      ninst++;
      auto sink = [&](const char *kind) { auto *l = LI.getLoopFor(I.getParent());
        outs() << "SINK\t" << kind << "\t" << F.getName() << "\t" << loc(&I) << "\t" << (l ? "loop" : "once") << "\t" << instStr(&I) << "\n"; };
      auto addr = [&](const Value *p) { nmem++; if (T(p)) sink("address"); };
      if (auto *b = dyn_cast<BranchInst>(&I)) { if (b->isConditional()) { nbr++; if (T(b->getCondition()) > 1) sink("branch"); } }
      else if (auto *s = dyn_cast<SwitchInst>(&I)) { nbr++; if (T(s->getCondition()) > 1) sink("switch"); }
      else if (auto *l = dyn_cast<LoadInst>(&I)) { nload++; addr(l->getPointerOperand()); }
      else if (auto *s = dyn_cast<StoreInst>(&I)) { nstore++; addr(s->getPointerOperand()); }
      else if (I.getOpcode() == Instruction::UDiv || I.getOpcode() == Instruction::SDiv || I.getOpcode() == Instruction::URem || I.getOpcode() == Instruction::SRem) {
        bool cd = isa<Constant>(I.getOperand(1)); if (T(I.getOperand(1)) || (T(I.getOperand(0)) && !cd)) sink("division"); }
      else if (auto *c = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(c)) continue;
        if (auto *mi = dyn_cast<MemIntrinsic>(c)) { if (T(mi->getLength())) sink("length"); addr(mi->getDest()); continue; }
        auto *cal = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()); StringRef n = cal ? cal->getName() : "";
        if (n == "memcmp" || n == "bcmp" || n == "strcmp") { if (T(c)) sink("memcmp"); }
        if (n.contains("gather") || n.contains("scatter")) { nmem++; vector<unsigned> ix; if (n.starts_with("llvm.x86")) ix = n.contains("scatter") ? vector<unsigned>{0, 2} : vector<unsigned>{1, 2}; else ix = n.contains("scatter") ? vector<unsigned>{1} : vector<unsigned>{0};
          for (unsigned q : ix) if (T(c->getArgOperand(q))) { sink("address"); break; } }
        if (n.starts_with("llvm.masked.")) for (auto &x : c->args()) if (T(x) && ptrLike(x->getType())) sink("address");
      }
    }
  }
  for (auto &G : M->globals()) { auto it = CONT.find(&G); if (it != CONT.end()) for (auto &b : it->second) if (b.k == Base::Param) outs() << "KEEPG\t" << cast<Argument>(b.v)->getParent()->getName() << "\t" << G.getName() << "\t" << cast<Argument>(b.v)->getArgNo() << "\n"; }
  for (auto &G : M->globals()) if (!G.isDeclaration()) outs() << "GLOB\t" << G.getName() << "\t" << (G.isConstant() ? "const" : "mutable") << "\t" << G.getValueType()->isArrayTy() << "\n";
  outs() << "STAT\tfunctions=" << nfun << "\tinstructions=" << ninst << "\tbranches=" << nbr << "\tloads=" << nload << "\tstores=" << nstore << "\taddresses=" << nmem << "\ttaintedValues=" << TV.size() << "\n";
  return 0;
}
