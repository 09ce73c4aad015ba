#include "common.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Dominators.h"
using namespace llvm;

std::unique_ptr<Module> loadModule(const std::string &path, LLVMContext &ctx) {
  SMDiagnostic err;
  auto m = parseIRFile(path, err, ctx);
  if (!m) { err.print("hsa", errs()); exit(2); }
  return m;
}

static void inlineLoop(Function *F, const std::function<bool(Function *)> &want) {
  bool ch = true; int rounds = 0;
  while (ch) {
    ch = false;
    if (++rounds > 64) { errs() << "inlining does not terminate (recursion?) in " << F->getName() << "\n"; exit(2); }
    std::vector<CallBase *> cs;
    for (auto &B : *F) for (auto &I : B) if (auto *c = dyn_cast<CallBase>(&I)) {
      Function *g = c->getCalledFunction();
      if (!g) {
        // call through a cast of a known function (e.g. K&R style prototypes)
        if (auto *k = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) g = k;
      }
      if (g && !g->isDeclaration() && g != F && want(g)) cs.push_back(c);
    }
    for (auto *c : cs) {
      InlineFunctionInfo ifi;
      auto r = InlineFunction(*c, ifi);
      if (r.isSuccess()) ch = true;
    }
  }
}
void inlineAll(Function *F, const std::set<std::string> &keep) {
  inlineLoop(F, [&](Function *g) { return !keep.count(g->getName().str()); });
}
void inlineAllIf(Function *F, bool (*pred)(Function *)) { inlineLoop(F, pred); }

// block copies of at most 8 bytes become one integer load and store, so that they can be promoted to registers
void scalariseCopies(Function *F) {
  std::vector<MemCpyInst *> v;
  for (auto &B : *F) for (auto &I : B) if (auto *m = dyn_cast<MemCpyInst>(&I)) if (auto *k = dyn_cast<ConstantInt>(m->getLength())) if (k->getZExtValue() >= 1 && k->getZExtValue() <= 8 && !m->isVolatile()) v.push_back(m);
  for (auto *m : v) {
    IRBuilder<> b(m); Type *t = b.getIntNTy(8 * (unsigned)cast<ConstantInt>(m->getLength())->getZExtValue());
    auto *l = b.CreateAlignedLoad(t, m->getRawSource(), MaybeAlign(1)); b.CreateAlignedStore(l, m->getRawDest(), MaybeAlign(1));
    m->eraseFromParent();
  }
}

void splitStructAllocas(Function *F) {
  const DataLayout &DL = F->getParent()->getDataLayout();
  std::vector<AllocaInst *> as;
  for (auto &B : *F) for (auto &I : B) if (auto *a = dyn_cast<AllocaInst>(&I)) if (isa<StructType>(a->getAllocatedType()) && !a->isArrayAllocation()) as.push_back(a);
  for (auto *A : as) {
    auto *ST = cast<StructType>(A->getAllocatedType());
    const StructLayout *SL = DL.getStructLayout(ST);
    unsigned n = ST->getNumElements();
    if (n == 0) continue;
    // collect all derived pointers with known constant offset
    bool ok = true; User *why = nullptr;
    std::vector<std::pair<Value *, uint64_t>> wl{{A, 0}};
    std::vector<Instruction *> addrInsts;
    auto fieldOf = [&](uint64_t off) { return SL->getElementContainingOffset(off); };
    struct Leaf { Instruction *I; uint64_t off; int kind; }; // kind 0 load/store, 1 memset, 2 lifetime/dbg, 3 dynamic gep root
    std::vector<Leaf> leaves;
    while (!wl.empty() && ok) {
      auto [p, off] = wl.back(); wl.pop_back();
      for (User *u : p->users()) {
        auto *I = dyn_cast<Instruction>(u); if (!I) { ok = false; why = u; break; }
        if (auto *g = dyn_cast<GetElementPtrInst>(I)) {
          APInt co(64, 0);
          if (g->accumulateConstantOffset(DL, co)) { uint64_t o = off + co.getZExtValue(); if (o >= SL->getSizeInBytes()) { ok = false; why = u; break; } addrInsts.push_back(g); wl.push_back({g, o}); }
          else {
            // dynamic: must start at an array field (pointer already is the field) or index struct then array
            if (g->getSourceElementType() == ST && g->getNumIndices() >= 2 && off == 0 && isa<ConstantInt>(g->getOperand(1)) && cast<ConstantInt>(g->getOperand(1))->isZero() && isa<ConstantInt>(g->getOperand(2))) {
              unsigned fi = cast<ConstantInt>(g->getOperand(2))->getZExtValue();
              leaves.push_back({g, SL->getElementOffset(fi), 4});
            } else leaves.push_back({g, off, 3});
          }
        } else if (isa<LoadInst>(I) || (isa<StoreInst>(I) && cast<StoreInst>(I)->getPointerOperand() == p && cast<StoreInst>(I)->getValueOperand() != p)) {
          Type *ty = isa<LoadInst>(I) ? I->getType() : cast<StoreInst>(I)->getValueOperand()->getType();
          uint64_t sz = DL.getTypeStoreSize(ty); unsigned f = fieldOf(off);
          if (off + sz > SL->getElementOffset(f) + DL.getTypeAllocSize(ST->getElementType(f))) { ok = false; why = u; break; }
          leaves.push_back({I, off, 0});
        } else if (auto *ms = dyn_cast<MemSetInst>(I)) {
          if (!isa<ConstantInt>(ms->getLength()) || off + cast<ConstantInt>(ms->getLength())->getZExtValue() > SL->getSizeInBytes()) { ok = false; why = u; break; }
          leaves.push_back({I, off, 1});
        } else if (auto *mt = dyn_cast<MemTransferInst>(I)) {
          // block copy of constant size that stays inside one field
          auto *len = dyn_cast<ConstantInt>(mt->getLength()); unsigned f = fieldOf(off);
          if (!len || off + len->getZExtValue() > SL->getElementOffset(f) + DL.getTypeAllocSize(ST->getElementType(f)) || mt->getRawDest() == mt->getRawSource()) { ok = false; why = u; break; }
          leaves.push_back({I, off, mt->getRawDest() == p ? 5 : 6});
        } else if (auto *ii = dyn_cast<IntrinsicInst>(I)) {
          if (ii->isLifetimeStartOrEnd()) leaves.push_back({I, off, 2}); else { ok = false; why = u; break; }
        } else { ok = false; why = u; break; }
      }
    }
    if (!ok) { if (getenv("HSA_DEBUG")) errs() << "alloca not split: " << *A << (why ? " because of " : ""), why ? errs() << *why << "\n" : errs() << "\n"; continue; }
    IRBuilder<> eb(A);
    std::vector<AllocaInst *> fa;
    for (unsigned i = 0; i < n; i++) fa.push_back(eb.CreateAlloca(ST->getElementType(i), nullptr, A->getName() + ".f" + Twine(i)));
    std::vector<Instruction *> dead;
    for (auto &l : leaves) {
      IRBuilder<> b(l.I); unsigned f = fieldOf(l.off); uint64_t rel = l.off - SL->getElementOffset(f);
      auto ptr = [&]() -> Value * { return rel == 0 ? (Value *)fa[f] : b.CreateConstInBoundsGEP1_64(b.getInt8Ty(), fa[f], rel); };
      if (l.kind == 0) { if (auto *ld = dyn_cast<LoadInst>(l.I)) ld->setOperand(0, ptr()); else l.I->setOperand(1, ptr()); }
      else if (l.kind == 1) { auto *ms = cast<MemSetInst>(l.I); uint64_t lo = l.off, hi = l.off + cast<ConstantInt>(ms->getLength())->getZExtValue();
        for (unsigned i = 0; i < n; i++) {
          uint64_t fo = SL->getElementOffset(i), fe = fo + DL.getTypeAllocSize(ST->getElementType(i)), s = std::max(lo, fo), e = std::min(hi, fe);
          if (s >= e) continue;
          Value *fp = s == fo ? (Value *)fa[i] : b.CreateConstInBoundsGEP1_64(b.getInt8Ty(), fa[i], s - fo);
          b.CreateMemSet(fp, ms->getValue(), e - s, MaybeAlign());
        }
        dead.push_back(ms); }
      else if (l.kind == 2) dead.push_back(l.I);
      else if (l.kind == 3) l.I->setOperand(0, ptr());
      else if (l.kind == 5) l.I->setOperand(0, ptr());
      else if (l.kind == 6) l.I->setOperand(1, ptr());
      else { auto *g = cast<GetElementPtrInst>(l.I); std::vector<Value *> idx; idx.push_back(g->getOperand(1)); for (unsigned k = 3; k < g->getNumOperands(); k++) idx.push_back(g->getOperand(k)); Value *ng = b.CreateGEP(ST->getElementType(f), fa[f], idx); g->replaceAllUsesWith(ng); dead.push_back(g); }
    }
    for (auto *d : dead) d->eraseFromParent();
    for (auto it = addrInsts.rbegin(); it != addrInsts.rend(); ++it) if ((*it)->use_empty()) (*it)->eraseFromParent();
    if (A->use_empty()) A->eraseFromParent();
  }
}

// repeated (in)equality tests of the same two values become one test, right after the later of the two definitions
void uniteComparisons(Function *F) {

  DominatorTree DT(*F);
  for (auto &B : *F) for (auto &I : B) if (auto *c = dyn_cast<ICmpInst>(&I)) if (c->isEquality()) {
    auto *x = dyn_cast<ZExtInst>(c->getOperand(0)), *y = dyn_cast<ZExtInst>(c->getOperand(1));
    if (x && y && x->getSrcTy() == y->getSrcTy()) { c->setOperand(0, x->getOperand(0)); c->setOperand(1, y->getOperand(0)); }
  }
  auto vecIn = [](Instruction *I) { if (I->getType()->isVectorTy()) return true; for (auto &o : I->operands()) if (o->getType()->isVectorTy()) return true; return false; };
  auto fromVec = [&](Value *v) { auto *i = dyn_cast<Instruction>(v); return i && vecIn(i); };
  // integer re-assembly (mask/shift/or of pieces) feeding a test of two non-constant values
  auto glue = [](Value *v) { auto *i = dyn_cast<Instruction>(v); if (!i || !i->getType()->isIntegerTy()) return false; switch (i->getOpcode()) { case Instruction::And: case Instruction::Or: case Instruction::Shl: case Instruction::LShr: case Instruction::ZExt: case Instruction::Trunc: return true; } return false; };
  std::set<Instruction *> feeds;
  auto refreshFeeds = [&] {
    feeds.clear(); std::vector<Value *> wl;
    for (auto &B : *F) for (auto &I : B) if (auto *c = dyn_cast<ICmpInst>(&I)) if (c->isEquality() && !isa<Constant>(c->getOperand(0)) && !isa<Constant>(c->getOperand(1))) { wl.push_back(c->getOperand(0)); wl.push_back(c->getOperand(1)); }
    while (!wl.empty()) { Value *v = wl.back(); wl.pop_back(); if (!glue(v) || !feeds.insert(cast<Instruction>(v)).second) continue; for (auto &o : cast<Instruction>(v)->operands()) wl.push_back(o); }
  };
  auto eligible = [&](Instruction *I) {
    if (feeds.count(I)) return true;
    if (auto *c = dyn_cast<ICmpInst>(I)) if (!c->getOperand(0)->getType()->isVectorTy()) {
      if (!c->isEquality() || !c->getOperand(0)->getType()->isIntegerTy()) return false;
      bool k = isa<Constant>(c->getOperand(0)) || isa<Constant>(c->getOperand(1));
      return !k || fromVec(c->getOperand(0));
    }
    if (!vecIn(I) || I->mayReadOrWriteMemory() || I->mayHaveSideEffects() || isa<PHINode>(I) || I->getType()->isVoidTy()) return false;
    if (auto *ii = dyn_cast<IntrinsicInst>(I)) return ii->doesNotAccessMemory();
    return isa<BinaryOperator>(I) ? (I->getOpcode() != Instruction::UDiv && I->getOpcode() != Instruction::SDiv && I->getOpcode() != Instruction::URem && I->getOpcode() != Instruction::SRem) : (isa<CastInst>(I) || isa<CmpInst>(I) || isa<ShuffleVectorInst>(I) || isa<InsertElementInst>(I) || isa<ExtractElementInst>(I));
  };
  for (bool again = true; again;) {
    again = false; refreshFeeds();
    typedef std::pair<std::vector<const void *>, std::vector<int>> Key;
    std::map<Key, std::vector<Instruction *>> by; std::vector<Key> order;
    for (auto &B : *F) for (auto &I : B) if (eligible(&I)) {
      Key k; for (auto &o : I.operands()) k.first.push_back(o.get());
      k.second = {(int)I.getOpcode(), 0}; k.first.push_back(I.getType());
      if (auto *c = dyn_cast<ICmpInst>(&I)) { if (c->isEquality()) { if (k.first[1] < k.first[0]) std::swap(k.first[0], k.first[1]); } else k.second[1] = c->getPredicate(); }
      else if (auto *c2 = dyn_cast<CmpInst>(&I)) k.second[1] = c2->getPredicate();
      if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) for (int m : sv->getShuffleMask()) k.second.push_back(m);
      auto &v = by[k]; if (v.empty()) order.push_back(k); v.push_back(&I);
    }
    for (auto &k : order) {
      auto &v = by[k]; if (v.size() < 2) continue;
      Instruction *later = nullptr;
      for (auto &o : v[0]->operands()) if (auto *oi = dyn_cast<Instruction>(o)) if (!later || DT.dominates(later, oi)) later = oi;
      // worthwhile only if one of the tests can follow another on a path that does not redefine the operands
      BasicBlock *defB = later ? later->getParent() : &F->getEntryBlock();
      bool follows = false;
      for (auto *a : v) {
        if (follows) break;
        std::set<BasicBlock *> seen; std::vector<BasicBlock *> wl;
        for (auto *o : v) if (o != a && o->getParent() == a->getParent()) follows = true;
        for (auto *sc : successors(a->getParent())) wl.push_back(sc);
        while (!wl.empty() && !follows) { auto *b = wl.back(); wl.pop_back(); if (b == defB || !seen.insert(b).second) continue; for (auto *o : v) if (o->getParent() == b) follows = true; for (auto *sc : successors(b)) wl.push_back(sc); }
      }
      if (!follows && !feeds.count(v[0])) continue;
      BasicBlock::iterator at;
      if (!later) at = F->getEntryBlock().getFirstInsertionPt(); else if (isa<PHINode>(later)) at = later->getParent()->getFirstInsertionPt(); else if (later->isTerminator()) continue; else at = std::next(later->getIterator());
      Instruction *one = v[0]->clone(); one->insertBefore(&*at); if (isa<ICmpInst>(one) && cast<ICmpInst>(one)->isEquality()) cast<ICmpInst>(one)->setPredicate(CmpInst::ICMP_EQ);
      Value *ne = nullptr;
      for (auto *c : v) {
        if (auto *ic = dyn_cast<ICmpInst>(c)) if (ic->getPredicate() == CmpInst::ICMP_NE) { if (!ne) { IRBuilder<> b(&*at); ne = b.CreateNot(one); } c->replaceAllUsesWith(ne); continue; }
        c->replaceAllUsesWith(one);
      }
      for (auto *c : v) c->eraseFromParent();
      again = true; break; // operand keys changed
    }
  }
}

void runPasses(Function *F, const std::string &pipeline) {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FunctionPassManager FPM;
  if (auto e = PB.parsePassPipeline(FPM, pipeline)) { errs() << toString(std::move(e)) << "\n"; exit(2); }
  FPM.run(*F, FAM);
}

std::string locOf(const Instruction *I) {
  const DebugLoc &dl = I->getDebugLoc();
  std::string s;
  if (dl) {
    const DILocation *d = dl.get();
    auto *sp = d->getScope()->getSubprogram();
    std::string file = d->getFilename().str();
    size_t k = file.rfind('/'); if (k != std::string::npos) file = file.substr(k + 1);
    s = file + ":" + std::to_string(d->getLine()) + " in " + (sp ? sp->getName().str() : "?");
    // intrinsic header wrappers: also give the repository-level call site
    const DILocation *o = d;
    while (o && (o->getFilename().ends_with("intrin.h") || o->getFilename().contains("lib/clang") || o->getFilename().ends_with("cpuid.h"))) o = o->getInlinedAt();
    if (o && o != d) {
      std::string f2 = o->getFilename().str(); k = f2.rfind('/'); if (k != std::string::npos) f2 = f2.substr(k + 1);
      auto *sp2 = o->getScope()->getSubprogram();
      s = f2 + ":" + std::to_string(o->getLine()) + " in " + (sp2 ? sp2->getName().str() : "?");
    }
  } else s = std::string("<no line> in ") + I->getFunction()->getName().str();
  return s;
}

std::string jsonEsc(const std::string &s) {
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r;
}

#include <fstream>
void report(const std::string &rule, const std::string &instance, const std::string &loc, bool ok, const std::string &detail) {
  printf("{\"rule\":\"%s\",\"instance\":\"%s\",\"loc\":\"%s\",\"ok\":%s,\"detail\":\"%s\"}\n", jsonEsc(rule).c_str(), jsonEsc(instance).c_str(), jsonEsc(loc).c_str(), ok ? "true" : "false", jsonEsc(detail).c_str());
}
void note(const std::string &key, const std::string &val) { printf("{\"note\":\"%s\",\"value\":\"%s\"}\n", jsonEsc(key).c_str(), jsonEsc(val).c_str()); }
void broken(const std::string &why) { printf("{\"broken\":\"%s\"}\n", jsonEsc(why).c_str()); fflush(stdout); exit(2); }
std::vector<std::string> readLines(const std::string &path) { std::ifstream f(path); std::vector<std::string> r; std::string l; while (std::getline(f, l)) if (!l.empty()) r.push_back(l); return r; }
