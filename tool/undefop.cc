// Operations whose result is undefined for some operands: position of the first set bit of 0, shift by the width or more, division by 0.
// Each must be excluded by what is known about the operands on every path: dominating comparisons, value ranges, known bits.
#include "common.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LazyValueInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/ConstantRange.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/PatternMatch.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Cloning.h"
using namespace llvm;
using namespace llvm::PatternMatch;

namespace {
struct Prover {
  Function *F; DominatorTree DT; AssumptionCache AC; LazyValueInfo *LVI; const DataLayout &DL;
  struct Edge { const Value *c; bool t; BasicBlock *from, *to; };
  std::vector<Edge> edges;
  Prover(Function *f, LazyValueInfo *l) : F(f), DT(*f), AC(*f), LVI(l), DL(f->getParent()->getDataLayout()) {
    for (auto &B : *F) if (auto *br = dyn_cast<BranchInst>(B.getTerminator())) if (br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1)) for (unsigned k = 0; k < 2; k++) edges.push_back({br->getCondition(), k == 0, &B, br->getSuccessor(k)});
  }
  static const Value *strip(const Value *v) { while (true) { if (auto *z = dyn_cast<ZExtInst>(v)) v = z->getOperand(0); else if (auto *f = dyn_cast<FreezeInst>(v)) v = f->getOperand(0); else return v; } }
  // every comparison that holds at I
  template <class Fn> bool anyFact(const Instruction *I, BasicBlock *edgeFrom, BasicBlock *edgeTo, Fn fn) {
    auto use = [&](const Value *c, bool t) { return decompose(c, t, fn, 0); };
    for (auto &e : edges) {
      bool holds = (e.from == edgeFrom && e.to == edgeTo) || DT.dominates(BasicBlockEdge(e.from, e.to), I->getParent());
      if (holds && use(e.c, e.t)) return true;
    }
    return false;
  }
  template <class Fn> bool decompose(const Value *c, bool t, Fn &fn, unsigned d) {
    if (d > 6) return false;
    const Value *a, *b;
    if (match(c, m_Not(m_Value(a)))) return decompose(a, !t, fn, d + 1);
    if (t && match(c, m_LogicalAnd(m_Value(a), m_Value(b)))) return decompose(a, t, fn, d + 1) || decompose(b, t, fn, d + 1);
    if (!t && match(c, m_LogicalOr(m_Value(a), m_Value(b)))) return decompose(a, t, fn, d + 1) || decompose(b, t, fn, d + 1);
    if (auto *f = dyn_cast<FreezeInst>(c)) return decompose(f->getOperand(0), t, fn, d + 1);
    if (auto *z = dyn_cast<TruncInst>(c)) if (isa<ZExtInst>(z->getOperand(0))) return decompose(cast<ZExtInst>(z->getOperand(0))->getOperand(0), t, fn, d + 1);
    if (auto *ic = dyn_cast<ICmpInst>(c)) {
      auto p = t ? ic->getPredicate() : ic->getInversePredicate(); const Value *x = ic->getOperand(0), *y = ic->getOperand(1);
      // (zext i1) != 0
      if (auto *k = dyn_cast<ConstantInt>(y)) if (k->isZero() && ic->isEquality()) if (auto *z = dyn_cast<ZExtInst>(x)) if (z->getOperand(0)->getType()->isIntegerTy(1)) return decompose(z->getOperand(0), p == ICmpInst::ICMP_NE, fn, d + 1);
      return fn(p, x, y) || fn(ICmpInst::getSwappedPredicate(p), y, x);
    }
    return false;
  }
  // number of low bits the value fits into
  unsigned bits(const Value *v) { std::map<const Value *, unsigned> m; return bits(v, m); }
  unsigned bits(const Value *v, std::map<const Value *, unsigned> &m) {
    unsigned w = v->getType()->getIntegerBitWidth();
    auto it = m.find(v); if (it != m.end()) return it->second;
    auto done = [&](unsigned n) { return m[v] = std::min(n, w); };
    if (auto *c = dyn_cast<CallBase>(v)) if (auto *f = c->getCalledFunction()) { StringRef n = f->getName(); if (n == "llvm.x86.sse2.pmovmskb.128") return done(16); if (n == "llvm.x86.sse2.movmsk.pd") return done(2); if (n == "llvm.x86.sse.movmsk.ps" || n == "llvm.x86.avx.movmsk.pd.256") return done(4); if (n == "llvm.x86.avx.movmsk.ps.256") return done(8); }
    const Value *a, *b; const APInt *k;
    if (auto *z = dyn_cast<ZExtInst>(v)) return done(bits(z->getOperand(0), m));
    if (auto *z = dyn_cast<TruncInst>(v)) return done(bits(z->getOperand(0), m));
    if (auto *z = dyn_cast<FreezeInst>(v)) return done(bits(z->getOperand(0), m));
    if (match(v, m_And(m_Value(), m_APInt(k))) && k->getActiveBits() < w) return done(k->getActiveBits());
    if (match(v, m_And(m_Value(a), m_Value(b)))) { unsigned x = bits(a, m), y = bits(b, m); return done(std::min(x, y)); }
    if (match(v, m_Or(m_Value(a), m_Value(b))) || match(v, m_Xor(m_Value(a), m_Value(b)))) { unsigned x = bits(a, m), y = bits(b, m); return done(std::max(x, y)); }
    if (match(v, m_LShr(m_Value(a), m_Value()))) return done(bits(a, m));
    if (auto *p = dyn_cast<SelectInst>(v)) { unsigned x = bits(p->getTrueValue(), m), y = bits(p->getFalseValue(), m); return done(std::max(x, y)); }
    if (auto *p = dyn_cast<PHINode>(v)) { // all values that can flow in through this and further phis
      std::set<const PHINode *> web; std::vector<const PHINode *> wl{p}; std::set<const Value *> leaves;
      auto peel = [&](const Value *x) { while (auto *c = dyn_cast<CastInst>(x)) { if (!isa<ZExtInst>(c) && !(isa<TruncInst>(c) && isa<ZExtInst>(c->getOperand(0)))) break; x = c->getOperand(0); } return x; };
      while (!wl.empty()) { auto *q = wl.back(); wl.pop_back(); if (!web.insert(q).second) continue; for (auto &o : q->incoming_values()) { auto *x = peel(o); if (auto *r = dyn_cast<PHINode>(x)) wl.push_back(r); else leaves.insert(x); } }
      for (auto *q : web) m[q] = q->getType()->getIntegerBitWidth(); // not assumed inside a leaf
      unsigned n = 0; for (auto *x : leaves) n = std::max(n, isa<UndefValue>(x) ? w : bits(x, m));
      return done(n);
    }
    return done(w - (unsigned)computeKnownBits(v, DL, 0, &AC).countMinLeadingZeros());
  }
  std::set<std::pair<const Value *, const BasicBlock *>> busy;
  bool nonEqual(const Value *a, const Value *b, const Instruction *I, BasicBlock *ef, BasicBlock *et) {
    return anyFact(I, ef, et, [&](ICmpInst::Predicate p, const Value *x, const Value *y) { return p != ICmpInst::ICMP_EQ && ICmpInst::isFalseWhenEqual(p) && ((strip(x) == strip(a) && same(y, b)) || (same(x, a) && strip(y) == strip(b))); });
  }
  static bool same(const Value *x, const Value *y) { x = strip(x); y = strip(y); if (x == y) return true; auto *k = dyn_cast<ConstantInt>(x), *l = dyn_cast<ConstantInt>(y); return k && l && k->getBitWidth() <= 64 && l->getBitWidth() <= 64 && (k->getSExtValue() == l->getSExtValue() || k->getZExtValue() == l->getZExtValue()); }
  bool nonZero(const Value *v, const Instruction *I, BasicBlock *ef = nullptr, BasicBlock *et = nullptr, unsigned d = 0) {
    if (d > 8) return false;
    if (isKnownNonZero(v, DL, 0, &AC, I, &DT)) return true;
    if (v->getType()->isIntegerTy()) { ConstantRange r = LVI->getConstantRange(const_cast<Value *>(v), const_cast<Instruction *>(I), false); if (!r.contains(APInt(r.getBitWidth(), 0))) return true; }
    if (anyFact(I, ef, et, [&](ICmpInst::Predicate p, const Value *x, const Value *y) {
          if (strip(x) != strip(v)) return false;
          auto *k = dyn_cast<ConstantInt>(y);
          if (k) { ConstantRange r = ConstantRange::makeExactICmpRegion(p, k->getValue()); return !r.contains(APInt(r.getBitWidth(), 0)); }
          return p == ICmpInst::ICMP_UGT; })) return true;
    const Value *a, *b;
    if (auto *z = dyn_cast<CastInst>(v)) if (isa<ZExtInst>(z) || isa<SExtInst>(z)) return nonZero(z->getOperand(0), I, ef, et, d + 1);
    if (auto *f = dyn_cast<FreezeInst>(v)) return nonZero(f->getOperand(0), I, ef, et, d + 1);
    if (match(v, m_Or(m_Value(a), m_Value(b)))) return nonZero(a, I, ef, et, d + 1) || nonZero(b, I, ef, et, d + 1);
    if (match(v, m_Xor(m_Value(a), m_Value(b))) || match(v, m_Sub(m_Value(a), m_Value(b)))) if (nonEqual(a, b, I, ef, et)) return true;
    if (match(v, m_Not(m_Value(a))) && bits(a) < v->getType()->getIntegerBitWidth()) return true;
    { const APInt *k; if (match(v, m_Shl(m_Not(m_Value(a)), m_APInt(k)))) { // the bits that stay are those of the mask
        unsigned w = v->getType()->getIntegerBitWidth(), left = w - (unsigned)k->getZExtValue(), n = bits(a);
        if (n < left || (n == left && nonEqual(a, ConstantInt::get(a->getType(), APInt::getLowBitsSet(w, left)), I, ef, et))) return true; } }
    if (auto *s = dyn_cast<SelectInst>(v)) return nonZero(s->getTrueValue(), I, ef, et, d + 1) && nonZero(s->getFalseValue(), I, ef, et, d + 1);
    if (auto *p = dyn_cast<PHINode>(v)) {
      if (!busy.insert({p, nullptr}).second) return true; // as far as the other entries go
      bool ok = true; for (unsigned i = 0; ok && i < p->getNumIncomingValues(); i++) ok = nonZero(p->getIncomingValue(i), p->getIncomingBlock(i)->getTerminator(), p->getIncomingBlock(i), const_cast<BasicBlock *>(p->getParent()), d + 1);
      busy.erase({p, nullptr}); return ok;
    }
    return false;
  }
  // nothing at all is known about the amount (it is counted up in a loop, say): not decided
  bool unknown(const Value *v, const Instruction *I) {
    while (isa<ZExtInst>(v) || isa<SExtInst>(v) || isa<TruncInst>(v)) v = cast<Instruction>(v)->getOperand(0);
    if (isa<Argument>(v) || isa<LoadInst>(v)) return false; // straight from the caller or from memory: must be checked
    return bits(v) == v->getType()->getIntegerBitWidth();
  }
  bool below(const Value *v, unsigned w, const Instruction *I) {
    if (bits(v) < 32 && (1ull << bits(v)) <= w) return true;
    KnownBits kb = computeKnownBits(v, DL, 0, &AC, I, &DT); if (kb.getMaxValue().ult(w)) return true;
    ConstantRange r = LVI->getConstantRange(const_cast<Value *>(v), const_cast<Instruction *>(I), false); if (r.getUnsignedMax().ult(w)) return true;
    return anyFact(I, nullptr, nullptr, [&](ICmpInst::Predicate p, const Value *x, const Value *y) { auto *k = dyn_cast<ConstantInt>(y); if (!k || strip(x) != strip(v)) return false; ConstantRange q = ConstantRange::makeExactICmpRegion(p, k->getValue()); return q.getUnsignedMax().ult(w); });
  }
};
} // namespace

// A local array or structure is read only after something was written to it, on every path.
static void initialised(Function *F, const std::string &r) {
  DominatorTree DT(*F);
  for (auto &B : *F) for (auto &I : B) if (auto *A = dyn_cast<AllocaInst>(&I)) {
    std::set<const Value *> der; std::vector<const Value *> wl{A}; std::set<const Instruction *> wr, rd; bool lost = false;
    while (!wl.empty()) {
      auto *v = wl.back(); wl.pop_back(); if (!der.insert(v).second) continue;
      for (auto *u : v->users()) {
        auto *i = cast<Instruction>(u);
        if (isa<GetElementPtrInst>(i) || isa<BitCastInst>(i) || isa<PHINode>(i) || isa<SelectInst>(i)) wl.push_back(i);
        else if (auto *l = dyn_cast<LoadInst>(i)) rd.insert(l);
        else if (auto *s = dyn_cast<StoreInst>(i)) { if (s->getPointerOperand() == v) wr.insert(s); else lost = true; }
        else if (auto *ii = dyn_cast<IntrinsicInst>(i)) { if (ii->isLifetimeStartOrEnd() || isa<DbgInfoIntrinsic>(ii)) continue; if (auto *m = dyn_cast<MemIntrinsic>(ii)) { if (m->getRawDest() == v) wr.insert(m); } else if (ii->onlyReadsMemory()) rd.insert(ii); else wr.insert(ii); }
        else if (isa<CallBase>(i)) wr.insert(i);
        else if (!isa<ICmpInst>(i)) lost = true;
      }
    }
    if (lost) continue;
    for (auto *x : rd) { // is there a path from the allocation to x without any write?
      if (!DT.isReachableFromEntry(x->getParent())) continue;
      std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> w2{A->getParent()}; bool bad = false;
      while (!w2.empty() && !bad) {
        auto *b = w2.back(); w2.pop_back(); if (!seen.insert(b).second) continue; bool stop = false;
        for (auto &j : *b) { if (&j == x) { bad = true; break; } if (wr.count(&j)) { stop = true; break; } }
        if (!stop && !bad) for (auto *n : successors(b)) w2.push_back(n);
      }
      report("initialised-before-read", r, locOf(x), !bad, bad ? "a local array or structure is read here on a path on which nothing was written to it" : "");
    }
  }
}

int cmdUndef(const std::string &bc, const std::vector<std::string> &roots) {
  unsigned nf = 0, undecided = 0; LLVMContext ctx; auto M = loadModule(bc, ctx);
  for (auto &r : roots) {
    Function *F = M->getFunction(r); if (!F || F->isDeclaration()) continue; nf++;
    { ValueToValueMapTy vm; F = CloneFunction(F, vm); }
    inlineAll(F, {}); scalariseCopies(F); runPasses(F, "sroa,early-cse,instsimplify,dce");
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    { Prover P(F, &FAM.getResult<LazyValueAnalysis>(*F));
    for (auto &B : *F) { if (!P.DT.isReachableFromEntry(&B)) continue; for (auto &I : B) {
      if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { if ((ii->getIntrinsicID() == Intrinsic::cttz || ii->getIntrinsicID() == Intrinsic::ctlz) && ii->getType()->isIntegerTy() && cast<ConstantInt>(ii->getArgOperand(1))->isOne()) { bool ok = P.nonZero(ii->getArgOperand(0), ii); report("bit-search-of-zero", r, locOf(&I), ok, ok ? "" : "the position of a set bit is asked for although no bit may be set: the result is undefined"); } }
      else if (auto *b = dyn_cast<BinaryOperator>(&I)) {
        if (b->isShift() && b->getType()->isIntegerTy() && !isa<Constant>(b->getOperand(1))) { bool ok = P.below(b->getOperand(1), b->getType()->getIntegerBitWidth(), b); if (!ok && P.unknown(b->getOperand(1), b)) { undecided++; continue; } report("shift-amount", r, locOf(&I), ok, ok ? "" : "the shift amount may reach the width of the value: the result is undefined"); }
        else if (b->isShift() && b->getType()->isIntegerTy()) { auto *k = dyn_cast<ConstantInt>(b->getOperand(1)); bool ok = k && k->getValue().ult(b->getType()->getIntegerBitWidth()); if (!ok) report("shift-amount", r, locOf(&I), ok, "the shift amount is not smaller than the width of the value"); }
        else if (b->isIntDivRem() && b->getType()->isIntegerTy() && !isa<Constant>(b->getOperand(1))) { bool ok = P.nonZero(b->getOperand(1), b); report("division", r, locOf(&I), ok, ok ? "" : "the divisor may be 0"); }
      }
    } } }
    runPasses(F, "loop-simplify,lcssa,loop-mssa(loop-rotate),early-cse,instsimplify,sccp,simplifycfg"); initialised(F, r);
    FAM.clear(); MAM.clear(); CGAM.clear(); LAM.clear();
    F->eraseFromParent();
  }
  note("functions", std::to_string(nf)); note("shifts_not_decided", std::to_string(undecided));
  return 0;
}
