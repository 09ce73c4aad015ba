// What a call does once one argument is known to be invalid: constants are propagated through the whole call; nothing
// that touches the caller's memory may remain and every remaining return must report failure.
#include "common.h"
#include "facts.h"
#include "llvm/IR/Operator.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
using namespace llvm;
bool isCapFlag(const Value *v);

int cmdArgs(const std::string &bc, const std::vector<std::string> &lines) {
  // lines: function parameter-index
  LLVMContext ctx; auto M = loadModule(bc, ctx);
  unsigned n = 0, miss = 0;
  for (auto &l : lines) {
    auto sp = l.find(' '); std::string name = l.substr(0, sp); unsigned k = (unsigned)std::stoul(l.substr(sp + 1));
    Function *F0 = M->getFunction(name); if (!F0 || F0->isDeclaration()) { miss++; continue; }
    ValueToValueMapTy vm; Function *F = CloneFunction(F0, vm);
    Argument *A = F->getArg(k); bool ptr = A->getType()->isPointerTy();
    std::string inst = name + " argument " + std::to_string(k + 1) + (ptr ? " null" : " zero");
    A->replaceAllUsesWith(Constant::getNullValue(A->getType()));
    const char *P = "sroa,early-cse,sccp,instsimplify,simplifycfg,dce";
    for (int i = 0; i < 3; i++) runPasses(F, P);
    inlineAll(F, {}); scalariseCopies(F);
    for (int i = 0; i < 4; i++) runPasses(F, P);
    runPasses(F, "adce,simplifycfg,sccp,simplifycfg");
    bool ok = true; unsigned nr = 0;
    auto bad = [&](const Instruction *I, const std::string &why) { ok = false; report("refused", inst, locOf(I), false, why); };
    auto touch = [&](const Instruction *I, const Value *p, const char *w) {
      if (!ok) return;
      const Value *b = getUnderlyingObject(p, 0);
      if (isa<AllocaInst>(b)) return;
      if (auto *g = dyn_cast<GlobalVariable>(b)) if (g->isConstant() || isCapFlag(g) || g->getName() == "_CpuFeaturesDetected") return;
      bad(I, std::string("the call is not refused before it ") + w + " memory");
    };
    for (auto &B : *F) for (auto &I : B) {
      if (auto *r = dyn_cast<ReturnInst>(&I)) { nr++; auto *c = r->getReturnValue() ? dyn_cast<Constant>(r->getReturnValue()) : nullptr; if (ok && !(c && c->isNullValue())) bad(r, "the call can report success (a result other than 0)"); }
      else if (auto *s = dyn_cast<StoreInst>(&I)) touch(s, s->getPointerOperand(), "writes");
      else if (auto *l = dyn_cast<LoadInst>(&I)) touch(l, l->getPointerOperand(), "reads");
      else if (auto *m = dyn_cast<MemIntrinsic>(&I)) touch(m, m->getDest(), "writes");
      else if (auto *c = dyn_cast<CallBase>(&I)) { if (isa<IntrinsicInst>(c) || c->isInlineAsm() || c->doesNotAccessMemory()) continue; if (ok) bad(c, "the call is not refused before it continues into a call with unknown effects"); }
    }
    if (ok && !nr) { report("refused", inst, name, false, "the call never returns"); ok = false; }
    if (ok) report("refused", inst, name, true, "returns 0 without touching the caller's memory");
    n++; F->eraseFromParent();
  }
  note("specialised_calls", std::to_string(n)); note("not_defined", std::to_string(miss));
  return 0;
}
