// Obligations on what happens before a call starts to work on the caller's data.
#include "absint.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <chrono>
void prepRoot(Function *F);
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// the value of bounds(inSize) is observed at the start of the call
CallInst *markBounds(Function *F, Function *B, const std::vector<unsigned> &args) {
  auto *M = F->getParent(); auto &C = M->getContext();
  auto mk = M->getOrInsertFunction("__hsa_mark", Type::getVoidTy(C), Type::getInt32Ty(C));
  IRBuilder<> b(&*F->getEntryBlock().getFirstInsertionPt());
  for (auto &I : F->getEntryBlock()) if (!isa<AllocaInst>(I)) { b.SetInsertPoint(&I); break; }
  if (auto *sp = F->getSubprogram()) b.SetCurrentDebugLocation(DILocation::get(C, sp->getLine(), 0, sp));
  std::vector<Value *> a; for (unsigned k : args) a.push_back(F->getArg(k));
  return b.CreateCall(mk, {b.CreateCall(B, a)});
}
// the caller passes real buffers
void assumeNonNull(Function *F) {
  std::vector<ICmpInst *> v;
  for (auto &B : *F) for (auto &I : B) if (auto *c = dyn_cast<ICmpInst>(&I)) if (c->isEquality() && isa<ConstantPointerNull>(c->getOperand(1)) && isa<Argument>(getUnderlyingObject(c->getOperand(0), 0))) v.push_back(c);
  for (auto *c : v) { c->replaceAllUsesWith(ConstantInt::get(c->getType(), c->getPredicate() == CmpInst::ICMP_NE)); c->eraseFromParent(); }
}
static void finish(Absint &A, Function *F, const std::string &r, double t0, int verbose) {
  unsigned bad = 0;
  for (auto &o : A.obls) {
    if (!o.second.ok) bad++;
    std::string d = o.second.detail; if (!verbose) { size_t k = d.find(" under"); if (k != std::string::npos) d = d.substr(0, k); }
    report(o.first.second, r, locOf(o.first.first), o.second.ok, d);
  }
  if (!A.failure.empty()) report("analysis", r, r, false, A.failure);
  printf("{\"root\":\"%s\",\"insts\":0,\"blocks\":%zu,\"obligations\":%zu,\"bad\":%u,\"maxdisj\":%lu,\"steps\":%lu,\"secs\":%.2f}\n", r.c_str(), F->size(), A.obls.size(), bad, A.maxDisj, A.nSteps, now() - t0);
  fflush(stdout);
}

// refuse: nothing of the caller's memory is touched unless the destination has the promised size
static void runRefuse(Function *F, const std::string &r, Function *bounds, int verbose) {
  double t0 = now(); unsigned k = F->arg_size() == 5 ? 1 : 0;
  std::vector<unsigned> ba; if (k) ba = {0, 2}; else ba = {1};
  markBounds(F, bounds, ba); prepRoot(F); assumeNonNull(F);
  const Argument *pIn = F->getArg(k), *pOut = F->getArg(k + 2), *inSize = F->getArg(k + 1), *outSize = F->getArg(k + 3);
  Absint A(F); A.verbose = verbose; A.maxTripleVars = 0; A.maxQuadVars = 0;
  std::unique_ptr<Argument> Bv(new Argument(Type::getInt64Ty(F->getContext()), "bound"));
  A.ghosts = {Bv.get()}; A.ghostKind = {{Bv.get(), 2}};
  A.initState = [&](Absint &a, State &s) { s.env[Bv.get()] = Lin::konst(0); };
  for (auto &B : *F) for (auto &I : B) if (auto *c = dyn_cast<CallInst>(&I)) if (c->getCalledFunction() && c->getCalledFunction()->getName() == "__hsa_mark" && !isa<Constant>(c->getArgOperand(0))) A.forceRel.insert(c->getArgOperand(0));
  A.onAccess = [&](Absint &a, State &s, const Instruction *In, const Value *base, const Lin &, const Lin &, bool write) {
    if (base && base != pIn && base != pOut) return;
    Lin b = s.env[Bv.get()];
    a.oblige(In, "small-destination-refused", s, a.ent(s, a.eval(s, outSize) - b), [&] { return "a destination smaller than the bound is accepted; destination size = " + a.show(a.eval(s, outSize)) + ", bound = " + a.show(b) + " under:\n" + a.showState(s); });
    a.oblige(In, "oversized-input-refused", s, a.ent(s, addc(b, -1)), [&] { return "an input size without a bound is accepted; input size = " + a.show(a.eval(s, inSize)) + " under:\n" + a.showState(s); });
    a.kill = true;
  };
  A.onCall = [&](Absint &a, State &s, const CallBase *cb) {
    auto *fn = cb->getCalledFunction();
    if (fn && fn->getName() == "__hsa_mark") s.env[Bv.get()] = a.eval(s, cb->getArgOperand(0));
  };
  A.onReturn = [&](Absint &a, State &s, const ReturnInst *R) {
    Lin v = a.eval(s, R->getReturnValue());
    a.oblige(R, "refusal-returns-zero", s, a.ent(s, v) && a.ent(s, scale(v, -1)), [&] { return "a call that does nothing may report success: " + a.show(v) + " under:\n" + a.showState(s); });
  };
  for (auto &B : *F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) A.forceRel.insert(R->getReturnValue());
  A.prepare(); A.run(); finish(A, F, r, t0, verbose);
}

// bounds: zero (unsupported) or at least the input and a header; never zero for a supported size
static void runBounds(Function *F, const std::string &r, int verbose) {
  double t0 = now(); prepRoot(F);
  const Argument *inSize = F->getArg(F->arg_size() - 1);
  Absint A(F); A.verbose = verbose;
  for (auto &B : *F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) A.forceRel.insert(R->getReturnValue());
  A.onReturn = [&](Absint &a, State &s0, const ReturnInst *R) {
    State s = s0; Lin v = a.eval(s, R->getReturnValue()), n = a.eval(s, inSize);
    { State t = s; if (a.add(t, addc(v, -1)) && a.feas(t)) a.oblige(R, "bound-covers-input", t, a.ent(t, addc(v - n, -8)), [&] { return "the bound may be smaller than the input plus a stream header: " + a.show(v) + " under:\n" + a.showState(t); }); }
    { State t = s; bool live = a.add(t, addc(scale(n, -1), (I)1 << 30)); if (F->arg_size() == 2) live = live && a.add(t, addc(scale(a.eval(t, F->getArg(0)), -1), (I)1 << 28)); if (live && a.feas(t)) a.oblige(R, "bound-for-supported-size", t, a.ent(t, addc(v, -1)), [&] { return "a supported input size has no bound: " + a.show(v) + " under:\n" + a.showState(t); }); }
  };
  A.prepare(); A.run(); finish(A, F, r, t0, verbose);
}

// declared: a decoder trusts a stream only as far as its header was checked against the caller's sizes
static void runDeclared(Function *F, const std::string &r, int verbose) {
  double t0 = now();
  bool swapped = StringRef(r).contains("low_entropy") || StringRef(r).starts_with("rle8m");
  prepRoot(F); assumeNonNull(F);
  // wide header reads become 32-bit fields
  { std::vector<LoadInst *> v; for (auto &B : *F) for (auto &I : B) if (auto *l = dyn_cast<LoadInst>(&I)) if (l->getType()->isIntegerTy(64)) { APInt off(64, 0); if (l->getPointerOperand()->stripAndAccumulateConstantOffsets(F->getParent()->getDataLayout(), off, true) == F->getArg(0) && off.getZExtValue() == 0) v.push_back(l); }
    for (auto *l : v) { IRBuilder<> b(l); Value *p = F->getArg(0); Value *lo = b.CreateAlignedLoad(b.getInt32Ty(), p, MaybeAlign(1)), *hi = b.CreateAlignedLoad(b.getInt32Ty(), b.CreateConstGEP1_64(b.getInt8Ty(), p, 4), MaybeAlign(1)); l->replaceAllUsesWith(b.CreateOr(b.CreateZExt(lo, b.getInt64Ty()), b.CreateShl(b.CreateZExt(hi, b.getInt64Ty()), 32))); l->eraseFromParent(); }
    if (!v.empty()) runPasses(F, "instcombine"); }
  const Argument *pIn = F->getArg(0), *inSize = F->getArg(1), *pOut = F->getArg(2), *outSize = F->getArg(3);
  Absint A(F); A.verbose = verbose; A.maxTripleVars = 0; A.maxQuadVars = 0;
  Type *i64 = Type::getInt64Ty(F->getContext());
  std::unique_ptr<Argument> H0(new Argument(i64, "hdr0")), H1(new Argument(i64, "hdr4"));
  A.ghosts = {H0.get(), H1.get()}; 
  A.initState = [&](Absint &a, State &s) { for (auto *h : {H0.get(), H1.get()}) { s.env[h] = a.havoc(s, 32, h->getName().str()); a.argSym[h] = a.nsym - 1; } };
  auto fixedOff = [&](const Value *p, I &o) { APInt off(64, 0); if (p->stripAndAccumulateConstantOffsets(F->getParent()->getDataLayout(), off, true) != pIn) return false; o = off.getSExtValue(); return true; };
  for (auto &B : *F) { for (auto &I : B) if (auto *l = dyn_cast<LoadInst>(&I)) { ::I o; if (l->getType()->isIntegerTy(32) && fixedOff(l->getPointerOperand(), o) && (o == 0 || o == 4)) A.forceRel.insert(l); }
    if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) A.forceRel.insert(R->getReturnValue()); }
  A.onAccess = [&](Absint &a, State &s, const Instruction *In, const Value *base, const Lin &off, const Lin &len, bool write) {
    if (base && base != pIn && base != pOut) return;
    Lin us = s.env[swapped ? H1.get() : H0.get()], cs = s.env[swapped ? H0.get() : H1.get()];
    bool outFits = a.ent(s, a.eval(s, outSize) - us), inFits = a.ent(s, a.eval(s, inSize) - cs);
    if (base == pIn && !write && off.isConst() && len.isConst() && off.c >= 0 && off.c + len.c <= 12 && !(off.c >= 8 && outFits && inFits)) {
      a.oblige(In, "header-inside-input", s, a.ent(s, a.eval(s, inSize) - Lin::konst(off.c + len.c)), [&] { return "the stream header is read although the given stream may be shorter; end = " + a.show(off + len) + " under:\n" + a.showState(s); });
      if (In->getType()->isIntegerTy(32) && off.c == 0) s.env[In] = s.env[H0.get()];
      if (In->getType()->isIntegerTy(32) && off.c == 4) s.env[In] = s.env[H1.get()];
      return;
    }
    a.oblige(In, "declared-output-fits", s, outFits, [&] { return "decoding starts although the declared output may exceed the destination under:\n" + a.showState(s); });
    a.oblige(In, "declared-input-fits", s, inFits, [&] { return "decoding starts although the declared stream may be longer than what was given under:\n" + a.showState(s); });
    a.kill = true;
  };
  A.onReturn = [&](Absint &a, State &s, const ReturnInst *R) {
    Lin v = a.eval(s, R->getReturnValue());
    a.oblige(R, "refusal-returns-zero", s, a.ent(s, v) && a.ent(s, scale(v, -1)), [&] { return "a call that decodes nothing may report success: " + a.show(v) + " under:\n" + a.showState(s); });
  };
  A.prepare(); A.run();
  // what can be returned: traced through joins and width changes
  std::set<const Value *> seen; std::vector<const Value *> wl;
  for (auto &B : *F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) wl.push_back(R->getReturnValue());
  const ReturnInst *R0 = nullptr; for (auto &B : *F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) R0 = R;
  bool other = false;
  auto res = [&](bool ok, const std::string &d) { report("returns-declared-size", r, R0 ? locOf(R0) : r, ok, d); };
  while (!wl.empty()) {
    const Value *v = wl.back(); wl.pop_back(); if (!seen.insert(v).second) continue;
    if (auto *p = dyn_cast<PHINode>(v)) { for (auto &o : p->incoming_values()) wl.push_back(o); continue; }
    if (auto *s = dyn_cast<SelectInst>(v)) { wl.push_back(s->getTrueValue()); wl.push_back(s->getFalseValue()); continue; }
    if (isa<ZExtInst>(v) || isa<TruncInst>(v) || isa<FreezeInst>(v)) { wl.push_back(cast<Instruction>(v)->getOperand(0)); continue; }
    if (auto *c = dyn_cast<ConstantInt>(v)) { res(c->isZero(), c->isZero() ? "refusal" : "a fixed non-zero size is returned"); continue; }
    if (isa<Argument>(v)) { res(false, "a size given by the caller is returned instead of the declared one"); continue; }
    ::I o;
    if (auto *l = dyn_cast<LoadInst>(v)) if (fixedOff(l->getPointerOperand(), o)) { bool ok = l->getType()->isIntegerTy(32) && o == (swapped ? 4 : 0); res(ok, ok ? "the declared size" : "another header field is returned"); continue; }
    other = true;
  }
  if (other) printf("{\"undecided_return\":\"%s\"}\n", r.c_str());
  finish(A, F, r, t0, verbose);
}
int cmdPrologue(const std::string &bc, const std::vector<std::string> &args, int verbose) {
  // args: mode, then "function [bounds]" lines
  std::string mode = args.at(0);
  LLVMContext ctx; auto M = loadModule(bc, ctx);
  for (size_t i = 1; i < args.size(); i++) {
    std::string name = args[i].substr(0, args[i].find(' ')), b = args[i].find(' ') == std::string::npos ? "" : args[i].substr(args[i].find(' ') + 1);
    Function *F = M->getFunction(name);
    if (!F || F->isDeclaration()) { printf("{\"undefined\":\"%s\"}\n", name.c_str()); continue; }
    { ValueToValueMapTy vm; F = CloneFunction(F, vm); }
    Function *B = b.empty() ? nullptr : M->getFunction(b);
    if (mode == "refuse") { if (!B || B->isDeclaration()) broken("no bounds function " + b); runRefuse(F, name, B, verbose); }
    else if (mode == "bounds") runBounds(F, name, verbose);
    else runDeclared(F, name, verbose);
    F->eraseFromParent();
  }
  return 0;
}
