// Alignment: every access that requires an aligned address (16 bytes and up) has one, whatever the alignment of the
// caller's buffers. Addresses are linear forms over opaque values modulo the required alignment; conditions such as
// (address & 15) == 0 are facts that hold on the paths behind them (must-dataflow).
#include "common.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <functional>
using namespace llvm;

namespace {
typedef uint64_t U;
struct Form { std::map<const Value *, U> t; U c = 0; bool operator==(const Form &o) const { return c == o.c && t == o.t; } bool operator<(const Form &o) const { return c != o.c ? c < o.c : t < o.t; } };
struct Align_ {
  Function *F; const DataLayout &DL; U M; // modulus
  std::map<const Value *, Form> form; std::map<const BasicBlock *, std::set<Form>> in; std::set<const BasicBlock *> reached;
  std::map<std::pair<const BasicBlock *, const BasicBlock *>, std::set<Form>> out;
  Align_(Function *f, U m) : F(f), DL(f->getParent()->getDataLayout()), M(m) {}
  Form konst(U c) { Form f; f.c = c & (M - 1); return f; }
  Form sym(const Value *v) { Form f; f.t[v] = 1; return f; }
  Form comb(const Form &a, const Form &b, U k) { Form r = a; r.c = (r.c + b.c * k) & (M - 1); for (auto &p : b.t) { U &x = r.t[p.first]; x = (x + p.second * k) & (M - 1); if (!x) r.t.erase(p.first); } return r; }
  Form of(const Value *v) {
    if (auto *c = dyn_cast<ConstantInt>(v)) return konst(c->getValue().getLoBits(std::min(6u, c->getBitWidth())).getZExtValue() | (c->getBitWidth() < 6 ? 0 : 0));
    if (isa<ConstantPointerNull>(v)) return konst(0);
    if (auto *g = dyn_cast<GlobalVariable>(v)) return g->getAlign().valueOrOne().value() >= M ? konst(0) : sym(v);
    auto it = form.find(v); return it == form.end() ? sym(v) : it->second;
  }
  bool known(const Value *v) { return isa<Constant>(v) || isa<Argument>(v) || form.count(v); }
  Form reduce(Form f, const std::set<Form> &facts) {
    for (int n = 0; n < 4; n++) { bool ch = false;
      for (auto &q : facts) for (auto &p : q.t) { auto it = f.t.find(p.first); if (it == f.t.end()) continue; if (p.second == 1 || p.second == M - 1) { U k = it->second; f = comb(f, q, p.second == 1 ? (M - k) & (M - 1) : k); ch = true; break; } }
      if (!ch || f.t.empty()) break; }
    return f;
  }
  Form eval(const Instruction *I) {
    if (auto *a = dyn_cast<AllocaInst>(I)) return a->getAlign().value() >= M ? konst(0) : sym(I);
    if (auto *g = dyn_cast<GetElementPtrInst>(I)) {
      Form f = of(g->getPointerOperand());
      for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        if (StructType *st = gi.getStructTypeOrNull()) f = comb(f, konst(DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()).getFixedValue()), 1);
        else f = comb(f, of(gi.getOperand()), DL.getTypeAllocSize(gi.getIndexedType()).getFixedValue());
      }
      return f;
    }
    if (isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I) || isa<BitCastInst>(I) || isa<FreezeInst>(I)) { if (I->getOperand(0)->getType()->isPointerTy() || I->getOperand(0)->getType()->isIntegerTy()) return of(I->getOperand(0)); return sym(I); }
    // width changes keep the low bits of wide values
    if (isa<TruncInst>(I) || isa<ZExtInst>(I) || isa<SExtInst>(I)) { auto *s = I->getOperand(0)->getType(), *d = I->getType(); if (s->isIntegerTy() && d->isIntegerTy() && s->getIntegerBitWidth() >= 8 && d->getIntegerBitWidth() >= 8) return of(I->getOperand(0)); return sym(I); }
    if (auto *b = dyn_cast<BinaryOperator>(I)) {
      if (!b->getType()->isIntegerTy() || b->getType()->getIntegerBitWidth() < 8) return sym(I);
      auto *k = dyn_cast<ConstantInt>(b->getOperand(1));
      switch (b->getOpcode()) {
      case Instruction::Add: return comb(of(b->getOperand(0)), of(b->getOperand(1)), 1);
      case Instruction::Sub: return comb(of(b->getOperand(0)), of(b->getOperand(1)), M - 1);
      case Instruction::Mul: if (k) return comb(konst(0), of(b->getOperand(0)), k->getValue().getLoBits(6).getZExtValue()); break;
      case Instruction::Shl: if (k && k->getZExtValue() < 64) return comb(konst(0), of(b->getOperand(0)), (U)1 << k->getZExtValue()); break;
      case Instruction::And: if (k) { U m = k->getValue().getLoBits(6).getZExtValue() & (M - 1); if (m == M - 1) return of(b->getOperand(0)); if (m == 0) return konst(0); Form f = of(b->getOperand(0)); if (f.t.empty()) return konst(f.c & m); } break;
      case Instruction::Or: case Instruction::Xor: if (k && (k->getValue().getLoBits(6).getZExtValue() & (M - 1)) == 0) return of(b->getOperand(0)); break;
      default: break;
      }
    }
    return sym(I);
  }
  // facts behind a condition: forms that are 0 modulo M
  void facts(const Value *c, bool v, std::set<Form> &s, int d = 0) {
    if (d > 6) return;
    if (auto *ic = dyn_cast<ICmpInst>(c)) {
      if (ic->isEquality() && (ic->getPredicate() == CmpInst::ICMP_EQ) == v && (ic->getOperand(0)->getType()->isIntegerTy() || ic->getOperand(0)->getType()->isPointerTy())) {
        auto wideEnough = [](const Value *x) { return x->getType()->isPointerTy() || x->getType()->getIntegerBitWidth() >= 8; };
        if (!wideEnough(ic->getOperand(0))) return;
        Form f = comb(of(ic->getOperand(0)), of(ic->getOperand(1)), M - 1); if (!f.t.empty()) s.insert(f);
      }
      return;
    }
    if (auto *b = dyn_cast<BinaryOperator>(c)) {
      if (b->getOpcode() == Instruction::And && v) { facts(b->getOperand(0), true, s, d + 1); facts(b->getOperand(1), true, s, d + 1); }
      if (b->getOpcode() == Instruction::Or && !v) { facts(b->getOperand(0), false, s, d + 1); facts(b->getOperand(1), false, s, d + 1); }
      if (b->getOpcode() == Instruction::Xor) if (auto *k = dyn_cast<ConstantInt>(b->getOperand(1))) facts(b->getOperand(0), v != k->isOne(), s, d + 1);
      return;
    }
    if (auto *se = dyn_cast<SelectInst>(c)) {
      auto *t = dyn_cast<ConstantInt>(se->getTrueValue()), *f = dyn_cast<ConstantInt>(se->getFalseValue());
      if (f && f->isZero() && v) { facts(se->getCondition(), true, s, d + 1); facts(se->getTrueValue(), true, s, d + 1); }
      if (t && t->isOne() && !v) { facts(se->getCondition(), false, s, d + 1); facts(se->getFalseValue(), false, s, d + 1); }
      return;
    }
    if (auto *p = dyn_cast<PHINode>(c)) { // short-circuit evaluation: all other incoming values are the opposite constant
      int live = -1; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { auto *k = dyn_cast<ConstantInt>(p->getIncomingValue(i)); if (k && k->isOne() != v) continue; if (live >= 0) return; live = (int)i; }
      if (live < 0) return;
      auto it = out.find({p->getIncomingBlock((unsigned)live), p->getParent()}); if (it != out.end()) s.insert(it->second.begin(), it->second.end());
      facts(p->getIncomingValue((unsigned)live), v, s, d + 1);
    }
  }
  void run() {
    ReversePostOrderTraversalBlocks();
    bool ch = true; unsigned guard = 0;
    while (ch && guard++ < 60) {
      ch = false;
      for (auto *B : order) {
        std::set<Form> f; bool first = true, reach = B == &F->getEntryBlock();
        for (auto *p : predecessors(B)) { auto it = out.find({p, B}); if (it == out.end()) continue; reach = true; if (first) { f = it->second; first = false; } else { std::set<Form> g; for (auto &x : f) if (it->second.count(x)) g.insert(x); f.swap(g); } }
        if (!reach) continue;
        // joins
        for (auto &p : B->phis()) {
          if (!(p.getType()->isPointerTy() || (p.getType()->isIntegerTy() && p.getType()->getIntegerBitWidth() >= 8))) continue;
          Form r = sym(&p); bool have = false, same = true;
          for (unsigned i = 0; i < p.getNumIncomingValues(); i++) {
            auto it = out.find({p.getIncomingBlock(i), B}); if (it == out.end()) continue; // not reached (yet)
            const Value *v = p.getIncomingValue(i); if (isa<UndefValue>(v)) continue;
            if (!known(v) && isa<Instruction>(v)) continue; // optimistic
            Form x = reduce(of(v), it->second);
            if (!have) { r = x; have = true; } else if (!(r == x)) same = false;
          }
          // a value carried around a loop may only be expressed through values that do not change in it
          if (have && same) for (auto &t : r.t) if (auto *ti = dyn_cast<Instruction>(t.first)) { if (!DT.dominates(ti, &p) || ti == &p) same = ti == &p ? same && r == sym(&p) : false; if (same && ti != &p && inLoopWith(ti, &p)) same = false; }
          if (!same || fixed.count(&p)) { r = sym(&p); fixed.insert(&p); }
          auto it = form.find(&p); if (it == form.end() || !(it->second == r)) { form[&p] = r; ch = true; }
        }
        // values defined here are new: facts about their earlier instances end
        for (auto it = f.begin(); it != f.end();) { bool k = false; for (auto &t : it->t) if (auto *ti = dyn_cast<Instruction>(t.first)) if (ti->getParent() == B) k = true; if (k) it = f.erase(it); else ++it; }
        if (!reached.count(B) || in[B] != f) { reached.insert(B); in[B] = f; ch = true; }
        for (auto &I : *B) { if (isa<PHINode>(I) || I.getType()->isVoidTy() || !(I.getType()->isPointerTy() || I.getType()->isIntegerTy())) continue; Form x = eval(&I); auto it = form.find(&I); if (it == form.end() || !(it->second == x)) { form[&I] = x; ch = true; } }
        auto *t = B->getTerminator();
        for (unsigned k = 0; k < t->getNumSuccessors(); k++) {
          auto *S = t->getSuccessor(k); std::set<Form> g = f;
          if (auto *br = dyn_cast<BranchInst>(t)) if (br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1)) facts(br->getCondition(), k == 0, g);
          auto key = std::make_pair((const BasicBlock *)B, (const BasicBlock *)S); auto it = out.find(key); if (it == out.end() || it->second != g) { out[key] = g; ch = true; }
        }
      }
    }
    ok = !ch;
  }
  std::vector<const BasicBlock *> order; std::set<const Value *> fixed; DominatorTree DT; std::map<const BasicBlock *, std::set<const BasicBlock *>> reachTo; bool ok = false;
  bool inLoopWith(const Instruction *a, const Instruction *b) { // is there a cycle through both?
    auto reach = [&](const BasicBlock *x) -> std::set<const BasicBlock *> & { auto it = reachTo.find(x); if (it != reachTo.end()) return it->second; auto &s = reachTo[x]; std::vector<const BasicBlock *> wl{x}; while (!wl.empty()) { auto *y = wl.back(); wl.pop_back(); for (auto *z : successors(y)) if (s.insert(z).second) wl.push_back(z); } return s; };
    return a->getParent() == b->getParent() ? reach(a->getParent()).count(a->getParent()) : reach(a->getParent()).count(b->getParent()) && reach(b->getParent()).count(a->getParent());
  }
  void ReversePostOrderTraversalBlocks() { DT.recalculate(*F); std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> post; std::function<void(const BasicBlock *)> go = [&](const BasicBlock *b) { if (!seen.insert(b).second) return; for (auto *s : successors(b)) go(s); post.push_back(b); }; go(&F->getEntryBlock()); order.assign(post.rbegin(), post.rend()); }
};
}
static uint64_t DL_size(Type *t, const DataLayout &DL) { return DL.getTypeStoreSize(t).getFixedValue(); }
int cmdAlign(const std::string &bc, const std::vector<std::string> &roots) {
  unsigned nf = 0; LLVMContext ctx; auto M = loadModule(bc, ctx);
  for (auto &r : roots) {
    Function *F = M->getFunction(r); if (!F || F->isDeclaration()) continue; nf++;
    { ValueToValueMapTy vm; F = CloneFunction(F, vm); }
    inlineAll(F, {}); scalariseCopies(F); runPasses(F, "sroa,early-cse,instsimplify,dce");
    std::map<U, std::vector<std::pair<const Instruction *, const Value *>>> need;
    for (auto &B : *F) for (auto &I : B) {
      auto want = [&](const Value *p, U a) { if (a >= 16) need[a > 64 ? 64 : a].push_back({&I, p}); };
      if (auto *l = dyn_cast<LoadInst>(&I)) { if (DL_size(l->getType(), M->getDataLayout()) >= 16) want(l->getPointerOperand(), l->getAlign().value()); }
      else if (auto *s = dyn_cast<StoreInst>(&I)) { if (DL_size(s->getValueOperand()->getType(), M->getDataLayout()) >= 16) want(s->getPointerOperand(), s->getAlign().value()); }
      else if (auto *m = dyn_cast<MemIntrinsic>(&I)) { want(m->getDest(), m->getDestAlign().valueOrOne().value()); if (auto *t = dyn_cast<MemTransferInst>(m)) want(t->getSource(), t->getSourceAlign().valueOrOne().value()); }
    }
    for (auto &n : need) {
      Align_ A(F, n.first); A.run();
      if (!A.ok) broken("alignment analysis of " + r + " did not converge");
      std::map<std::pair<std::string, bool>, bool> seen;
      for (auto &p : n.second) {
        if (!A.reached.count(p.first->getParent())) continue;
        Form f = A.reduce(A.of(p.second), A.in[p.first->getParent()]); bool ok = f.t.empty() && f.c == 0;
        report("aligned", r, locOf(p.first), ok, ok ? "" : "an access that requires " + std::to_string(n.first) + "-byte alignment may hit an address that is not aligned");
      }
    }
    F->eraseFromParent();
  }
  note("functions", std::to_string(nf));
  return 0;
}
