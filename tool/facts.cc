#include "facts.h"
using namespace llvm;
static Atoms inter(const Atoms &a, const Atoms &b) { Atoms r; for (auto &x : a) if (b.count(x)) r.insert(x); return r; }
static const char *IMPOSSIBLE = "<impossible>";
Atoms MustFacts::implied(const Value *c, bool truth, int depth) {
  Atoms r;
  if (depth > 24) return r;
  if (auto *k = dyn_cast<ConstantInt>(c)) { if (k->isZero() == truth) r.insert(IMPOSSIBLE); return r; }
  if (leaf && leaf(c, truth, r)) return r;
  auto un = [&](Atoms a, const Atoms &b) { a.insert(b.begin(), b.end()); return a; };
  auto meet = [&](const Atoms &a, const Atoms &b) { if (a.count(IMPOSSIBLE)) return b; if (b.count(IMPOSSIBLE)) return a; return inter(a, b); };
  if (auto *s = dyn_cast<SelectInst>(c)) {
    if (!s->getType()->isIntegerTy()) return r;
    Atoms a = un(implied(s->getCondition(), true, depth + 1), implied(s->getTrueValue(), truth, depth + 1));
    Atoms b = un(implied(s->getCondition(), false, depth + 1), implied(s->getFalseValue(), truth, depth + 1));
    return meet(a, b);
  }
  if (auto *p = dyn_cast<PHINode>(c)) {
    bool first = true;
    for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
      Atoms a = implied(p->getIncomingValue(i), truth, depth + 8);
      if (a.count(IMPOSSIBLE)) continue;
      if (reached.count(p->getIncomingBlock(i))) a = un(a, onEdge(p->getIncomingBlock(i), p->getParent()));
      if (first) { r = a; first = false; } else r = inter(r, a);
    }
    if (first) r.insert(IMPOSSIBLE);
    return r;
  }
  if (auto *z = dyn_cast<CastInst>(c)) {
    if (isa<ZExtInst>(z) || isa<SExtInst>(z)) return implied(z->getOperand(0), truth, depth + 1);
    if (isa<TruncInst>(z)) return implied(z->getOperand(0), truth, depth + 1); // values are 0/1 wherever a leaf is recognised
    return r;
  }
  if (auto *i = dyn_cast<ICmpInst>(c)) {
    auto *k = dyn_cast<ConstantInt>(i->getOperand(1));
    if (k && i->getOperand(0)->getType()->isIntegerTy()) {
      if (k->isZero()) {
        if (i->getPredicate() == CmpInst::ICMP_NE || i->getPredicate() == CmpInst::ICMP_UGT) return implied(i->getOperand(0), truth, depth + 1);
        if (i->getPredicate() == CmpInst::ICMP_EQ) return implied(i->getOperand(0), !truth, depth + 1);
      }
      // comparison of an integer phi/select of constants (a "level" variable)
      auto cmpk = [&](const ConstantInt *v) { return ICmpInst::compare(v->getValue(), k->getValue(), i->getPredicate()) == truth; };
      std::function<Atoms(const Value *, int)> lv = [&](const Value *v, int d) -> Atoms {
        Atoms q; if (d > 12) return q;
        if (auto *kv = dyn_cast<ConstantInt>(v)) { if (!cmpk(kv)) q.insert(IMPOSSIBLE); return q; }
        if (auto *s = dyn_cast<SelectInst>(v)) return meet(un(implied(s->getCondition(), true, depth + 1), lv(s->getTrueValue(), d + 1)), un(implied(s->getCondition(), false, depth + 1), lv(s->getFalseValue(), d + 1)));
        if (auto *p = dyn_cast<PHINode>(v)) {
          bool first = true;
          for (unsigned j = 0; j < p->getNumIncomingValues(); j++) {
            Atoms a = lv(p->getIncomingValue(j), d + 1); if (a.count(IMPOSSIBLE)) continue;
            if (reached.count(p->getIncomingBlock(j))) a = un(a, onEdge(p->getIncomingBlock(j), p->getParent()));
            if (first) { q = a; first = false; } else q = inter(q, a);
          }
          if (first) q.insert(IMPOSSIBLE);
        }
        return q;
      };
      return lv(i->getOperand(0), 0);
    }
    return r;
  }
  if (auto *b = dyn_cast<BinaryOperator>(c)) {
    if (b->getOpcode() == Instruction::And || b->getOpcode() == Instruction::Or) {
      bool conj = (b->getOpcode() == Instruction::And) == truth;
      // an integer `a & b` being nonzero implies both nonzero; `a | b` zero implies both zero (also bitwise)
      if (b->getOpcode() == Instruction::And && !truth && !b->getType()->isIntegerTy(1)) {
        // a & 1 where a is a 0/1 leaf
        if (auto *k = dyn_cast<ConstantInt>(b->getOperand(1))) if (k->isOne()) return implied(b->getOperand(0), truth, depth + 1);
        return r;
      }
      Atoms x = implied(b->getOperand(0), truth, depth + 1), y = implied(b->getOperand(1), truth, depth + 1);
      return conj ? un(x, y) : meet(x, y);
    }
    if (b->getOpcode() == Instruction::Xor) if (auto *k = dyn_cast<ConstantInt>(b->getOperand(1))) if (k->isOne()) return implied(b->getOperand(0), !truth, depth + 1);
  }
  return r;
}
Atoms MustFacts::onEdge(const BasicBlock *from, const BasicBlock *to) {
  Atoms a = in.count(from) ? in[from] : Atoms();
  if (step) for (auto &I : *from) step(&I, a);
  const Instruction *t = from->getTerminator();
  if (auto *br = dyn_cast<BranchInst>(t)) {
    if (br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1)) { Atoms b = implied(br->getCondition(), br->getSuccessor(0) == to); a.insert(b.begin(), b.end()); }
  } else if (auto *sw = dyn_cast<SwitchInst>(t)) {
    // a case edge: condition == case value
    bool first = true; Atoms acc;
    bool isDef = sw->getDefaultDest() == to;
    if (!isDef) for (auto &cs : sw->cases()) if (cs.getCaseSuccessor() == to) {
      Instruction *tmp = new ICmpInst(CmpInst::ICMP_EQ, const_cast<Value *>(sw->getCondition()), const_cast<ConstantInt *>(cs.getCaseValue()));
      Atoms b = implied(tmp, true); tmp->deleteValue();
      if (first) { acc = b; first = false; } else acc = inter(acc, b);
    }
    a.insert(acc.begin(), acc.end());
  }
  return a;
}
void MustFacts::solve(const Atoms &entry) {
  in.clear(); reached.clear();
  in[&F->getEntryBlock()] = entry; reached.insert(&F->getEntryBlock());
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto &B : *F) {
      if (!reached.count(&B)) continue;
      for (const BasicBlock *S : successors(&B)) {
        Atoms o = onEdge(&B, S);
        if (o.count(IMPOSSIBLE)) continue;
        if (!reached.count(S)) { reached.insert(S); in[S] = o; ch = true; }
        else if (S != &F->getEntryBlock()) { Atoms n = inter(in[S], o); if (n != in[S]) { in[S] = n; ch = true; } }
      }
    }
  }
}
Atoms MustFacts::at(const Instruction *I) {
  Atoms a = in[I->getParent()];
  if (step) for (auto &J : *I->getParent()) { if (&J == I) break; step(&J, a); }
  return a;
}
