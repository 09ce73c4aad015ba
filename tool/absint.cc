#include "absint.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <memory>

static const I P62 = (I)1 << 62;
static I pw(unsigned k) { return (I)1 << k; }

std::string Absint::show(const Lin &l) const {
  std::string s;
  for (auto &p : l.t) {
    if (!s.empty() || p.second < 0) s += p.second < 0 ? " - " : " + ";
    I k = iabs(p.second); if (k != 1) s += itos(k) + "*";
    s += symName[p.first] + "#" + std::to_string(p.first);
  }
  if (l.c != 0 || s.empty()) { if (l.c < 0) s += " - "; else if (!s.empty()) s += " + "; s += itos(iabs(l.c)); }
  return s;
}
std::string Absint::showState(const State &s) const {
  std::string r;
  for (auto &c : s.ge) r += "  " + show(c) + " >= 0\n";
  for (auto &e : s.env) { std::string n; raw_string_ostream o(n); if (e.first) e.first->printAsOperand(o, false); r += "  " + o.str() + " = " + show(e.second) + "\n"; }
  return r;
}

static std::string argName(const Argument *A) {
  if (A->hasName()) return A->getName().str();
  static const char *four[4] = {"pIn", "inSize", "pOut", "outSize"};
  if (A->getParent()->arg_size() == 4) return four[A->getArgNo()];
  return "arg" + std::to_string(A->getArgNo());
}
static bool isI1(const Value *v) { return v->getType()->isIntegerTy(1); }
static bool isIntOrPtr(const Value *v) { Type *t = v->getType(); return t->isPointerTy() || (t->isIntegerTy() && t->getIntegerBitWidth() <= 64); }

// ---------------------------------------------------------------- provenance
const Value *Absint::baseOf(const Value *v) {
  auto it = baseMemo.find(v);
  if (it != baseMemo.end()) return it->second;
  std::set<const Value *> seen; std::vector<const Value *> wl{v}; std::set<const Value *> bases; bool bad = false;
  while (!wl.empty()) {
    const Value *x = wl.back(); wl.pop_back();
    if (!seen.insert(x).second) continue;
    if (isa<Argument>(x) || isa<AllocaInst>(x) || isa<GlobalValue>(x)) { if (x->getType()->isPointerTy()) bases.insert(x); continue; }
    if (isa<ConstantPointerNull>(x) || isa<UndefValue>(x)) continue;
    if (auto *g = dyn_cast<GEPOperator>(x)) { wl.push_back(g->getPointerOperand()); continue; }
    if (auto *p = dyn_cast<PHINode>(x)) { for (auto &o : p->incoming_values()) wl.push_back(o); continue; }
    if (auto *s = dyn_cast<SelectInst>(x)) { wl.push_back(s->getTrueValue()); wl.push_back(s->getFalseValue()); continue; }
    if (auto *c = dyn_cast<Operator>(x)) {
      unsigned op = c->getOpcode();
      if (op == Instruction::BitCast || op == Instruction::IntToPtr || op == Instruction::PtrToInt || op == Instruction::AddrSpaceCast || op == Instruction::Freeze) { wl.push_back(c->getOperand(0)); continue; }
      if (x->getType()->isIntegerTy(64) && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::And || op == Instruction::Or)) {
        // integer arithmetic on an address: follow operands that lead to pointers
        wl.push_back(c->getOperand(0)); if (op != Instruction::Sub) wl.push_back(c->getOperand(1)); continue;
      }
    }
    if (x->getType()->isPointerTy()) bad = true; // pointer loaded from memory / returned by a call
  }
  const Value *r = (!bad && bases.size() == 1) ? *bases.begin() : nullptr;
  baseMemo[v] = r;
  return r;
}

// does an integer value carry an address?
static bool carriesAddress(const Value *v, int depth = 0) {
  if (depth > 12) return false;
  if (isa<PtrToIntInst>(v)) return true;
  if (auto *b = dyn_cast<BinaryOperator>(v)) if (b->getOpcode() == Instruction::Add || b->getOpcode() == Instruction::And || b->getOpcode() == Instruction::Or) return carriesAddress(b->getOperand(0), depth + 1) || carriesAddress(b->getOperand(1), depth + 1);
  return false;
}

// ---------------------------------------------------------------- relevance + liveness
static bool isCondUse(const Instruction *I) { return isa<BranchInst>(I) || isa<SwitchInst>(I) || isa<SelectInst>(I); }

// which bits of each integer can be one, and which integers are computed from memory contents
uint64_t Absint::mayBits(const Value *v) const {
  unsigned w = v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 64;
  uint64_t full = w >= 64 ? ~0ull : ((1ull << w) - 1);
  if (w > 64) return ~0ull;
  if (auto *c = dyn_cast<ConstantInt>(v)) return c->getZExtValue() & full;
  if (isa<UndefValue>(v)) return 0; // reads of indeterminate values are reported separately
  auto *I = dyn_cast<Instruction>(v); if (!I) return full;
  auto it = may1.find(v); return it == may1.end() ? 0 : it->second;
}
void Absint::knownBits() {
  // local arrays only accessed as elements of one integer type: a load yields some stored value
  std::map<const AllocaInst *, std::pair<unsigned, std::vector<const Value *>>> arr; std::map<const LoadInst *, const AllocaInst *> arrLoad;
  for (auto &B : *F) for (auto &In : B) if (auto *al = dyn_cast<AllocaInst>(&In)) {
    auto *at = dyn_cast<ArrayType>(al->getAllocatedType()); if (!at || !at->getElementType()->isIntegerTy()) continue;
    Type *et = at->getElementType(); uint64_t es = DL.getTypeAllocSize(et).getFixedValue(); bool ok = et->getIntegerBitWidth() <= 64 && es * 8 == et->getIntegerBitWidth();
    std::vector<const Value *> st; std::vector<const LoadInst *> lds; std::vector<const Value *> wl{al}; std::set<const Value *> seen;
    while (ok && !wl.empty()) {
      const Value *p = wl.back(); wl.pop_back(); if (!seen.insert(p).second) continue;
      for (auto *u : p->users()) {
        if (auto *g = dyn_cast<GetElementPtrInst>(u)) {
          APInt off(64, 0);
          if (g->accumulateConstantOffset(DL, off)) { if (off.getSExtValue() % (int64_t)es) { ok = false; break; } }
          else if (g->getSourceElementType() != et && !(g->getSourceElementType() == at)) { ok = false; break; }
          wl.push_back(g);
        } else if (auto *l = dyn_cast<LoadInst>(u)) { if (l->getType() != et) { ok = false; break; } lds.push_back(l); }
        else if (auto *s = dyn_cast<StoreInst>(u)) { if (s->getValueOperand() == p || s->getValueOperand()->getType() != et) { ok = false; break; } st.push_back(s->getValueOperand()); }
        else if (auto *ms = dyn_cast<MemSetInst>(u)) { auto *k = dyn_cast<ConstantInt>(ms->getValue()); if (!k || !k->isZero()) { ok = false; break; } }
        else if (auto *ii = dyn_cast<IntrinsicInst>(u)) { if (!ii->isLifetimeStartOrEnd()) { ok = false; break; } }
        else { ok = false; break; }
      }
    }
    if (ok) { arr[al] = {0, st}; for (auto *l : lds) arrLoad[l] = al; }
  }
  auto up = [](uint64_t m) { while (m & (m + 1)) m |= m >> 1; return m; };
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto &B : *F) for (auto &In : B) {
      if (!In.getType()->isIntegerTy() || In.getType()->getIntegerBitWidth() > 64) continue;
      unsigned w = In.getType()->getIntegerBitWidth(); uint64_t full = w >= 64 ? ~0ull : ((1ull << w) - 1), m = full;
      auto op = [&](unsigned k) { return mayBits(In.getOperand(k)); };
      auto wide = [&](unsigned k) { return In.getOperand(k)->getType()->isIntegerTy() && In.getOperand(k)->getType()->getIntegerBitWidth() <= 64; };
      auto *k1 = In.getNumOperands() > 1 ? dyn_cast<ConstantInt>(In.getOperand(1)) : nullptr;
      switch (In.getOpcode()) {
      case Instruction::Load: { auto it = arrLoad.find(cast<LoadInst>(&In)); if (it != arrLoad.end()) { m = 0; for (auto *v : arr[it->second].second) m |= mayBits(v); } break; }
      case Instruction::PHI: m = 0; for (auto &o : cast<PHINode>(In).incoming_values()) m |= mayBits(o); break;
      case Instruction::Select: m = op(1) | op(2); break;
      case Instruction::And: m = op(0) & op(1); break;
      case Instruction::Or: case Instruction::Xor: m = op(0) | op(1); break;
      case Instruction::Shl: if (k1 && k1->getZExtValue() < w) m = (op(0) << k1->getZExtValue()) & full; break;
      case Instruction::LShr: m = up(op(0)); if (k1 && k1->getZExtValue() < w) m = op(0) >> k1->getZExtValue(); break;
      case Instruction::UDiv: m = up(op(0)); break;
      case Instruction::URem: m = up(op(0)) & up(op(1)); break;
      case Instruction::Add: { uint64_t a = up(op(0) | op(1)); m = (a == ~0ull ? a : ((a << 1) | 1)) & full; if (!op(0)) m = op(1); if (!op(1)) m = op(0); break; }
      case Instruction::ZExt: case Instruction::Freeze: if (wide(0)) m = op(0); break;
      case Instruction::Trunc: if (wide(0)) m = op(0) & full; break;
      default: break;
      }
      uint64_t &cur = may1[&In]; if ((cur | m) != cur) { cur |= m; ch = true; }
    }
  }
  ch = true;
  while (ch) {
    ch = false;
    for (auto &B : *F) for (auto &In : B) {
      if (!In.getType()->isIntegerTy() || fromMem.count(&In)) continue;
      bool d = isa<LoadInst>(In);
      if (isa<PHINode>(In) || isa<BinaryOperator>(In) || isa<CastInst>(In) || isa<SelectInst>(In) || isa<FreezeInst>(In)) for (auto &o : In.operands()) if (fromMem.count(o) && !o->getType()->isIntegerTy(1)) d = true;
      if (d && !isa<PtrToIntInst>(In)) { fromMem.insert(&In); ch = true; }
    }
  }
}

void Absint::prepare() {
  knownBits();
  std::map<const Value *, int> pureMemo; // 1 pure, 0 impure, 2 in progress
  std::function<bool(const Value *)> pure = [&](const Value *v) -> bool {
    if (isa<Constant>(v) || isa<Argument>(v) || rel.count(v)) return true;
    auto *I = dyn_cast<Instruction>(v); if (!I) return false;
    if (isI1(v) && isa<ICmpInst>(v) && v->hasNUsesOrMore(2)) return true; // a truth value used more than once is worth tracking
    auto it = pureMemo.find(v); if (it != pureMemo.end()) return it->second != 0;
    pureMemo[v] = 2;
    bool r = true;
    if (isa<LoadInst>(I) || isa<ExtractElementInst>(I) || isa<ExtractValueInst>(I)) r = false;
    else if (auto *c = dyn_cast<CallBase>(I)) { r = true; for (auto &a : c->args()) if (!isIntOrPtr(a) || !pure(a)) r = false; if (c->arg_size() == 0) r = false; }
    else for (auto &o : I->operands()) { if (isa<BasicBlock>(o)) continue; if (!isIntOrPtr(o) || !pure(o)) { r = false; break; } }
    pureMemo[v] = r ? 1 : 0;
    return r;
  };
  std::deque<const Value *> wl;
  auto mark = [&](const Value *v) { if (isa<Constant>(v) || !isIntOrPtr(v)) return; if (isa<AllocaInst>(v) || (isa<Argument>(v) && v->getType()->isPointerTy())) return; if (rel.insert(v).second) wl.push_back(v); };
  for (auto *v : forceRel) mark(v);
  for (auto &A : F->args()) mark(&A);
  if (!lean) for (auto &B : *F) for (auto &I : B) {
    if (I.getType()->isPointerTy()) mark(&I);
    if (auto *g = dyn_cast<GetElementPtrInst>(&I)) for (auto &o : g->operands()) mark(o);
    if (auto *m = dyn_cast<MemIntrinsic>(&I)) mark(m->getLength());
    if (isa<ReturnInst>(&I) && I.getNumOperands()) mark(I.getOperand(0));
    if (auto *s = dyn_cast<StoreInst>(&I)) if (s->getValueOperand()->getType()->isIntegerTy(32)) {
      // values stored at a constant offset of a buffer (headers)
      APInt off(64, 0);
      if (isa<Argument>(s->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true))) mark(s->getValueOperand());
    }
  }
  std::set<const Value *> condSeen;
  std::function<void(const Value *)> markCond = [&](const Value *c) {
    if (isa<Constant>(c) || !condSeen.insert(c).second) return;
    if (auto *ic = dyn_cast<ICmpInst>(c)) {
      const Value *a = ic->getOperand(0), *b = ic->getOperand(1);
      if (!isIntOrPtr(a)) return;
      if (a->getType()->isPointerTy()) return;
      bool in = (!isa<Constant>(a) && (rel.count(a) || pure(a))) || (!isa<Constant>(b) && (rel.count(b) || pure(b)));
      if (in) { mark(a); mark(b); } else condSeen.erase(c);
      return;
    }
    if (isa<PHINode>(c)) { mark(c); for (auto &o : cast<PHINode>(c)->incoming_values()) markCond(o); return; }
    if (auto *I = dyn_cast<Instruction>(c)) if (isa<BinaryOperator>(I) || isa<SelectInst>(I) || isa<FreezeInst>(I)) for (auto &o : I->operands()) if (isI1(o)) markCond(o);
    if (auto *t = dyn_cast<TruncInst>(c)) { if (rel.count(t->getOperand(0)) || pure(t->getOperand(0))) mark(t->getOperand(0)); else condSeen.erase(c); }
  };
  size_t last;
  do {
    last = rel.size(); pureMemo.clear();
    while (!wl.empty()) {
      const Value *v = wl.front(); wl.pop_front();
      auto *I = dyn_cast<Instruction>(v); if (!I) continue;
      if (isa<LoadInst>(I)) continue;
      if (auto *ii = dyn_cast<IntrinsicInst>(I)) { auto id = ii->getIntrinsicID(); if ((id == Intrinsic::cttz || id == Intrinsic::ctlz || id == Intrinsic::ctpop) && fromMem.count(ii->getArgOperand(0))) continue; }
      if (isI1(I) && !isa<PHINode>(I)) { markCond(I); continue; }
      if (auto *s = dyn_cast<SelectInst>(I)) { markCond(s->getCondition()); mark(s->getTrueValue()); mark(s->getFalseValue()); continue; }
      for (auto &o : I->operands()) { if (isa<BasicBlock>(o)) continue; if (isI1(o)) markCond(o); mark(o); }
    }
    for (auto &B : *F) { auto *t = B.getTerminator(); if (auto *br = dyn_cast<BranchInst>(t)) { if (br->isConditional()) markCond(br->getCondition()); } else if (auto *sw = dyn_cast<SwitchInst>(t)) { if (rel.count(sw->getCondition()) || pure(sw->getCondition())) mark(sw->getCondition()); } }
  } while (rel.size() != last || !wl.empty());
  // i1 instructions are lazily evaluated; opaque ones with several uses get a 0/1 symbol
  for (auto &B : *F) for (auto &I : B) if (isI1(&I) && !isa<PHINode>(I)) {
    bool opaque = false;
    if (auto *ic = dyn_cast<ICmpInst>(&I)) opaque = !(isIntOrPtr(ic->getOperand(0)) && !ic->getOperand(0)->getType()->isPointerTy() && (isa<Constant>(ic->getOperand(0)) || rel.count(ic->getOperand(0))) && (isa<Constant>(ic->getOperand(1)) || rel.count(ic->getOperand(1))));
    else if (isa<BinaryOperator>(I) || isa<SelectInst>(I) || isa<FreezeInst>(I)) opaque = false;
    else if (isa<TruncInst>(I)) opaque = !rel.count(I.getOperand(0));
    else opaque = true;
    rel.erase(&I);
    if (opaque && I.hasNUsesOrMore(2)) { opaqueMulti.insert(&I); rel.insert(&I); }
  }
  // values that only depend on arguments and constants are not state
  for (bool again = true; again;) {
    again = false;
    for (auto &B : *F) for (auto &I : B) {
      if (remat.count(&I) || !rel.count(&I)) continue;
      auto base = [&](const Value *v) { return isa<Constant>(v) || isa<Argument>(v) || isa<AllocaInst>(v) || remat.count(v); };
      bool r = false;
      if (isa<ZExtInst>(I) && !isI1(I.getOperand(0))) r = base(I.getOperand(0)) && isIntOrPtr(I.getOperand(0));
      else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) r = g->hasAllConstantIndices() && base(g->getPointerOperand());
      if (r) { remat.insert(&I); again = true; }
    }
  }
  for (auto *v : remat) rel.erase(v);
  // liveness (extended: the use of a lazily evaluated i1 is a use of its operands)
  std::function<void(const Value *, std::set<const Value *> &)> useVal = [&](const Value *v, std::set<const Value *> &s) {
    if (isa<Constant>(v) || remat.count(v)) return;
    if (rel.count(v)) { s.insert(v); if (!opaqueMulti.count(v)) return; return; }
    if (isI1(v)) if (auto *I = dyn_cast<Instruction>(v)) {
      if (auto *ic = dyn_cast<ICmpInst>(I)) { for (auto &o : ic->operands()) if (rel.count(o)) s.insert(o); }
      else if (isa<BinaryOperator>(I) || isa<SelectInst>(I) || isa<FreezeInst>(I)) { for (auto &o : I->operands()) useVal(o, s); }
      else if (isa<TruncInst>(I)) { if (rel.count(I->getOperand(0))) s.insert(I->getOperand(0)); }
    }
  };
  bool ch = true;
  std::vector<const BasicBlock *> order; for (auto &B : *F) order.push_back(&B);
  while (ch) {
    ch = false;
    for (auto it = order.rbegin(); it != order.rend(); ++it) {
      const BasicBlock *B = *it;
      std::set<const Value *> live;
      for (const BasicBlock *S : successors(B)) {
        for (auto *v : liveIn[S]) { auto *p = dyn_cast<PHINode>(v); if (p && p->getParent() == S) continue; live.insert(v); }
        for (auto &p : S->phis()) if (rel.count(&p)) useVal(p.getIncomingValueForBlock(B), live);
      }
      for (auto i = B->rbegin(); i != B->rend(); ++i) {
        const Instruction *I = &*i;
        if (isa<PHINode>(I)) continue;
        live.erase(I);
        if (I->getType()->isVoidTy() || rel.count(I) || isCondUse(I) || isa<CallBase>(I) || isa<LoadInst>(I))
          for (auto &o : I->operands()) { if (isa<BasicBlock>(o)) continue; useVal(o, live); }
      }
      for (auto &p : B->phis()) if (rel.count(&p)) live.insert(&p);
      for (auto *g : ghosts) live.insert(g);
      if (live != liveIn[B]) { liveIn[B] = live; ch = true; }
    }
  }
  // keep arguments alive everywhere (sizes are needed for obligations)
  for (auto &B : *F) for (auto &A : F->args()) if (rel.count(&A) && !A.getType()->isPointerTy()) liveIn[&B].insert(&A);
  buildWTO();
}

// ---------------------------------------------------------------- basic state ops
bool Absint::add(State &s, const Lin &e) {
  bool empty = false;
  try { addCon(s.ge, e, empty); } catch (Overflow &) { return true; }
  return !empty;
}
bool Absint::addEq(State &s, const Lin &e0) {
  Lin e = e0;
  try {
    if (e.t.empty()) return e.c == 0;
    I g = 0; for (auto &p : e.t) g = igcd(g, p.second);
    if (g > 1) { if (e.c % g != 0) return false; for (auto &p : e.t) p.second /= g; e.c /= g; }
    int best = -1; I bc = 0;
    for (auto &p : e.t) if (p.second == 1 || p.second == -1) if (p.first > best) { best = p.first; bc = p.second; }
    if (best < 0) return add(s, e) && add(s, scale(e, -1));
    // bc*best + rest = 0 -> best = -rest/bc
    Lin by = e; by.t.erase(std::remove_if(by.t.begin(), by.t.end(), [&](const std::pair<int, I> &p) { return p.first == best; }), by.t.end());
    by = scale(by, -bc);
    Cons old; old.swap(s.ge);
    bool empty = false;
    for (auto &c : old) { addCon(s.ge, subst(c, best, by), empty); if (empty) return false; }
    for (auto &kv : s.env) kv.second = subst(kv.second, best, by);
  } catch (Overflow &) { return true; }
  return true;
}
Lin Absint::havoc(State &s, unsigned w, const std::string &n) {
  int y = fresh(n);
  if (w < 64) { add(s, Lin::sym(y)); Lin u = scale(Lin::sym(y), -1); u.c = pw(w) - 1; add(s, u); }
  return Lin::sym(y);
}
bool Absint::inRange(State &s, const Lin &e, I lo, I hi) {
  if (e.isConst()) return e.c >= lo && e.c <= hi;
  // quick interval
  I mn = e.c, mx = e.c; bool okl = true, okh = true;
  try {
    for (auto &p : e.t) {
      I l = 0, h = 0; bool hl = false, hh = false;
      for (auto &c : s.ge) if (c.t.size() == 1 && c.t[0].first == p.first) {
        if (c.t[0].second == 1) { I v = -c.c; if (!hl || v > l) { l = v; hl = true; } }
        else if (c.t[0].second == -1) { I v = c.c; if (!hh || v < h) { h = v; hh = true; } }
      }
      if (p.second > 0) { if (hl) mn = cadd(mn, cmul(p.second, l)); else okl = false; if (hh) mx = cadd(mx, cmul(p.second, h)); else okh = false; }
      else { if (hh) mn = cadd(mn, cmul(p.second, h)); else okl = false; if (hl) mx = cadd(mx, cmul(p.second, l)); else okh = false; }
    }
    bool L = okl && mn >= lo, H = okh && mx <= hi;
    if (!L) L = ent(s, addc(e, -lo));
    if (!L) return false;
    if (!H) H = ent(s, addc(scale(e, -1), hi));
    return H;
  } catch (Overflow &) { return false; }
}
bool Absint::fits64(State &s, const Lin &e) { return inRange(s, e, -P62, P62); }
I Absint::upper(State &s, const Lin &e, unsigned maxPow) {
  for (unsigned k = 0; k <= maxPow; k++) if (ent(s, addc(scale(e, -1), pw(k) - 1))) return k;
  return maxPow + 1;
}
Lin Absint::wrapTo(State &s, const Lin &e, unsigned w, const std::string &n, bool noWrap) {
  if (w == 64) { if (noWrap || fits64(s, e)) return e; return havoc(s, 64, n); }
  if (inRange(s, e, 0, pw(w) - 1)) return e;
  // constant quotient
  try {
    LP lp(s.ge); I n1, d1, n2, d2;
    if (lp.feas && lp.minimise(e, n1, d1) == 1 && lp.minimise(scale(e, -1), n2, d2) == 1) { I lo = -fdiv(-n1, d1), hi = fdiv(-n2, d2); if (fdiv(lo, pw(w)) == fdiv(hi, pw(w))) return addc(e, -fdiv(lo, pw(w)) * pw(w)); }
  } catch (Overflow &) {}
  // exact modulo: r = e - 2^w q
  try {
    int q = fresh(n + ".q");
    Lin r = lin_comb(e, 1, Lin::sym(q), -pw(w));
    add(s, r); add(s, addc(scale(r, -1), pw(w) - 1));
    int y = fresh(n);
    // bind a plain symbol to r to keep expressions small
    Lin d = r - Lin::sym(y);
    add(s, Lin::sym(y)); add(s, addc(scale(Lin::sym(y), -1), pw(w) - 1));
    // keep relation only if e is small enough to be informative
    if (inRange(s, e, -pw(w), 2 * pw(w))) { add(s, d); add(s, scale(d, -1)); }
    return Lin::sym(y);
  } catch (Overflow &) { return havoc(s, w, n); }
}

Lin Absint::eval(State &s, const Value *v) {
  auto it = s.env.find(v);
  if (it != s.env.end()) return it->second;
  if (auto *c = dyn_cast<ConstantInt>(v)) {
    unsigned w = c->getBitWidth();
    if (w == 64) return Lin::konst((I)c->getSExtValue());
    if (w > 64) return Lin::sym(fresh("big"));
    return Lin::konst((I)c->getZExtValue());
  }
  if (isa<ConstantPointerNull>(v)) return Lin(0);
  if (isa<AllocaInst>(v) || isa<GlobalValue>(v)) return Lin(0);
  if (auto *a = dyn_cast<Argument>(v)) if (a->getType()->isPointerTy()) { return Lin(0); }
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (ce->getType()->isPointerTy()) { APInt off(64, 0); (void)ce->stripAndAccumulateConstantOffsets(DL, off, true); return Lin::konst((I)off.getSExtValue()); }
  }
  if (remat.count(v)) {
    if (auto *z = dyn_cast<ZExtInst>(v)) return eval(s, z->getOperand(0));
    auto *g = cast<GetElementPtrInst>(v); APInt off(64, 0);
    if (g->accumulateConstantOffset(DL, off)) return addc(eval(s, g->getPointerOperand()), (I)off.getSExtValue());
  }
  unsigned w = isIntOrPtr(v) ? width(v) : 64;
  Lin l = havoc(s, w, v->hasName() ? v->getName().str() : "v");
  if (isa<Instruction>(v) || isa<Argument>(v)) s.env[v] = l;
  return l;
}

// ---------------------------------------------------------------- conditions
void Absint::cmp(State &s, CmpInst::Predicate p, const Lin &a, const Lin &b, unsigned w, States &out) {
  typedef CmpInst C;
  try {
  auto lt = [&](State st, const Lin &x, const Lin &y, I k) { if (add(st, addc(y - x, -k)) && feas(st)) out.push_back(std::move(st)); }; // x + k <= y
  if (p == C::ICMP_EQ) { State st = s; if (addEq(st, a - b) && feas(st)) out.push_back(std::move(st)); return; }
  if (p == C::ICMP_NE) {
    Lin d = a - b;
    if (d.isConst()) { if (d.c != 0) out.push_back(s); return; }
    if (ent(s, d)) { lt(s, b, a, 1); return; }
    if (ent(s, scale(d, -1))) { lt(s, a, b, 1); return; }
    out.push_back(s); return;
  }
  bool sgn = C::isSigned(p);
  if (w == 64 && !sgn) {
    // representation is signed
    bool an = ent(s, a), bn = ent(s, b);
    if (an && bn) { sgn = true; }
    else {
      // split on signs
      for (int sa = 0; sa < 2; sa++) for (int sb = 0; sb < 2; sb++) {
        State st = s;
        if (!add(st, sa ? addc(scale(a, -1), -1) : a)) continue;
        if (!add(st, sb ? addc(scale(b, -1), -1) : b)) continue;
        if (!feas(st)) continue;
        if (sa == sb) { cmp(st, C::getSignedPredicate(p), a, b, 64, out); continue; }
        // negative (as signed) is larger as unsigned
        bool aGreater = sa == 1;
        bool r = (p == C::ICMP_UGT || p == C::ICMP_UGE) ? aGreater : !aGreater;
        if (r) out.push_back(st);
      }
      return;
    }
  }
  if (w < 64 && sgn) {
    I h = pw(w - 1);
    auto sign = [&](const Lin &x) { if (inRange(s, x, 0, h - 1)) return 0; if (ent(s, addc(x, -h))) return 1; return 2; };
    int sa = sign(a), sb = sign(b);
    for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) {
      if ((sa != 2 && sa != x) || (sb != 2 && sb != y)) continue;
      State st = s;
      if (sa == 2 && !add(st, x ? addc(a, -h) : addc(scale(a, -1), h - 1))) continue;
      if (sb == 2 && !add(st, y ? addc(b, -h) : addc(scale(b, -1), h - 1))) continue;
      if ((sa == 2 || sb == 2) && !feas(st)) continue;
      Lin A = x ? addc(a, -pw(w)) : a, B = y ? addc(b, -pw(w)) : b;
      cmp(st, p, A, B, 65, out);
    }
    return;
  }
  switch (p) {
  case C::ICMP_SLT: case C::ICMP_ULT: lt(s, a, b, 1); break;
  case C::ICMP_SLE: case C::ICMP_ULE: lt(s, a, b, 0); break;
  case C::ICMP_SGT: case C::ICMP_UGT: lt(s, b, a, 1); break;
  case C::ICMP_SGE: case C::ICMP_UGE: lt(s, b, a, 0); break;
  default: out.push_back(s);
  }
  } catch (Overflow &) { out.push_back(s); }
}

void Absint::assume(State &s, const Value *c, bool v, States &out) {
  if (auto *k = dyn_cast<ConstantInt>(c)) { if (k->isOne() == v) out.push_back(s); return; }
  if (isa<UndefValue>(c)) { out.push_back(s); return; }
  if (opaqueMulti.count(c) || isa<PHINode>(c)) {
    if (!rel.count(c)) { out.push_back(s); return; }
    State st = s; Lin e = eval(st, c);
    if (addEq(st, addc(e, v ? -1 : 0)) && feas(st)) out.push_back(std::move(st));
    return;
  }
  if (auto *ic = dyn_cast<ICmpInst>(c)) {
    const Value *a = ic->getOperand(0), *b = ic->getOperand(1);
    if (!isIntOrPtr(a)) { out.push_back(s); return; }
    if (a->getType()->isPointerTy()) {
      if (isa<ConstantPointerNull>(a) || isa<ConstantPointerNull>(b)) { out.push_back(s); return; }
      const Value *x = baseOf(a), *y = baseOf(b);
      if (!x || x != y) { out.push_back(s); return; }
      Lin A = eval(s, a), B = eval(s, b);
      auto p = v ? ic->getPredicate() : ic->getInversePredicate();
      cmp(s, p, A, B, 65, out); return;
    }
    bool ta = isa<Constant>(a) || tracked(a), tb = isa<Constant>(b) || tracked(b);
    if (!ta || !tb) { out.push_back(s); return; }
    Lin A = eval(s, a), B = eval(s, b);
    auto p = v ? ic->getPredicate() : ic->getInversePredicate();
    cmp(s, p, A, B, width(a), out);
    return;
  }
  if (auto *fr = dyn_cast<FreezeInst>(c)) { assume(s, fr->getOperand(0), v, out); return; }
  if (auto *bo = dyn_cast<BinaryOperator>(c)) {
    const Value *a = bo->getOperand(0), *b = bo->getOperand(1);
    unsigned op = bo->getOpcode();
    if (op == Instruction::Xor) {
      if (auto *k = dyn_cast<ConstantInt>(b)) { assume(s, a, v != k->isOne(), out); return; }
      States t; assume(s, a, true, t); for (auto &x : t) assume(x, b, !v, out);
      t.clear(); assume(s, a, false, t); for (auto &x : t) assume(x, b, v, out); return;
    }
    if (op == Instruction::And || op == Instruction::Or) {
      bool conj = (op == Instruction::And) == v; // both must equal v
      States t; assume(s, a, v, t);
      if (conj) { for (auto &x : t) assume(x, b, v, out); }
      else { for (auto &x : t) out.push_back(x); t.clear(); assume(s, a, !v, t); for (auto &x : t) assume(x, b, v, out); }
      return;
    }
  }
  if (auto *se = dyn_cast<SelectInst>(c)) {
    States t; assume(s, se->getCondition(), true, t); for (auto &x : t) assume(x, se->getTrueValue(), v, out);
    t.clear(); assume(s, se->getCondition(), false, t); for (auto &x : t) assume(x, se->getFalseValue(), v, out);
    return;
  }
  if (auto *tr = dyn_cast<TruncInst>(c)) if (tracked(tr->getOperand(0))) {
    State st = s; Lin e = eval(st, tr->getOperand(0));
    if (inRange(st, e, 0, 1)) { if (addEq(st, addc(e, v ? -1 : 0)) && feas(st)) out.push_back(std::move(st)); return; }
    // lowest bit
    int q = fresh("lsb.q"); Lin d = lin_comb(e, 1, Lin::sym(q), -2); d = addc(d, v ? -1 : 0);
    if (addEq(st, d) && feas(st)) out.push_back(std::move(st));
    return;
  }
  out.push_back(s);
}

void Absint::oblige(const Instruction *I, const std::string &kind, State &s, bool ok, const std::function<std::string()> &detail) {
  if (!recording) return;
  auto key = std::make_pair(I, kind);
  auto it = obls.find(key);
  if (it == obls.end()) it = obls.emplace(key, Obligation{I, kind, true, "", 0}).first;
  it->second.visits++;
  if (!ok && it->second.ok) { it->second.ok = false; it->second.detail = detail(); }
}

// ---------------------------------------------------------------- transfer
void Absint::transfer(State &&s, const Instruction *In, States &out) {
  nSteps++;
  auto set = [&](const Lin &l) { s.env[In] = l; };
  std::string nm = In->hasName() ? In->getName().str() : "t";
  auto access = [&](const Value *ptr, const Lin &len, bool write) {
    if (!onAccess) return;
    Lin off = eval(s, ptr);
    onAccess(*this, s, In, baseOf(ptr), off, len, write);
  };
  try {
  if (auto *ld = dyn_cast<LoadInst>(In)) {
    s.env.erase(In);
    access(ld->getPointerOperand(), Lin::konst((I)DL.getTypeStoreSize(ld->getType()).getFixedValue()), false);
    if (kill) { kill = false; return; }
    if (tracked(In) && !s.env.count(In)) set(havoc(s, width(In), nm));
    out.push_back(std::move(s)); return;
  }
  if (auto *st = dyn_cast<StoreInst>(In)) {
    access(st->getPointerOperand(), Lin::konst((I)DL.getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue()), true);
    if (kill) { kill = false; return; }
    out.push_back(std::move(s)); return;
  }
  if (auto *ms = dyn_cast<MemIntrinsic>(In)) {
    Lin len = eval(s, ms->getLength());
    if (auto *mt = dyn_cast<MemTransferInst>(In)) access(mt->getSource(), len, false);
    access(ms->getDest(), len, true);
    if (kill) { kill = false; return; }
    out.push_back(std::move(s)); return;
  }
  if (auto *cb = dyn_cast<CallBase>(In)) {
    auto *ii = dyn_cast<IntrinsicInst>(In);
    if (ii) {
      switch (ii->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::prefetch: case Intrinsic::assume: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl:
        out.push_back(std::move(s)); return;
      case Intrinsic::cttz: case Intrinsic::ctlz: case Intrinsic::ctpop:
        if (tracked(In)) {
          unsigned w = width(In); Lin r = Lin::sym(fresh(nm)); add(s, r);
          I ub = w;
          const Value *x = ii->getArgOperand(0);
          if (ii->getIntrinsicID() == Intrinsic::cttz) {
            bool zp = cast<ConstantInt>(ii->getArgOperand(1))->isOne();
            if (zp) ub = w - 1;
            // strip zext: argument zero-extended from narrower value
            if (tracked(x)) {
              Lin e = eval(s, x);
              // cttz(~m) = trailing ones of m : 2^cto <= m+1
              const Value *y = x; while (isa<ZExtInst>(y) || isa<FreezeInst>(y)) y = cast<Instruction>(y)->getOperand(0);
              unsigned yw = width(y);
              if (auto *bo = dyn_cast<BinaryOperator>(y)) if (bo->getOpcode() == Instruction::Xor) if (auto *k = dyn_cast<ConstantInt>(bo->getOperand(1))) if (k->isMinusOne() && tracked(bo->getOperand(0)) && yw < 64) {
                Lin m = eval(s, bo->getOperand(0));
                // floor(log2(max(m)+1))
                for (unsigned kk = 0; kk <= yw; kk++) if (ent(s, addc(scale(m, -1), pw(kk + 1) - 2))) { if ((I)kk < ub) ub = kk; break; }
              }
              bool nonneg = w < 64 || ent(s, e);
              if (nonneg && (zp || ent(s, addc(e, -1)))) { I k = upper(s, e, w); if (k >= 1 && k - 1 < ub) ub = k - 1; }
            }
          }
          { uint64_t mb = mayBits(x); int msb = mb ? 63 - __builtin_clzll(mb) : 0;
            if (ii->getIntrinsicID() == Intrinsic::cttz && cast<ConstantInt>(ii->getArgOperand(1))->isOne() && msb < ub) ub = msb;
            if (ii->getIntrinsicID() == Intrinsic::ctpop && __builtin_popcountll(mb) < ub) ub = __builtin_popcountll(mb);
            if (ii->getIntrinsicID() == Intrinsic::ctlz) { add(s, addc(r, -(I)((int)w - 1 - msb))); if (cast<ConstantInt>(ii->getArgOperand(1))->isOne()) ub = w - 1;
              if (tracked(x)) { Lin e = eval(s, x); for (int k = (int)w - 1; k >= 0; k--) if (ent(s, addc(e, -pw(k)))) { if ((I)(w - 1 - k) < ub) ub = w - 1 - k; break; } } } }
          add(s, addc(scale(r, -1), ub));
          set(r);
        }
        out.push_back(std::move(s)); return;
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
        if (tracked(In)) {
          Intrinsic::ID id = ii->getIntrinsicID();
          bool sg = id == Intrinsic::smin || id == Intrinsic::smax, mn = id == Intrinsic::umin || id == Intrinsic::smin;
          Lin a = eval(s, ii->getArgOperand(0)), b = eval(s, ii->getArgOperand(1));
          States t; cmp(s, sg ? CmpInst::ICMP_SLE : CmpInst::ICMP_ULE, a, b, width(In), t);
          for (auto &x : t) { x.env[In] = mn ? a : b; out.push_back(x); }
          t.clear(); cmp(s, sg ? CmpInst::ICMP_SGT : CmpInst::ICMP_UGT, a, b, width(In), t);
          for (auto &x : t) { x.env[In] = mn ? b : a; out.push_back(x); }
          return;
        }
        out.push_back(std::move(s)); return;
      default: break;
      }
      StringRef n = ii->getCalledFunction()->getName();
      if (n.contains("pmovmskb.128")) { if (tracked(In)) { Lin r = Lin::sym(fresh(nm)); add(s, r); add(s, addc(scale(r, -1), 65535)); set(r); } out.push_back(std::move(s)); return; }
    }
    if (onCall) onCall(*this, s, cb);
    if (kill) { kill = false; return; }
    if (tracked(In) && isIntOrPtr(In)) set(havoc(s, width(In), nm));
    out.push_back(std::move(s)); return;
  }
  if (opaqueMulti.count(In)) { Lin r = Lin::sym(fresh(nm)); add(s, r); add(s, addc(scale(r, -1), 1)); set(r); out.push_back(std::move(s)); return; }
  if (!tracked(In) || remat.count(In)) { out.push_back(std::move(s)); return; }
  if (auto *g = dyn_cast<GetElementPtrInst>(In)) {
    Lin r = eval(s, g->getPointerOperand());
    for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
      const Value *ix = gi.getOperand();
      if (StructType *ST = gi.getStructTypeOrNull()) { r = addc(r, (I)DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()).getFixedValue()); continue; }
      I sz = (I)DL.getTypeAllocSize(gi.getIndexedType()).getFixedValue();
      Lin e;
      if (auto *k = dyn_cast<ConstantInt>(ix)) e = Lin::konst((I)k->getSExtValue());
      else {
        e = eval(s, ix); unsigned w = width(ix);
        if (w < 64) { if (!inRange(s, e, 0, pw(w - 1) - 1)) e = havoc(s, 64, nm + ".ix"); }
      }
      r = lin_comb(r, 1, e, sz);
    }
    set(r); out.push_back(std::move(s)); return;
  }
  if (auto *c = dyn_cast<CastInst>(In)) {
    const Value *o = c->getOperand(0);
    switch (c->getOpcode()) {
    case Instruction::ZExt:
      if (isI1(o)) { for (int b = 0; b < 2; b++) { States t; assume(s, o, b, t); for (auto &x : t) { x.env[In] = Lin(b); out.push_back(x); } } return; }
      set(eval(s, o)); break;
    case Instruction::SExt: {
      if (isI1(o)) { for (int b = 0; b < 2; b++) { States t; assume(s, o, b, t); for (auto &x : t) { x.env[In] = width(In) == 64 ? Lin(b ? -1 : 0) : Lin::konst(b ? pw(width(In)) - 1 : 0); out.push_back(x); } } return; }
      unsigned w = width(o); Lin e = eval(s, o); I h = pw(w - 1);
      if (inRange(s, e, 0, h - 1)) { set(e); break; }
      I sh = width(In) == 64 ? -pw(w) : pw(width(In)) - pw(w);
      if (ent(s, addc(e, -h))) { set(addc(e, sh)); break; }
      State t = s;
      if (add(t, addc(scale(e, -1), h - 1)) && feas(t)) { t.env[In] = e; out.push_back(t); }
      if (add(s, addc(e, -h)) && feas(s)) { s.env[In] = addc(e, sh); out.push_back(std::move(s)); }
      return; }
    case Instruction::Trunc: {
      if (isI1(In)) break;
      Lin e = eval(s, o); set(wrapTo(s, e, width(In), nm, false)); break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
      if (isIntOrPtr(o) && width(o) == 64 && width(In) == 64) { set(eval(s, o)); break; }
      [[fallthrough]];
    default: set(havoc(s, width(In), nm));
    }
    out.push_back(std::move(s)); return;
  }
  if (auto *bo = dyn_cast<BinaryOperator>(In)) {
    if (isI1(In)) { out.push_back(std::move(s)); return; }
    unsigned w = width(In);
    Lin a = eval(s, bo->getOperand(0)), b = eval(s, bo->getOperand(1));
    auto sc = [&](Lin x) { if (w < 64 && x.isConst() && x.c >= pw(w - 1)) x.c -= pw(w); return x; };
    bool nsw = false; if (auto *ob = dyn_cast<OverflowingBinaryOperator>(In)) nsw = ob->hasNoSignedWrap();
    auto nn = [&](const Lin &x) { return w < 64 || ent(s, x); };
    switch (bo->getOpcode()) {
    case Instruction::Add: case Instruction::Sub:
      if (w == 32) {
        bool sub = bo->getOpcode() == Instruction::Sub;
        Lin e = sub ? (b.isConst() ? a - sc(b) : a - b) : (b.isConst() ? a + sc(b) : (a.isConst() ? sc(a) + b : a + b));
        if (!inRange(s, e, 0, pw(w) - 1)) try {
          LP lp(s.ge); I n1, d1, n2, d2;
          if (lp.feas && lp.minimise(e, n1, d1) == 1 && lp.minimise(scale(e, -1), n2, d2) == 1) {
            I lo = -fdiv(-n1, d1), hi = fdiv(-n2, d2), q0 = fdiv(lo, pw(w)), q1 = fdiv(hi, pw(w));
            if (q1 - q0 == 1) { // may or may not wrap once: one state each
              State t = s;
              if (add(t, addc(scale(e, -1), q1 * pw(w) - 1)) && feas(t)) { t.env[In] = addc(e, -q0 * pw(w)); out.push_back(std::move(t)); }
              if (add(s, addc(e, -q1 * pw(w))) && feas(s)) { s.env[In] = addc(e, -q1 * pw(w)); out.push_back(std::move(s)); }
              return;
            }
          }
        } catch (Overflow &) {}
      }
      if (bo->getOpcode() == Instruction::Sub) goto doSub;
      set(wrapTo(s, w < 64 ? (b.isConst() ? a + sc(b) : (a.isConst() ? sc(a) + b : a + b)) : a + b, w, nm, nsw && w == 64)); break;
    doSub:
      // difference of two addresses of the same object stays exact
      set(wrapTo(s, w < 64 && b.isConst() ? a - sc(b) : a - b, w, nm, nsw && w == 64)); break;
    case Instruction::Mul:
      if (b.isConst()) set(wrapTo(s, scale(a, sc(b).c), w, nm, nsw && w == 64));
      else if (a.isConst()) set(wrapTo(s, scale(b, sc(a).c), w, nm, nsw && w == 64));
      else set(havoc(s, w, nm));
      break;
    case Instruction::Shl:
      if (b.isConst() && b.c >= 0 && b.c < w) set(wrapTo(s, scale(a, pw((unsigned)b.c)), w, nm, nsw && w == 64));
      else if (!b.isConst() && a.isConst() && a.c == 1 && w >= 32) {
        // 1 << b with b in a small range: nonneg
        Lin r = havoc(s, w, nm); if (inRange(s, b, 0, w - 2)) { add(s, addc(r, -1)); }
        for (unsigned kb = 1; kb + 2 <= w; kb++) if (inRange(s, b, 0, kb)) { add(s, addc(scale(r, -1), pw(kb))); break; }
        set(r);
      } else if (!b.isConst() && nn(a)) {
        Lin r = havoc(s, w, nm); unsigned ka = (unsigned)upper(s, a, w);
        if (ka < w) for (unsigned kb = 0; ka + kb < w && kb < 64; kb++) if (inRange(s, b, 0, kb)) { add(s, r); add(s, addc(scale(r, -1), (pw(ka) - 1) * pw(kb))); break; }
        set(r);
      } else set(havoc(s, w, nm));
      break;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::LShr: case Instruction::AShr: {
      I d = 0;
      if (b.isConst()) { if (bo->getOpcode() == Instruction::LShr || bo->getOpcode() == Instruction::AShr) { if (b.c >= 0 && b.c < w) d = pw((unsigned)b.c); } else d = b.c; }
      bool shrArith = bo->getOpcode() == Instruction::AShr && w == 64;
      bool sdiv = bo->getOpcode() == Instruction::SDiv || bo->getOpcode() == Instruction::AShr;
      bool okpos = sdiv && w < 64 ? inRange(s, a, 0, pw(w - 1) - 1) : nn(a);
      if (d > 0 && (shrArith || okpos)) {
        if (d == 1) { set(a); break; }
        if (a.isConst()) { set(Lin::konst(fdiv(a.c, d))); break; }
        Lin q = Lin::sym(fresh(nm));
        Lin r = lin_comb(a, 1, q, -d);
        add(s, r); add(s, addc(scale(r, -1), d - 1));
        if (!shrArith) add(s, q);
        set(q);
      } else {
        Lin q = havoc(s, w, nm);
        if (bo->getOpcode() == Instruction::LShr || bo->getOpcode() == Instruction::UDiv) { if (nn(a)) { add(s, q); add(s, a - q); } }
        set(q);
      }
      break; }
    case Instruction::URem: case Instruction::SRem: {
      bool okpos = bo->getOpcode() == Instruction::SRem && w < 64 ? inRange(s, a, 0, pw(w - 1) - 1) : nn(a);
      if (b.isConst() && b.c > 0 && okpos) {
        I d = b.c; int q = fresh(nm + ".q"); Lin r = lin_comb(a, 1, Lin::sym(q), -d);
        add(s, Lin::sym(q)); add(s, r); add(s, addc(scale(r, -1), d - 1)); set(r);
      } else { Lin r = havoc(s, w, nm); if (okpos) { add(s, r); add(s, a - r); } set(r); }
      break; }
    case Instruction::And: {
      if (!b.isConst() && a.isConst()) std::swap(a, b);
      if (a.isConst() && b.isConst()) { I x = a.c & b.c; set(Lin::konst(x)); break; }
      if (b.isConst()) {
        I m = b.c; I full = w == 64 ? -1 : pw(w) - 1;
        I inv = w == 64 ? ~m : (full - m); // complement as nonneg if mask is ~(2^k-1)
        bool addr = carriesAddress(bo->getOperand(0)) || carriesAddress(bo->getOperand(1));
        if (m >= 0 && ((m + 1) & m) == 0) { // 2^k - 1
          if (addr || (m >= pw(31) && !inRange(s, a, 0, m))) { Lin r = Lin::sym(fresh(nm)); add(s, r); add(s, addc(scale(r, -1), m)); set(r); break; }
          if (inRange(s, a, 0, m)) { set(a); break; }
          int q = fresh(nm + ".q"); Lin r = lin_comb(a, 1, Lin::sym(q), -(m + 1)); add(s, r); add(s, addc(scale(r, -1), m));
          if (nn(a)) add(s, Lin::sym(q));
          set(r); break;
        }
        if (inv >= 0 && ((inv + 1) & inv) == 0) { // ~(2^k - 1)
          if (addr) { Lin r = Lin::sym(fresh(nm)); add(s, a - r); add(s, addc(r - a, inv)); set(r); break; }
          int q = fresh(nm + ".q"); Lin r = scale(Lin::sym(q), inv + 1); Lin d = a - r; add(s, d); add(s, addc(scale(d, -1), inv));
          if (nn(a)) add(s, Lin::sym(q));
          set(r); break;
        }
        if (m >= 0) {
          Lin r = Lin::sym(fresh(nm)); add(s, r); add(s, addc(scale(r, -1), m));
          if (nn(a)) add(s, a - r);
          if ((m & (m - 1)) == 0) { /* single bit: r in {0,m} */ int q = fresh(nm + ".b"); add(s, Lin::sym(q)); add(s, addc(scale(Lin::sym(q), -1), 1)); Lin rr = scale(Lin::sym(q), m); set(rr); break; }
          set(r); break;
        }
        Lin r = havoc(s, w, nm); if (nn(a)) { add(s, r); add(s, a - r); } set(r); break;
      }
      Lin r = havoc(s, w, nm);
      if (nn(a)) { add(s, r); add(s, a - r); }
      if (nn(b)) { add(s, r); add(s, b - r); }
      set(r); break; }
    case Instruction::Or: case Instruction::Xor: {
      if (bo->getOpcode() == Instruction::Xor && b.isConst() && b.c == (w == 64 ? (I)-1 : pw(w) - 1)) { set(addc(scale(a, -1), b.c)); break; }
      if (a.isConst() && b.isConst()) { set(Lin::konst(bo->getOpcode() == Instruction::Or ? (a.c | b.c) : (a.c ^ b.c))); break; }
      if (a.isConst() && a.c == 0) { set(b); break; }
      if (b.isConst() && b.c == 0) { set(a); break; }
      Lin r = havoc(s, w, nm);
      if (nn(a) && nn(b)) { add(s, r); add(s, (a + b) - r); if (bo->getOpcode() == Instruction::Or) { add(s, r - a); add(s, r - b); } unsigned ka = (unsigned)upper(s, a, w), kb = (unsigned)upper(s, b, w); if (std::max(ka, kb) < w) add(s, addc(scale(r, -1), pw(std::max(ka, kb)) - 1)); }
      set(r); break; }
    default: set(havoc(s, w, nm));
    }
    out.push_back(std::move(s)); return;
  }
  if (auto *se = dyn_cast<SelectInst>(In)) {
    if (isI1(In)) { out.push_back(std::move(s)); return; }
    Lin a = eval(s, se->getTrueValue()), b = eval(s, se->getFalseValue());
    if (a == b) { set(a); out.push_back(std::move(s)); return; }
    States t; assume(s, se->getCondition(), true, t); for (auto &x : t) { x.env[In] = eval(x, se->getTrueValue()); out.push_back(x); }
    t.clear(); assume(s, se->getCondition(), false, t); for (auto &x : t) { x.env[In] = eval(x, se->getFalseValue()); out.push_back(x); }
    return;
  }
  if (isa<FreezeInst>(In)) { set(eval(s, In->getOperand(0))); out.push_back(std::move(s)); return; }
  if (isa<ICmpInst>(In)) { out.push_back(std::move(s)); return; }
  if (isIntOrPtr(In)) { if (!isa<AllocaInst>(In)) set(havoc(s, width(In), nm)); }
  out.push_back(std::move(s));
  } catch (Overflow &) {
    if (isIntOrPtr(In) && tracked(In)) s.env[In] = havoc(s, width(In), nm);
    out.push_back(std::move(s));
  }
}

// drop what is dead at the entry of `to`
void Absint::trim(State &s, const BasicBlock *to, const std::vector<const Value *> *) {
  auto &live = liveIn[to];
  for (auto it = s.env.begin(); it != s.env.end();) if (!live.count(it->first)) it = s.env.erase(it); else ++it;
  std::set<int> used; for (auto &e : s.env) for (auto &p : e.second.t) used.insert(p.first);
  bool ch = true;
  while (ch) {
    ch = false;
    std::map<int, std::pair<int, int>> cnt;
    for (auto &c : s.ge) for (auto &p : c.t) if (!used.count(p.first)) { auto &k = cnt[p.first]; if (p.second > 0) k.first++; else k.second++; }
    for (auto &k : cnt) {
      long np = k.second.first, nn = k.second.second;
      if (np * nn <= np + nn + 1) { try { eliminate(s.ge, k.first); ch = true; break; } catch (Overflow &) {
          // drop every constraint mentioning it
          s.ge.erase(std::remove_if(s.ge.begin(), s.ge.end(), [&](const Lin &l) { return l.coef(k.first) != 0; }), s.ge.end()); ch = true; break; } }
    }
  }
  if (s.ge.size() > 40) reduceCons(s.ge);
}

void Absint::toEdge(const State &s0, const BasicBlock *from, const BasicBlock *to) {
  States work{s0};
  // phis (simultaneous); i1 incoming conditions may split
  std::vector<const PHINode *> ph; for (auto &p : to->phis()) if (rel.count(&p)) ph.push_back(&p);
  struct WS { State s; std::vector<Lin> v; };
  std::vector<WS> ws{{s0, {}}};
  for (auto *p : ph) {
    const Value *in = p->getIncomingValueForBlock(from);
    std::vector<WS> nx;
    for (auto &w : ws) {
      if (isI1(p) && !isa<Constant>(in) && !rel.count(in)) {
        for (int b = 0; b < 2; b++) { States t; assume(w.s, in, b, t); for (auto &x : t) { WS n; n.s = x; n.v = w.v; n.v.push_back(Lin(b)); nx.push_back(n); } }
      } else { WS n; n.s = w.s; n.v = w.v; n.v.push_back(eval(n.s, in)); nx.push_back(std::move(n)); }
    }
    ws.swap(nx);
  }
  auto &dst = edge[{from, to}];
  for (auto &w : ws) {
    // re-evaluate lins under substitutions made while splitting
    State st = w.s;
    for (size_t i = 0; i < ph.size(); i++) {
      const Value *in = ph[i]->getIncomingValueForBlock(from);
      if (!(isI1(ph[i]) && !isa<Constant>(in) && !rel.count(in))) w.v[i] = eval(w.s, in);
    }
    for (size_t i = 0; i < ph.size(); i++) st.env[ph[i]] = w.v[i];
    if (onEdge) onEdge(*this, st, from, to);
    trim(st, to);
    bool dup = false;
    for (auto &d : dst) if (d.env == st.env && d.ge == st.ge) { dup = true; break; }
    if (!dup) dst.push_back(std::move(st));
  }
}

void Absint::execBlock(const BasicBlock *B, States in, bool rec) {
  bool save = recording; recording = rec;
  for (auto *S : successors(B)) edge[{B, S}].clear();
  if (in.size() > maxDisj) maxDisj = in.size();
  States cur = std::move(in);
  for (auto &I : *B) {
    if (isa<PHINode>(I) || I.isTerminator()) continue;
    States nx; nx.reserve(cur.size());
    for (auto &s : cur) transfer(std::move(s), &I, nx);
    cur.swap(nx);
  }
  const Instruction *T = B->getTerminator();
  for (auto &s : cur) {
    if (auto *r = dyn_cast<ReturnInst>(T)) { if (onReturn) onReturn(*this, s, r); continue; }
    if (auto *br = dyn_cast<BranchInst>(T)) {
      if (br->isUnconditional()) { toEdge(s, B, br->getSuccessor(0)); continue; }
      for (int k = 0; k < 2; k++) { if (k == 1 && br->getSuccessor(0) == br->getSuccessor(1)) break; States t; assume(s, br->getCondition(), k == 0, t); for (auto &x : t) toEdge(x, B, br->getSuccessor(k)); }
      continue;
    }
    if (auto *sw = dyn_cast<SwitchInst>(T)) {
      if (!tracked(sw->getCondition())) { std::set<const BasicBlock *> done; for (auto *S : successors(B)) if (done.insert(S).second) toEdge(s, B, S); continue; }
      Lin e = eval(s, sw->getCondition());
      std::map<const BasicBlock *, std::vector<I>> by;
      unsigned w = width(sw->getCondition());
      auto kv = [&](const ConstantInt *c) { return w == 64 ? (I)c->getSExtValue() : (I)c->getZExtValue(); };
      for (auto &c : sw->cases()) by[c.getCaseSuccessor()].push_back(kv(c.getCaseValue()));
      for (auto &kvp : by) for (I v : kvp.second) { State t = s; if (addEq(t, addc(e, -v)) && feas(t)) toEdge(t, B, kvp.first); }
      State d = s; bool ok = true;
      for (int round = 0; round < 2 && ok; round++)
        for (auto &c : sw->cases()) { States t; cmp(d, CmpInst::ICMP_NE, e, Lin::konst(kv(c.getCaseValue())), w, t); if (t.empty()) { ok = false; break; } d = t[0]; }
      if (ok) toEdge(d, B, sw->getDefaultDest());
      continue;
    }
    for (auto *S : successors(B)) toEdge(s, B, S);
  }
  recording = save;
}

// ---------------------------------------------------------------- WTO
void Absint::buildWTO() {
  std::map<const BasicBlock *, int> dfn; std::vector<const BasicBlock *> stack; int num = 0;
  const int INF = 1 << 30;
  std::function<int(const BasicBlock *, std::vector<Elem> &)> visit;
  std::function<Elem(const BasicBlock *)> comp = [&](const BasicBlock *v) {
    Elem e; e.b = v; e.comp = true;
    std::vector<Elem> body;
    for (auto *s : successors(v)) if (dfn[s] == 0) visit(s, body);
    std::reverse(body.begin(), body.end());
    e.body = body; return e;
  };
  visit = [&](const BasicBlock *v, std::vector<Elem> &part) -> int {
    stack.push_back(v); dfn[v] = ++num; int head = dfn[v]; bool loop = false;
    for (auto *s : successors(v)) { int m = dfn[s] == 0 ? visit(s, part) : dfn[s]; if (m <= head) { head = m; loop = true; } }
    if (head == dfn[v]) {
      dfn[v] = INF; const BasicBlock *e = stack.back(); stack.pop_back();
      if (loop) { while (e != v) { dfn[e] = 0; e = stack.back(); stack.pop_back(); } part.push_back(comp(v)); }
      else { Elem x; x.b = v; x.comp = false; part.push_back(x); }
    }
    return head;
  };
  wto.clear(); visit(&F->getEntryBlock(), wto); std::reverse(wto.begin(), wto.end());
}
std::set<const BasicBlock *> Absint::blocksOf(const Elem &e) {
  std::set<const BasicBlock *> r{e.b}; for (auto &c : e.body) { auto q = blocksOf(c); r.insert(q.begin(), q.end()); } return r;
}

// ---------------------------------------------------------------- loop heads
std::vector<const Value *> Absint::headVars(const BasicBlock *h) {
  std::vector<const Value *> v; 
  for (auto *x : liveIn[h]) v.push_back(x);
  return v;
}
// ---------------------------------------------------------------- template polyhedra at loop heads
// templates: unit coefficients over at most three live variables, plus the ones given explicitly
std::vector<Absint::Tmpl> Absint::makeTemplates(const std::vector<const Value *> &ys0) {
  std::vector<Tmpl> T; std::vector<int> id; std::vector<std::pair<int, int>> gh;
  for (int a = 0; a < (int)ys0.size(); a++) { auto g = ghostKind.find(ys0[a]); if (g == ghostKind.end()) id.push_back(a); else gh.push_back({a, g->second}); }
  int n = (int)id.size();
  std::vector<char> isBool(n, 0); for (int a = 0; a < n; a++) isBool[a] = ys0[id[a]] && isI1(ys0[id[a]]);
  auto push = [&](Tmpl t) { for (auto &p : t) p.first = id[p.first]; T.push_back(t); };
  for (int a = 0; a < n; a++) for (int m = 0; m < 2; m++) push({{a, m ? 1 : -1}});
  for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) if (!isBool[a] && !isBool[b]) for (int m = 0; m < 4; m++) push({{a, m & 1 ? 1 : -1}, {b, m & 2 ? 1 : -1}});
  if (n <= maxTripleVars) for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) for (int c = b + 1; c < n; c++) if (!isBool[a] && !isBool[b] && !isBool[c]) for (int m = 1; m < 7; m++) push({{a, m & 1 ? 1 : -1}, {b, m & 2 ? 1 : -1}, {c, m & 4 ? 1 : -1}});
  if (n <= maxTripleVars) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b && !isBool[a] && !isBool[b]) for (int m = 0; m < 2; m++) push({{a, m ? 1 : -1}, {b, m ? -2 : 2}});
  if (n <= maxQuadVars) for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) for (int c = b + 1; c < n; c++) for (int d = c + 1; d < n; d++) if (!isBool[a] && !isBool[b] && !isBool[c] && !isBool[d]) for (int m = 1; m < 15; m++) if (__builtin_popcount(m) == 2) push({{a, m & 1 ? 1 : -1}, {b, m & 2 ? 1 : -1}, {c, m & 4 ? 1 : -1}, {d, m & 8 ? 1 : -1}});
  for (auto &g : gh) {
    T.push_back({{g.first, 1}});
    for (int a = 0; a < n; a++) if (!isBool[a]) {
      bool arg = argSym.count(ys0[id[a]]);
      if (g.second == 1 && !arg) continue;
      T.push_back({{g.first, 1}, {id[a], -1}});
      if (g.second == 1) T.push_back({{g.first, -1}, {id[a], 1}});
      else if (!arg) for (int b = a + 1; b < n; b++) if (!isBool[b] && !argSym.count(ys0[id[b]])) { T.push_back({{g.first, 1}, {id[a], -1}, {id[b], -1}}); }
    }
  }
  auto &ys = ys0;
  if (extraTemplates) extraTemplates(*this, ys, T);
  return T;
}
// lower bounds of the templates over one state; `only` limits the work to templates still bounded there
void Absint::bounds(const State &s0, const std::vector<const Value *> &ys, const std::vector<Tmpl> &T, Bounds &out, const Bounds *only) {
  State s = s0;
  std::vector<Lin> ex; for (auto *y : ys) ex.push_back(eval(s, y));
  out.assign(T.size(), {false, 0});
  auto dropBig = [&](Cons &c, I lim) { c.erase(std::remove_if(c.begin(), c.end(), [&](const Lin &l) { for (auto &p : l.t) if (iabs(p.second) > lim) return true; return false; }), c.end()); };
  Cons cs = s.ge; int level = 0;
  std::unique_ptr<LP> lp;
  auto build = [&]() -> bool {
    for (;; level++) { static const I lims[] = {(I)1 << 70, 4096, 16, 1}; if (level > 3) return false; if (level) dropBig(cs, lims[level]); try { lp.reset(new LP(cs)); return true; } catch (Overflow &) {} }
  };
  if (!build()) return;
  if (!lp->feas) { for (auto &o : out) o = {true, pw(100)}; return; } // empty: neutral for the join
  for (size_t k = 0; k < T.size(); k++) {
    if (only && !(*only)[k].first) continue;
    try {
      Lin e; for (auto &p : T[k]) e = lin_comb(e, 1, ex[p.first], p.second);
      if (e.isConst()) { out[k] = {true, e.c}; continue; }
      I num, den; nLP++;
      int r = lp->minimise(e, num, den);
      if (r == 1) { I c = -fdiv(-num, den); if (iabs(c) <= pw(70)) out[k] = {true, c}; }
    } catch (Overflow &) { level++; if (!build()) return; }
  }
}
void Absint::joinBounds(Bounds &a, const Bounds &b) { for (size_t k = 0; k < a.size(); k++) { if (!a[k].first) continue; if (!b[k].first) a[k] = {false, 0}; else if (b[k].second < a[k].second) a[k] = b[k]; } }
// phi = r (mod g), g a power of two, when every entry value is a constant and every step a constant
bool Absint::congruence(const PHINode *p, const std::set<const BasicBlock *> &in, I &g, I &r) {
  bool haveR = false; g = 0; r = 0; bool ok = true;
  std::set<const Value *> seen;
  std::function<void(const Value *, I)> walk = [&](const Value *v, I off) {
    if (!ok) return;
    if (v == p) { g = igcd(g, off); return; }
    if (auto *k = dyn_cast<ConstantInt>(v)) { I x = (I)k->getSExtValue() + off; if (!haveR) { r = x; haveR = true; } else g = igcd(g, x - r); return; }
    if (auto *q = dyn_cast<PHINode>(v)) { if (seen.size() > 64) { ok = false; return; } if (!seen.insert(v).second) { ok = off == 0 && ok; return; } if (off != 0) { ok = false; return; } for (auto &o : q->incoming_values()) walk(o, off); return; }
    if (auto *s = dyn_cast<SelectInst>(v)) { walk(s->getTrueValue(), off); walk(s->getFalseValue(), off); return; }
    if (auto *b = dyn_cast<BinaryOperator>(v)) if (auto *k = dyn_cast<ConstantInt>(b->getOperand(1))) {
      if (b->getOpcode() == Instruction::Add) { walk(b->getOperand(0), off + (I)k->getSExtValue()); return; }
      if (b->getOpcode() == Instruction::Sub) { walk(b->getOperand(0), off - (I)k->getSExtValue()); return; }
    }
    ok = false;
  };
  for (auto &o : p->incoming_values()) walk(o, 0);
  if (!ok || !haveR || g == 0) return false;
  I t = 1; while (g % (t * 2) == 0 && t < 4096) t *= 2;
  g = t; r = r - fdiv(r, g) * g;
  return g > 1;
}
State Absint::boundsState(const Bounds &H, const std::vector<Tmpl> &T, const std::vector<const Value *> &ys, const Cons &extra, const std::string &tag, const State *base) {
  State s; std::vector<int> sy;
  if (base) { s.ge = base->ge; s.env = base->env; } // values that do not change in the loop, with everything known about them
  for (auto *y : ys) {
    if (s.env.count(y)) continue;
    auto as = argSym.find(y);
    int k = as != argSym.end() ? as->second : fresh((y && y->hasName() ? y->getName().str() : std::string("g")) + tag);
    sy.push_back(k); s.env[y] = Lin::sym(k);
    if (!y || as != argSym.end() || ghostKind.count(y) || isI1(y)) continue;
    I g, r; uint64_t m;
    if (isa<PHINode>(y) && congruence(cast<PHINode>(y), {}, g, r)) s.env[y] = addc(scale(Lin::sym(k), g), r);
    else if (y->getType()->isIntegerTy() && (m = mayBits(y)) && (m & -m) > 1 && (m & -m) <= 4096) s.env[y] = scale(Lin::sym(k), (I)(m & -m));
  }
  auto lin = [&](size_t k) { Lin l; for (auto &p : T[k]) { Lin q = s.env[ys[p.first]]; l = lin_comb(l, 1, q, p.second); } return addc(l, -H[k].second); };
  // equalities first
  std::map<Tmpl, size_t> ix; for (size_t k = 0; k < T.size(); k++) if (H[k].first) ix[T[k]] = k;
  for (size_t k = 0; k < T.size(); k++) if (H[k].first) {
    Tmpl n = T[k]; for (auto &p : n) p.second = -p.second;
    auto it = ix.find(n); if (it == ix.end() || it->second < k) continue;
    if (H[k].second == -H[it->second].second) addEq(s, lin(k));
  }
  for (auto &c : extra) add(s, c);
  for (size_t k = 0; k < T.size(); k++) if (H[k].first) { Lin e = lin(k); if (e.isConst()) continue; if (T[k].size() == 1 || !ent(s, e)) add(s, e); }
  return s;
}

// is every valuation of a's live variables also one of b's? (finds a substitution of b's symbols; incomplete)
bool Absint::subsumed(State &a, const State &b, const Probe *pts) {
  if (a.env.size() != b.env.size()) return false;
  // points of a that violate one of b's constraints settle the question without a linear program
  if (pts && !pts->at.empty()) {
    static thread_local std::vector<std::pair<int, int>> sy; static thread_local std::vector<double> off; sy.clear(); off.clear();
    int k = 0;
    for (auto &e : b.env) {
      if (e.second.t.empty()) { double c = (double)e.second.c; for (auto &pt : pts->at) if (std::abs(pt[k] - c) > 1e-6 * (1 + std::abs(c))) return false; }
      else if (e.second.t.size() == 1 && e.second.t[0].second == 1) { sy.push_back({e.second.t[0].first, (int)off.size() * 4096 + k}); off.push_back((double)e.second.c); }
      k++;
    }
    std::sort(sy.begin(), sy.end());
    for (auto &c : b.ge) {
      static thread_local std::vector<std::pair<double, int>> ix; ix.clear(); double base = (double)c.c; bool known = true;
      for (auto &p : c.t) { auto it = std::lower_bound(sy.begin(), sy.end(), std::make_pair(p.first, 0)); if (it == sy.end() || it->first != p.first) { known = false; break; } ix.push_back({(double)p.second, it->second % 4096}); base -= (double)p.second * off[it->second / 4096]; }
      if (!known) continue;
      for (auto &pt : pts->at) { double v = base, mag = 1 + std::abs(base); for (auto &q : ix) { v += q.first * pt[q.second]; mag += std::abs(q.first * pt[q.second]); } if (v < -1e-9 * mag - 1e-6) return false; }
    }
  }
  std::map<int, Lin> sg;
  try {
    auto ia = a.env.begin(); auto ib = b.env.begin();
    for (; ia != a.env.end(); ++ia, ++ib) {
      if (ia->first != ib->first) return false;
      if (ib->second.t.empty()) { if (!(ia->second == ib->second)) return false; continue; }
      if (ib->second.t.size() == 1 && ib->second.t[0].second == 1) {
        Lin v = addc(ia->second, -ib->second.c);
        auto r = sg.emplace(ib->second.t[0].first, v);
        if (!r.second && !(r.first->second == v)) return false;
      }
    }
    auto ap = [&](const Lin &e) { Lin r = Lin::konst(e.c); for (auto &p : e.t) { auto it = sg.find(p.first); r = lin_comb(r, 1, it == sg.end() ? Lin::sym(p.first) : it->second, p.second); } return r; };
    ia = a.env.begin(); ib = b.env.begin();
    for (; ia != a.env.end(); ++ia, ++ib) if (!(ia->second == ap(ib->second))) return false;
    for (auto &c : b.ge) if (!ent(a, ap(c))) return false;
  } catch (Overflow &) { return false; }
  return true;
}
void Absint::dropSubsumed(States &v) {
  if (v.size() < 2) return;
  std::vector<char> dead(v.size(), 0);
  std::vector<Probe> pts(v.size());
  for (size_t i = 0; i < v.size(); i++) {
    try {
      LP lp(v[i].ge); if (!lp.feas) { dead[i] = 1; continue; }
      auto sample = [&]() {
        std::map<int, double> p; lp.point(p); std::vector<double> r;
        for (auto &e : v[i].env) { double x = (double)e.second.c; for (auto &t : e.second.t) { auto it = p.find(t.first); if (it != p.end()) x += (double)t.second * it->second; } r.push_back(x); }
        pts[i].at.push_back(std::move(r));
      };
      sample();
      int k = 0;
      for (auto &e : v[i].env) { if (e.second.isConst() || isa<Argument>(e.first)) continue; if (++k > 4) break; for (int sg = -1; sg <= 1; sg += 2) { I n, d; if (lp.minimise(scale(e.second, sg), n, d) == 1) sample(); } }
    } catch (Overflow &) {}
  }
  for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size() && !dead[i]; j++) if (i != j && !dead[j] && subsumed(v[i], v[j], &pts[i])) dead[i] = 1;
  States o; for (size_t i = 0; i < v.size(); i++) if (!dead[i]) o.push_back(std::move(v[i]));
  v.swap(o);
}
void Absint::compress(States &v, const BasicBlock *at) {
  if (v.size() <= disjCap) return;
  auto ys = headVars(at); auto T = makeTemplates(ys); Bounds H;
  for (size_t i = 0; i < v.size(); i++) { Bounds b; bounds(v[i], ys, T, b, i ? &H : nullptr); if (i == 0) H = b; else joinBounds(H, b); }
  State s = boundsState(H, T, ys, {}, ".c"); v.clear(); v.push_back(s);
}

// entry states in which loop-invariant values have different constants are analysed separately
void Absint::component(const Elem &e, bool rec) {
  const BasicBlock *h = e.b;
  std::set<const BasicBlock *> in = blocksOf(e);
  States entry; { std::set<const BasicBlock *> d; for (auto *p : predecessors(h)) if (d.insert(p).second && !in.count(p)) for (auto &s : edge[{p, h}]) entry.push_back(s); }
  if (entryTemplates && e.body.size() <= 8 && entry.size() > 1) { // refined domain: small innermost loops keep the paths leading to them apart
    bool inner = true; for (auto &c : e.body) if (c.comp) inner = false;
    if (inner) {
      dropSubsumed(entry);
      if (entry.size() > 1 && entry.size() <= 160) {
        std::map<std::pair<const BasicBlock *, const BasicBlock *>, States> exits;
        for (auto &s : entry) {
          loop(e, rec, in, States{s});
          for (auto *b : in) for (auto *sc : successors(b)) if (!in.count(sc)) { auto &v = exits[{b, sc}]; for (auto &s : edge[{b, sc}]) v.push_back(s); }
        }
        for (auto &x : exits) { dropSubsumed(x.second); edge[x.first] = std::move(x.second); }
        return;
      }
    }
  }
  std::vector<const Value *> inv; for (auto *y : headVars(h)) if (y && !ghostKind.count(y) && !argSym.count(y) && y->getType()->isIntegerTy() && !isI1(y) && isa<Instruction>(y) && !in.count(cast<Instruction>(y)->getParent())) inv.push_back(y);
  std::map<std::vector<std::pair<bool, I>>, States> by;
  for (auto &s : entry) { std::vector<std::pair<bool, I>> k; for (auto *y : inv) { auto it = s.env.find(y); bool c = it != s.env.end() && it->second.isConst(); k.push_back({c, c ? it->second.c : 0}); } by[k].push_back(s); }
  if (by.size() < 2 || by.size() > maxLoopGroups) { loop(e, rec, in, std::move(entry)); return; }
  std::map<std::pair<const BasicBlock *, const BasicBlock *>, States> exits;
  for (auto &g : by) {
    loop(e, rec, in, std::move(g.second));
    for (auto *b : in) for (auto *sc : successors(b)) if (!in.count(sc)) { auto &v = exits[{b, sc}]; for (auto &s : edge[{b, sc}]) v.push_back(s); }
  }
  for (auto &x : exits) edge[x.first] = std::move(x.second);
}
// directions of the constraints that hold on loop entry; a variable advancing in lockstep with a counter is also
// tried relative to that counter (x -> x - k), which is what stays constant inside the loop
void Absint::entryDirections(const BasicBlock *h, const std::set<const BasicBlock *> &in, const States &entry, const std::vector<const Value *> &ys, std::vector<Tmpl> &T) {
  std::set<Tmpl> have; for (auto &t : T) { Tmpl k = t; std::sort(k.begin(), k.end()); have.insert(k); }
  std::map<int, I> step; std::map<int, bool> konst;
  for (int a = 0; a < (int)ys.size(); a++) {
    auto *p = ys[a] ? dyn_cast<PHINode>(ys[a]) : nullptr; if (!p || p->getParent() != h) continue;
    bool ok = true, first = true; I st = 0;
    for (unsigned k = 0; k < p->getNumIncomingValues(); k++) {
      if (!in.count(p->getIncomingBlock(k))) continue;
      const Value *v = p->getIncomingValue(k); I off = 0; int guard = 0;
      while (v != p && guard++ < 16) {
        if (auto *b = dyn_cast<BinaryOperator>(v)) if (auto *c = dyn_cast<ConstantInt>(b->getOperand(1))) { if (b->getOpcode() == Instruction::Add) { off += c->getSExtValue(); v = b->getOperand(0); continue; } if (b->getOpcode() == Instruction::Sub) { off -= c->getSExtValue(); v = b->getOperand(0); continue; } }
        if (auto *g = dyn_cast<GetElementPtrInst>(v)) { APInt o(64, 0); if (g->accumulateConstantOffset(DL, o)) { off += o.getSExtValue(); v = g->getPointerOperand(); continue; } }
        break;
      }
      if (v != p || (!first && off != st)) { ok = false; break; }
      st = off; first = false;
    }
    if (!ok || first || st == 0) continue;
    step[a] = st; bool all = true; for (auto &s : entry) { auto it = s.env.find(ys[a]); if (it == s.env.end() || !it->second.isConst()) all = false; }
    konst[a] = all;
  }
  size_t added = 0;
  auto addT = [&](std::map<int, I> m) {
    Tmpl t; for (auto &x : m) if (x.second != 0) { if (iabs(x.second) > 1024) return; t.push_back({x.first, (int)x.second}); }
    if (t.size() < 2 || t.size() > 6 || added > 400) return;
    for (int sg = 1; sg >= -1; sg -= 2) { Tmpl u = t; for (auto &x : u) x.second *= sg; if (have.insert(u).second) { T.push_back(u); added++; } }
  };
  for (auto &s : entry) {
    std::map<int, int> symOf; // symbol -> variable
    for (int a = 0; a < (int)ys.size(); a++) { auto it = s.env.find(ys[a]); if (it == s.env.end()) continue; auto &l = it->second; if (l.t.size() == 1 && l.t[0].second == 1) symOf.emplace(l.t[0].first, a); }
    std::vector<Lin> dirs(s.ge.begin(), s.ge.end());
    for (int a = 0; a < (int)ys.size(); a++) { auto it = s.env.find(ys[a]); if (it == s.env.end()) continue; auto &l = it->second; if (l.t.size() < 2) continue; std::map<int, I> m; bool ok = true; for (auto &p : l.t) { auto f = symOf.find(p.first); if (f == symOf.end()) { ok = false; break; } m[f->second] += p.second; } if (!ok) continue; m[a] -= 1; addT(m); for (auto &x : step) if (konst[x.first]) for (auto &y : step) if (y.first != x.first && m.count(y.first) && y.second % x.second == 0) { auto q = m; q[x.first] -= m[y.first] * (y.second / x.second); addT(q); } }
    for (auto &c : dirs) {
      std::map<int, I> m; bool ok = true;
      for (auto &p : c.t) { auto f = symOf.find(p.first); if (f == symOf.end()) { ok = false; break; } m[f->second] += p.second; }
      if (!ok || m.empty()) continue;
      addT(m);
      for (auto &x : step) if (konst[x.first]) { // all lockstep variables relative to counter x
        auto q = m; bool any = false;
        for (auto &y : step) if (y.first != x.first && m.count(y.first) && y.second % x.second == 0) { q[x.first] -= m[y.first] * (y.second / x.second); any = true; }
        if (any) addT(q);
      }
    }
  }
  if (verbose) errs() << "entry directions added: " << added << "\n";
}
void Absint::loop(const Elem &e, bool rec, const std::set<const BasicBlock *> &in, States entry) {
  const BasicBlock *h = e.b;
  auto ys = headVars(h);
  std::vector<const BasicBlock *> ent, back;
  { std::set<const BasicBlock *> d; for (auto *p : predecessors(h)) if (d.insert(p).second) { if (in.count(p)) back.push_back(p); else ent.push_back(p); } }
  for (auto *b : in) for (auto *s : successors(b)) edge[{b, s}].clear();
  if (entry.empty()) return;
  dropSubsumed(entry);
  if (h == &F->getEntryBlock()) { failure = "loop at entry"; return; }
  auto T = makeTemplates(ys);
  if (entryTemplates) entryDirections(h, in, entry, ys, T);
  if (verbose > 2) for (auto &s : entry) errs() << "ENTRY " << locOf(h->getTerminator()) << "\n" << showState(s);
  State base; bool useBase = entryTemplates && entry.size() == 1;
  if (useBase) {
    base.ge = entry[0].ge;
    for (auto &x : entry[0].env) { auto *I = x.first && !ghostKind.count(x.first) ? dyn_cast<Instruction>(x.first) : nullptr; if ((I && !in.count(I->getParent())) || argSym.count(x.first)) base.env.insert(x); }
    T.erase(std::remove_if(T.begin(), T.end(), [&](const Tmpl &t) { for (auto &p : t) if (!base.env.count(ys[p.first])) return false; return true; }), T.end()); // relations among unchanged values are kept exactly
  }
  auto collect = [&](const States &v, Bounds &H, const Bounds *only) { for (size_t i = 0; i < v.size(); i++) { Bounds b; bounds(v[i], ys, T, b, i ? &H : only); if (i == 0) H = b; else joinBounds(H, b); } };
  Bounds E; collect(entry, E, nullptr);
  // facts about the (immutable) arguments that hold on every entry
  Cons argCons;
  {
    std::set<int> as; for (auto &a : argSym) as.insert(a.second);
    for (auto &c : entry[0].ge) {
      bool only = !c.t.empty(); for (auto &t : c.t) if (!as.count(t.first)) only = false;
      if (!only) continue;
      bool all = true;
      for (size_t i = 1; i < entry.size() && all; i++) { Lin l = c; try { for (auto &a : argSym) if (l.coef(a.second) != 0) l = subst(l, a.second, eval(entry[i], a.first)); all = this->ent(entry[i], l); } catch (Overflow &) { all = false; } }
      if (all) argCons.push_back(c);
    }
  }
  Bounds H = E; State Hs;
  auto runBody = [&](bool r) {
    Hs = boundsState(H, T, ys, argCons, ".h", useBase ? &base : nullptr);
    if (r && onHead) { bool sv = recording; recording = true; onHead(*this, h, Hs); recording = sv; }
    States one{Hs};
    execBlock(h, one, r);
    for (auto &c : e.body) process(c, r);
  };
  auto backStates = [&]() { States bs; for (auto *p : back) for (auto &s : edge[{p, h}]) bs.push_back(s); dropSubsumed(bs); return bs; };
  int it = 0;
  for (;; it++) {
    if (it > 40) { failure = "no convergence"; break; }
    runBody(false);
    if (verbose > 2) errs() << "ITER " << it << " " << locOf(h->getTerminator()) << "\n" << showState(Hs);
    States bs = backStates();
    if (bs.empty()) break;
    Bounds B; collect(bs, B, &H);
    bool stable = true;
    for (size_t k = 0; k < T.size(); k++) if (H[k].first && (!B[k].first || B[k].second < H[k].second)) {
      stable = false;
      if (B[k].first && it >= widenDelay && T[k].size() == 1 && T[k][0].second == -1 && ys[T[k][0].first] && isIntOrPtr(ys[T[k][0].first]) && width(ys[T[k][0].first]) == 32 && B[k].second >= -(pw(31) - 1) && H[k].second > -(pw(31) - 1)) { H[k] = {true, -(pw(31) - 1)}; continue; } // threshold: largest signed value
      if (entryTemplates && B[k].first && it >= widenDelay && T[k].size() == 1 && T[k][0].second == 1 && B[k].second >= 0 && H[k].second > 0) { H[k] = {true, 0}; continue; } // threshold: zero
      if (!B[k].first || it >= widenDelay) H[k] = {false, 0}; else H[k] = B[k];
    }
    if (stable) break;
  }
  for (int k = 0; k < narrowSteps; k++) {
    Bounds N = E; States bs = backStates();
    if (!bs.empty()) { Bounds B; collect(bs, B, &N); joinBounds(N, B); }
    if (N == H) break;
    H = N; runBody(false);
  }
  if (verbose) { errs() << "HEAD " << h->getName() << " @ " << (h->getTerminator() ? locOf(h->getTerminator()) : "") << " iters " << it << " vars " << ys.size() << " templates " << T.size() << " states " << entry.size() << "\n"; if (verbose > 1) errs() << showState(Hs); }
  if (rec) runBody(true);
}

void Absint::process(const Elem &e, bool rec) {
  if (e.comp) { component(e, rec); return; }
  States in;
  std::set<const BasicBlock *> d;
  for (auto *p : predecessors(e.b)) if (d.insert(p).second) for (auto &s : edge[{p, e.b}]) in.push_back(s);
  if (e.b == &F->getEntryBlock()) {
    State s;
    for (auto &A : F->args()) if (A.getType()->isIntegerTy()) { std::string n = argName(&A); s.env[&A] = havoc(s, width(&A), n); argSym[&A] = nsym - 1; }
    if (initState) initState(*this, s);
    in.push_back(s);
  }
  if (in.empty()) { for (auto *S : successors(e.b)) edge[{e.b, S}].clear(); return; }
  if (in.size() > 1 && e.b->hasNPredecessorsOrMore(2)) dropSubsumed(in);
  compress(in, e.b);
  execBlock(e.b, std::move(in), rec);
}

void Absint::run() { for (auto &e : wto) { process(e, true); if (!failure.empty() && failure == "loop at entry") return; } }
