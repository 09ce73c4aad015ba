#include "absint.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <chrono>
#include <cstdio>
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

void prepRoot(Function *F) {
  inlineAll(F, {});
  scalariseCopies(F);
  runPasses(F, "sroa");
  splitStructAllocas(F);
  runPasses(F, "sroa,early-cse,instsimplify,dce");
  uniteComparisons(F);
}


// Packet fields: the quantities (not data taken from the input) that end up in stores to the destination. In front of each
// such store a marker keeps the quantity alive in the width it was computed in.
//   __hsa_fit(x, width): x is stored in a field of `width` bits;  __hsa_sep(a, b): a and b are or-ed into one field
static unsigned markFields(Function *F, Absint &A, const Argument *pOut) {
  auto *M = F->getParent(); auto &C = M->getContext(); Type *i64 = Type::getInt64Ty(C);
  auto fit = M->getOrInsertFunction("__hsa_fit", Type::getVoidTy(C), i64, i64), sep = M->getOrInsertFunction("__hsa_sep", Type::getVoidTy(C), i64, i64);
  A.knownBits();
  std::vector<StoreInst *> stores;
  for (auto &B : *F) for (auto &I : B) if (auto *s = dyn_cast<StoreInst>(&I)) if (s->getValueOperand()->getType()->isIntegerTy() && s->getValueOperand()->getType()->getIntegerBitWidth() <= 64 && A.baseOf(s->getPointerOperand()) == pOut) stores.push_back(s);
  auto slice = [&](StoreInst *s, const std::function<void(Value *, Value *)> &visit) { // visit(value, user in the chain)
    std::set<Value *> seen; std::vector<std::pair<Value *, Value *>> wl{{s->getValueOperand(), s}};
    while (!wl.empty()) {
      auto [v, u] = wl.back(); wl.pop_back(); if (!seen.insert(v).second) continue;
      visit(v, u);
      auto *I = dyn_cast<Instruction>(v); if (!I) continue;
      if (isa<ZExtInst>(I) || isa<TruncInst>(I) || isa<FreezeInst>(I)) wl.push_back({I->getOperand(0), I});
      else if (auto *b = dyn_cast<BinaryOperator>(I)) { auto o = b->getOpcode(); if (o == Instruction::Or || o == Instruction::And) { wl.push_back({I->getOperand(0), I}); wl.push_back({I->getOperand(1), I}); } else if (o == Instruction::Shl) wl.push_back({I->getOperand(0), I}); }
      else if (isa<PHINode>(I) || isa<SelectInst>(I)) for (unsigned k = isa<SelectInst>(I); k < I->getNumOperands(); k++) wl.push_back({I->getOperand(k), I});
    }
  };
  auto strip = [](Value *v) { while (isa<ZExtInst>(v) || isa<TruncInst>(v) || isa<FreezeInst>(v)) v = cast<Instruction>(v)->getOperand(0); return v; };
  auto isShr = [](Value *v) { auto *b = dyn_cast<BinaryOperator>(v); return b && (b->getOpcode() == Instruction::LShr || b->getOpcode() == Instruction::AShr) && isa<ConstantInt>(b->getOperand(1)) ? b : nullptr; };
  std::map<const Value *, uint64_t> split; // quantity stored in pieces: its upper piece starts at this bit
  for (auto *s : stores) slice(s, [&](Value *v, Value *) { if (auto *b = isShr(v)) { uint64_t k = cast<ConstantInt>(b->getOperand(1))->getZExtValue(); auto it = split.emplace(strip(b->getOperand(0)), k).first; it->second = std::min(it->second, k); } });
  std::function<void(Value *, std::vector<Value *> &)> leaves = [&](Value *v, std::vector<Value *> &out) { // operands of a combination by |
    Value *x = strip(v); auto *b = dyn_cast<BinaryOperator>(x);
    if (b && b->getOpcode() == Instruction::Or) { leaves(b->getOperand(0), out); leaves(b->getOperand(1), out); } else out.push_back(isa<TruncInst>(v) || isa<ZExtInst>(v) ? v : x);
  };
  DominatorTree DT(*F); unsigned n = 0; std::set<std::pair<const Instruction *, std::pair<const Value *, const Value *>>> done;
  for (auto *s : stores) {
    auto place = [&](Instruction *x) -> Instruction * { return DT.dominates(x, s) ? (Instruction *)s : x; };
    auto emit = [&](FunctionCallee f, Instruction *t, Value *x, Value *y) {
      Instruction *at = place(t); if (!done.insert({at, {x, y}}).second) return;
      IRBuilder<> b(at); b.SetCurrentDebugLocation(s->getDebugLoc());
      b.CreateCall(f, {b.CreateZExt(x, i64), b.CreateZExt(y, i64)}); n++;
    };
    slice(s, [&](Value *v, Value *u) {
      if (v->getType()->getIntegerBitWidth() > 64) return;
      if (auto *t = dyn_cast<TruncInst>(v)) {
        if (t->getOperand(0)->getType()->getIntegerBitWidth() > 64) return;
        unsigned w = t->getType()->getIntegerBitWidth(); std::vector<Value *> l; leaves(t->getOperand(0), l);
        for (auto *x : l) { if (A.fromMem.count(x) || isa<Constant>(x)) continue; auto it = split.find(strip(x)); if (it != split.end() && it->second <= w) continue; emit(fit, t, x, ConstantInt::get(i64, w)); }
      } else if (auto *b = dyn_cast<BinaryOperator>(v)) {
        auto *k = dyn_cast<ConstantInt>(b->getOperand(1));
        if (b->getOpcode() == Instruction::Shl && k && !A.fromMem.count(b->getOperand(0))) emit(fit, b, b->getOperand(0), ConstantInt::get(i64, b->getType()->getIntegerBitWidth() - k->getZExtValue()));
        if (b->getOpcode() == Instruction::Or && !(isa<BinaryOperator>(u) && cast<BinaryOperator>(u)->getOpcode() == Instruction::Or)) {
          std::vector<Value *> l; leaves(b, l);
          for (size_t i = 0; i < l.size(); i++) for (size_t j = i + 1; j < l.size(); j++) {
            if (A.fromMem.count(l[i]) || A.fromMem.count(l[j])) continue;
            if (!(A.mayBits(l[i]) & A.mayBits(l[j]))) { report("fields-disjoint", F->getName().str(), locOf(s), true, "bits never overlap"); continue; }
            emit(sep, b, l[i], l[j]);
          }
        }
      }
    });
  }
  // a fixed code and a quantity that can appear in the same field must differ
  auto ne = M->getOrInsertFunction("__hsa_ne", Type::getVoidTy(C), i64, i64);
  std::map<const Value *, std::set<unsigned>> widths; // a quantity with an escape code is stored in a narrow and in a wide field
  for (auto *s : stores) slice(s, [&](Value *v, Value *u) { if (isa<Constant>(v) || v != strip(v)) return; widths[v].insert(std::min(v->getType()->getIntegerBitWidth(), u == s ? 64u : u->getType()->getIntegerBitWidth())); });
  auto differ = [&](Value *x, ConstantInt *k, Instruction *at, DebugLoc dl) {
    Value *q = strip(x); if (widths[q].size() < 2) return; if (A.fromMem.count(q) || isa<Constant>(q) || q->getType()->getIntegerBitWidth() > 64) return;
    if (!done.insert({at, {q, k}}).second) return;
    IRBuilder<> b(at); b.SetCurrentDebugLocation(dl); b.CreateCall(ne, {b.CreateZExt(q, i64), ConstantInt::get(i64, k->getZExtValue())}); n++;
  };
  auto samePtr = [](Value *p, Value *q) {
    for (int d = 0; d < 6; d++) {
      if (p == q) return true;
      auto *g = dyn_cast<GetElementPtrInst>(p), *h = dyn_cast<GetElementPtrInst>(q);
      if (!g || !h || g->getNumOperands() != h->getNumOperands() || g->getSourceElementType() != h->getSourceElementType()) return false;
      for (unsigned k = 1; k < g->getNumOperands(); k++) { Value *x = g->getOperand(k), *y = h->getOperand(k); if (x != y) return false; }
      p = g->getPointerOperand(); q = h->getPointerOperand();
    }
    return false;
  };
  std::set<const Instruction *> isOut(stores.begin(), stores.end());
  auto firstStore = [&](BasicBlock *B, BasicBlock *from) -> StoreInst * {
    for (int d = 0; d < 4 && B && B->getSinglePredecessor() == from; d++) {
      for (auto &I : *B) if (isOut.count(&I)) return cast<StoreInst>(&I); else if (I.mayWriteToMemory() && !isa<StoreInst>(I) && !isa<DbgInfoIntrinsic>(I)) { auto *cb = dyn_cast<CallBase>(&I); if (!cb || !cb->getCalledFunction() || !cb->getCalledFunction()->getName().starts_with("__hsa_")) return nullptr; }
      from = B; B = B->getSingleSuccessor();
    }
    return nullptr;
  };
  for (auto &B : *F) if (auto *br = dyn_cast<BranchInst>(B.getTerminator())) if (br->isConditional()) {
    StoreInst *p = firstStore(br->getSuccessor(0), &B), *q = firstStore(br->getSuccessor(1), &B);
    if (!p || !q || p->getValueOperand()->getType() != q->getValueOperand()->getType() || !samePtr(p->getPointerOperand(), q->getPointerOperand())) continue;
    if (isa<ConstantInt>(p->getValueOperand())) std::swap(p, q);
    { std::vector<Value *> lp, lq; leaves(p->getValueOperand(), lp); leaves(q->getValueOperand(), lq); // (quantity | flag) against (flag) alone: the code is 0
      if (lp.size() < lq.size()) { std::swap(lp, lq); std::swap(p, q); }
      std::set<Value *> sq; for (auto *x : lq) sq.insert(strip(x)); std::vector<Value *> rest; for (auto *x : lp) if (!sq.count(strip(x))) rest.push_back(x);
      if (lp.size() == lq.size() + 1 && rest.size() == 1 && !isa<Constant>(rest[0])) differ(rest[0], ConstantInt::get(cast<IntegerType>(i64), 0), p, p->getDebugLoc()); }
    if (auto *k = dyn_cast<ConstantInt>(q->getValueOperand())) differ(p->getValueOperand(), k, p, p->getDebugLoc());
  }
  for (auto *s : stores) slice(s, [&](Value *v, Value *) {
    auto *p = dyn_cast<PHINode>(v); if (!p || p->getType()->getIntegerBitWidth() > 64) return;
    std::set<PHINode *> seen; std::vector<PHINode *> wl{p}; std::vector<ConstantInt *> ks; std::vector<std::pair<Value *, BasicBlock *>> qs;
    while (!wl.empty()) {
      auto *x = wl.back(); wl.pop_back(); if (!seen.insert(x).second) continue;
      for (unsigned i = 0; i < x->getNumIncomingValues(); i++) { Value *y = x->getIncomingValue(i); if (auto *k = dyn_cast<ConstantInt>(y)) ks.push_back(k); else if (auto *q = dyn_cast<PHINode>(y)) wl.push_back(q); else qs.push_back({y, x->getIncomingBlock(i)}); }
    }
    for (auto *k : ks) for (auto &q : qs) differ(q.first, k, q.second->getTerminator(), s->getDebugLoc());
  });
  for (auto &B : *F) for (auto &I : B) if (auto *c = dyn_cast<CallInst>(&I)) if (c->getCalledFunction() && c->getCalledFunction()->getName().starts_with("__hsa_")) for (auto &o : c->args()) if (!isa<Constant>(o)) A.forceRel.insert(o);
  A.may1.clear(); A.fromMem.clear(); A.baseMemo.clear();
  return n;
}

// Progress: on every back edge a marker __hsa_adv(loop, k, next, now) per loop-carried counter k.
struct Progress {
  struct L { std::string loc; std::vector<const PHINode *> phis; std::vector<std::vector<signed char>> recs; std::set<std::vector<signed char>> seen; std::vector<std::string> why; };
  std::vector<L> loops;
};
static void markProgress(Function *F, Absint &A, Progress &P, bool all) {
  auto *M = F->getParent(); auto &C = M->getContext(); Type *i32 = Type::getInt32Ty(C);
  DominatorTree DT(*F); LoopInfo LI(DT);
  std::vector<Loop *> ls; for (auto *l : LI.getLoopsInPreorder()) ls.push_back(l);
  for (auto *l : ls) {
    BasicBlock *h = l->getHeader(); Progress::L rec; unsigned id = P.loops.size();
    rec.loc = locOf(h->getFirstNonPHI()); if (auto *t = h->getTerminator()) if (t->getDebugLoc()) rec.loc = locOf(t);
    std::set<const Value *> deps; // what decides whether the loop is left
    auto collect = [&](ArrayRef<BasicBlock *> ex) {
      std::vector<Value *> wl;
      for (auto *b : ex) { auto *t = b->getTerminator(); if (auto *br = dyn_cast<BranchInst>(t)) { if (br->isConditional()) wl.push_back(br->getCondition()); } else if (auto *sw = dyn_cast<SwitchInst>(t)) wl.push_back(sw->getCondition()); }
      while (!wl.empty()) { auto *v = wl.back(); wl.pop_back(); if (!deps.insert(v).second) continue; auto *I = dyn_cast<Instruction>(v); if (!I || !l->contains(I) || isa<LoadInst>(I) || isa<CallBase>(I)) continue; if (isa<PHINode>(I) && I->getParent() == h) continue; for (auto &o : I->operands()) wl.push_back(o); } };
    { SmallVector<BasicBlock *, 8> ex; l->getExitingBlocks(ex); collect(ex); }
    auto usable = [&] { return any_of(h->phis(), [&](PHINode &p) { return deps.count(&p) && (p.getType()->isPointerTy() || p.getType()->isIntegerTy()); }); };
    if (!usable()) { std::vector<BasicBlock *> bs(l->block_begin(), l->block_end()); collect(bs); }
    bool any = all || !usable();
    std::vector<PHINode *> ph; for (auto &p : h->phis()) if ((any || deps.count(&p)) && ((p.getType()->isIntegerTy() && p.getType()->getIntegerBitWidth() > 8 && p.getType()->getIntegerBitWidth() <= 64) || p.getType()->isPointerTy())) { ph.push_back(&p); rec.phis.push_back(&p); }
    SmallVector<BasicBlock *, 4> lat; l->getLoopLatches(lat);
    for (auto *b : lat) {
      BasicBlock *e = SplitEdge(b, h, &DT, &LI);
      IRBuilder<> ib(e->getTerminator()); ib.SetCurrentDebugLocation(b->getTerminator()->getDebugLoc());
      std::vector<Value *> args{ConstantInt::get(i32, id)};
      for (auto *p : ph) { Value *nx = p->getIncomingValueForBlock(e); args.push_back(nx); args.push_back(p); if (!isa<Constant>(nx)) A.forceRel.insert(nx); A.forceRel.insert(p); }
      ib.CreateCall(M->getOrInsertFunction("__hsa_adv", FunctionType::get(Type::getVoidTy(C), {i32}, true)), args);
    }
    P.loops.push_back(rec);
  }
  A.may1.clear(); A.fromMem.clear(); A.baseMemo.clear();
}

// Obligations of a buffer-to-buffer encoder (pIn, inSize, pOut, outSize) -> size.
//  what: "mem"    every access stays inside its buffer
//        "stream" header slots, fully written output, returned size
//        "promise" a call with valid arguments and a destination of the promised size succeeds
CallInst *markBounds(Function *F, Function *B, const std::vector<unsigned> &args);
void assumeNonNull(Function *F);
static void runEncode(Function *F, const std::string &r, const std::string &what, Function *bounds, bool strong, int verbose) {
  double t0 = now(); bool promise = what == "promise", fields = what == "fields", progress = what == "progress"; Progress P;
  if (promise) markBounds(F, bounds, {1});
  prepRoot(F);
  if (promise) assumeNonNull(F);
  unsigned ni = 0; for (auto &B : *F) ni += B.size();
  Absint A(F); A.verbose = verbose;
  if (strong) { A.maxTripleVars = 22; A.maxQuadVars = 11; A.widenDelay = 4; A.narrowSteps = 4; A.maxLoopGroups = 8; A.disjCap = 600; A.entryTemplates = true; }
  if (strong && what == "progress") { A.maxTripleVars = A.maxQuadVars = 0; A.narrowSteps = 2; } // few relations, many cases
  const Argument *pIn = F->getArg(0), *inSize = F->getArg(1), *pOut = F->getArg(2), *outSize = F->getArg(3);
  bool stream = what == "stream", hasHeader = StringRef(r).contains("compress"), swapped = StringRef(r).contains("low_entropy");
  Type *i64 = Type::getInt64Ty(F->getContext());
  std::unique_ptr<Argument> H0(new Argument(i64, "hdr0")), H1(new Argument(i64, "hdr4")), W(new Argument(i64, "written"));
  if (stream) {
    A.ghosts = {H0.get(), H1.get(), W.get()}; A.ghostKind = {{H0.get(), 1}, {H1.get(), 1}, {W.get(), 2}};
    A.initState = [&](Absint &a, State &s) { s.env[H0.get()] = Lin::konst(-1); s.env[H1.get()] = Lin::konst(-1); s.env[W.get()] = Lin::konst(hasHeader ? 8 : 0); };
  }
  A.onAccess = [&](Absint &a, State &s, const Instruction *In, const Value *base, const Lin &off, const Lin &len, bool write) {
    if (stream) {
      if (base != pOut || !write) { if (write && !base) { s.env[H0.get()] = Lin::sym(a.fresh("h0")); s.env[H1.get()] = Lin::sym(a.fresh("h1")); } return; }
      auto *st = dyn_cast<StoreInst>(In);
      if (hasHeader) {
        if (st && st->getValueOperand()->getType()->isIntegerTy(32) && off.isConst() && (off.c == 0 || off.c == 4)) { s.env[off.c ? H1.get() : H0.get()] = a.eval(s, st->getValueOperand()); return; }
        if (!a.inRange(s, off, 8, (I)1 << 62)) { s.env[H0.get()] = Lin::sym(a.fresh("h0")); s.env[H1.get()] = Lin::sym(a.fresh("h1")); }
      }
      Lin w = s.env[W.get()], e = off + len;
      bool adj = a.ent(s, w - off);
      if (a.recording) a.oblige(In, "gap-free", s, adj, [&] { return "may leave unwritten bytes before offset " + a.show(off) + "; written so far up to " + a.show(w) + " under:\n" + a.showState(s); });
      if (!adj) return;
      if (a.ent(s, e - w)) s.env[W.get()] = e;
      else if (!a.ent(s, w - e)) { Lin n = Lin::sym(a.fresh("written")); a.add(s, n - w); a.add(s, n - e); s.env[W.get()] = n; } // the larger of both
      return;
    }
    if (!a.recording || promise || fields || progress) return;
    Lin size; std::string kind;
    if (base == pIn) { size = a.eval(s, inSize); kind = write ? "write-source" : "read-source"; if (write) { a.oblige(In, kind, s, false, [&] { return std::string("writes to the source buffer"); }); return; } }
    else if (base == pOut) { size = a.eval(s, outSize); kind = write ? "write-dest" : "read-dest"; }
    else if (base && isa<AllocaInst>(base)) { auto *al = cast<AllocaInst>(base); size = Lin::konst((I)a.DL.getTypeAllocSize(al->getAllocatedType()).getFixedValue()); kind = write ? "write-local" : "read-local"; }
    else if (base && isa<GlobalVariable>(base)) { size = Lin::konst((I)a.DL.getTypeAllocSize(cast<GlobalVariable>(base)->getValueType()).getFixedValue()); kind = write ? "write-global" : "read-global"; }
    else { a.oblige(In, "unknown-pointer", s, false, [&] { return std::string("pointer of unknown provenance"); }); return; }
    bool lo = a.inRange(s, off, 0, (I)1 << 62), ln = len.isConst() ? len.c >= 0 : a.ent(s, len), hi = a.ent(s, size - (off + len));
    a.oblige(In, kind, s, lo && ln && hi, [&] { return std::string(!lo ? "offset may be negative" : !ln ? "length may be negative" : "end may exceed the buffer") + "; offset = " + a.show(off) + ", length = " + a.show(len) + ", size = " + a.show(size) + " under:\n" + a.showState(s); });
  };
  A.onCall = [&](Absint &a, State &s, const CallBase *cb) {
    if (cb->doesNotAccessMemory() || cb->isInlineAsm()) return;
    auto *fn = cb->getCalledFunction(); StringRef n = fn ? fn->getName() : "";
    if (n.starts_with("__hsa_adv")) {
      if (!a.recording) return;
      auto &l = P.loops[cast<ConstantInt>(cb->getArgOperand(0))->getZExtValue()];
      std::vector<signed char> cur;
      for (unsigned k = 1; k + 1 < cb->arg_size(); k += 2) {
        Lin nx = a.eval(s, cb->getArgOperand(k)), d = nx - a.eval(s, cb->getArgOperand(k + 1)), lim = addc(a.eval(s, inSize) + a.eval(s, outSize), 4096); // progress towards a limit
        cur.push_back(a.ent(s, d) ? a.ent(s, addc(d, -1)) && (a.ent(s, lim - nx) || a.ent(s, addc(scale(nx, -1), (I)1 << 31))) ? 2 : 1 : 0);
        d = scale(d, -1); cur.push_back(a.ent(s, d) ? a.ent(s, addc(d, -1)) && (a.ent(s, lim + nx) || a.ent(s, addc(nx, (I)1 << 31))) ? 2 : 1 : 0);
      }
      if (l.seen.insert(cur).second) { l.recs.push_back(cur); if (verbose) l.why.push_back(locOf(cb) + "\n" + a.showState(s)); }
      return;
    }
    if (n == "__hsa_mark") { Lin b = a.eval(s, cb->getArgOperand(0)); if (!a.add(s, addc(b, -1)) || !a.add(s, a.eval(s, outSize) - b) || !a.add(s, addc(a.eval(s, inSize), -1)) || !a.feas(s)) a.kill = true; return; }
    if (fields) {
      if (n == "__hsa_fit") {
        Lin x = a.eval(s, cb->getArgOperand(0)); unsigned w = (unsigned)cast<ConstantInt>(cb->getArgOperand(1))->getZExtValue();
        a.oblige(cb, "field-fits", s, a.inRange(s, x, 0, ((I)1 << w) - 1), [&] { return "a value that may need more than " + std::to_string(w) + " bits is stored in a field of " + std::to_string(w) + " bits: " + a.show(x) + " under:\n" + a.showState(s); });
      } else if (n == "__hsa_ne") {
        Lin x = a.eval(s, cb->getArgOperand(0)); I k = (I)cast<ConstantInt>(cb->getArgOperand(1))->getZExtValue();
        a.oblige(cb, "escape-distinct", s, a.ent(s, addc(x, -k - 1)) || a.ent(s, addc(scale(x, -1), k - 1)), [&] { return "a stored quantity may equal the code " + std::to_string((long long)k) + " that has another meaning in the same field: " + a.show(x) + " under:\n" + a.showState(s); });
      } else if (n == "__hsa_sep") {
        Lin x = a.eval(s, cb->getArgOperand(0)), y = a.eval(s, cb->getArgOperand(1));
        auto mult = [](const Lin &l) { unsigned k = 62; for (auto &p : l.t) k = std::min(k, (unsigned)__builtin_ctzll((unsigned long long)(p.second < 0 ? -p.second : p.second) | (1ull << 62))); if (l.c != 0) k = std::min(k, (unsigned)__builtin_ctzll((unsigned long long)(l.c < 0 ? -l.c : l.c) | (1ull << 62))); return k; };
        auto below = [&](const Lin &l, unsigned k) { return a.inRange(s, l, 0, ((I)1 << k) - 1); };
        bool ok = (x.isConst() && x.c == 0) || (y.isConst() && y.c == 0) || below(y, mult(x)) || below(x, mult(y));
        a.oblige(cb, "fields-disjoint", s, ok, [&] { return "two fields combined in one value may overlap: " + a.show(x) + " | " + a.show(y) + " under:\n" + a.showState(s); });
      }
      return;
    }
    if (promise || progress) return;
    if ((n == "memcmp" || n == "bcmp") && cb->arg_size() == 3) { Lin len = a.eval(s, cb->getArgOperand(2)); for (int k = 0; k < 2; k++) a.onAccess(a, s, cb, a.baseOf(cb->getArgOperand(k)), a.eval(s, cb->getArgOperand(k)), len, false); return; }
    bool ptr = false; for (auto &x : cb->args()) if (x->getType()->isPointerTy()) ptr = true;
    if (ptr && a.recording) a.oblige(cb, stream ? "gap-free" : "unknown-pointer", s, false, [&] { return "call of " + n.str() + " with unknown memory effect"; });
  };
  A.onReturn = [&](Absint &a, State &s0, const ReturnInst *R) {
    if (promise && a.recording) { Lin v = a.eval(s0, R->getReturnValue()); a.oblige(R, "succeeds", s0, a.ent(s0, addc(v, -1)), [&] { return "a call with a large enough destination may fail: returns " + a.show(v) + " under:\n" + a.showState(s0); }); }
    if (!stream || !a.recording) return;
    State s = s0; Lin v = a.eval(s, R->getReturnValue());
    if (v.isConst() && v.c == 0) return;
    if (!a.add(s, addc(v, -1)) || !a.feas(s)) return; // only a non-zero result carries a stream
    auto eq = [&](const Lin &x, const Lin &y) { return a.ent(s, x - y) && a.ent(s, y - x); };
    a.oblige(R, "size-in-range", s, a.ent(s, a.eval(s, outSize) - v), [&] { return "may return a size above the destination size: " + a.show(v) + " under:\n" + a.showState(s); });
    if (hasHeader) {
      Lin us = s.env[swapped ? H1.get() : H0.get()], cs = s.env[swapped ? H0.get() : H1.get()];
      a.oblige(R, "header-input-size", s, eq(us, a.eval(s, inSize)), [&] { return "the stored uncompressed size may differ from the input size: " + a.show(us) + " under:\n" + a.showState(s); });
      a.oblige(R, "header-stream-size", s, eq(cs, v), [&] { return "the stored stream size may differ from the returned size: " + a.show(cs) + " vs " + a.show(v) + " under:\n" + a.showState(s); });
    } else a.oblige(R, "size-is-input-size", s, eq(v, a.eval(s, inSize)), [&] { return "returned size may differ from the input size: " + a.show(v); });
    a.oblige(R, "fully-written", s, a.ent(s, s.env[W.get()] - v), [&] { return "returned size " + a.show(v) + " may cover bytes never written; written up to " + a.show(s.env[W.get()]) + " under:\n" + a.showState(s); });
  };
  if (promise) for (auto &B : *F) for (auto &I : B) if (auto *c = dyn_cast<CallInst>(&I)) if (c->getCalledFunction() && c->getCalledFunction()->getName() == "__hsa_mark" && !isa<Constant>(c->getArgOperand(0))) A.forceRel.insert(c->getArgOperand(0));
  if (fields) markFields(F, A, pOut);
  if (progress) markProgress(F, A, P, false);
  A.lean = progress;
  A.prepare();
  A.run();
  unsigned bad = 0;
  if (progress) for (auto &l : P.loops) { // a lexicographic order of counters, each bounded by its width
    auto recs = l.recs; std::string order; bool go = true;
    while (!recs.empty() && go) {
      go = false;
      for (unsigned c = 0; c < l.phis.size() * 2 && !go; c++) {
        bool weak = true, some = false; for (auto &r : recs) { if (!r[c]) weak = false; if (r[c] == 2) some = true; }
        if (!weak || !some) continue;
        go = true; order += (order.empty() ? "" : ", ") + (l.phis[c / 2]->hasName() ? l.phis[c / 2]->getName().str() : std::string("counter")) + (c & 1 ? " decreases" : " increases");
        std::vector<std::vector<signed char>> rest; for (auto &r : recs) if (r[c] != 2) rest.push_back(r); recs.swap(rest);
      }
    }
    bool ok = recs.empty(); if (!ok) bad++;
    report("progress", r, l.loc, ok, ok ? (l.recs.empty() ? "not repeated" : order) : "no counter makes progress on every path around the loop");
    if (verbose && !ok) { printf("LOOP %s\n", l.loc.c_str()); for (auto *p : l.phis) printf("  %s", p->getName().str().c_str()); puts(""); for (auto &q : recs) { for (auto x : q) printf("%d ", x); puts(""); } for (size_t i = 0; i < l.recs.size(); i++) for (auto &q : recs) if (q == l.recs[i]) printf("at %s\n", l.why[i].c_str()); }
  }
  for (auto &o : A.obls) {
    if (!o.second.ok) bad++;
    std::string d = o.second.detail; if (!verbose) { size_t k = d.find(" under"); if (k != std::string::npos) d = d.substr(0, k); }
    report(o.first.second, r, locOf(o.first.first), o.second.ok, d);
  }
  if (!A.failure.empty()) report("analysis", r, r, false, A.failure);
  if (verbose) for (auto &o : A.obls) if (!o.second.ok) printf("BAD %s %s: %s\n", o.first.second.c_str(), locOf(o.first.first).c_str(), o.second.detail.c_str());
  printf("{\"root\":\"%s\",\"insts\":%u,\"blocks\":%zu,\"obligations\":%zu,\"bad\":%u,\"maxdisj\":%lu,\"steps\":%lu,\"secs\":%.2f}\n", r.c_str(), ni, F->size(), A.obls.size(), bad, A.maxDisj, A.nSteps, now() - t0);
  fflush(stdout);
}
int cmdEncode(const std::string &bc, const std::vector<std::string> &args, int verbose) {
  std::string what = args.empty() ? "mem" : args[0];
  for (size_t i = 1; i < args.size(); i++) {
    LLVMContext ctx; auto M = loadModule(bc, ctx);
    bool strong = args[i][0] == '+'; std::string name = strong ? args[i].substr(1) : args[i], bn; // '+': refined domain
    if (name.find(' ') != std::string::npos) { bn = name.substr(name.find(' ') + 1); name = name.substr(0, name.find(' ')); }
    Function *bounds = bn.empty() ? nullptr : M->getFunction(bn);
    if (what == "promise" && (!bounds || bounds->isDeclaration())) broken("no bounds function for " + name);
    Function *F = M->getFunction(name);
    if (!F || F->isDeclaration()) { printf("{\"undefined\":\"%s\"}\n", name.c_str()); continue; }
    runEncode(F, name, what, bounds, strong, verbose);
  }
  return 0;
}


int cmdDump(const std::string &bc, const std::vector<std::string> &roots) {
  for (auto &r : roots) { LLVMContext ctx; auto M = loadModule(bc, ctx); Function *F = M->getFunction(r); prepRoot(F); outs() << *F; }
  return 0;
}
