// The command-line program: a failure it observes (input/output, memory, codec result, comparison) ends in a non-zero exit status.
// Path exploration over finite constants: branch conditions that follow from the assumed failure are decided, all others go both ways.
#include "common.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/Operator.h"
#include <deque>
#include <functional>
using namespace llvm;

namespace {
// an abstract value: a constant, "not zero", or "differs from anything it is compared with"
struct AV { enum K { Const, NonZero, Differs } k; int64_t c; bool operator<(const AV &o) const { return std::tie(k, c) < std::tie(o.k, o.c); } bool operator==(const AV &o) const { return k == o.k && c == o.c; } };
using Env = std::map<const Value *, AV>;

struct Exit {
  Function *F; std::map<const Value *, AV> assume; // facts of the mode under consideration (test run, capable CPU)
  std::map<const Instruction *, unsigned> num;
  bool get(const Env &e, const Value *v, AV &out) const {
    if (auto *k = dyn_cast<ConstantInt>(v)) { if (k->getBitWidth() > 64) return false; out = {AV::Const, k->getSExtValue()}; if (k->getBitWidth() == 1) out.c = k->getZExtValue(); return true; }
    if (isa<ConstantPointerNull>(v)) { out = {AV::Const, 0}; return true; }
    auto a = assume.find(v); if (a != assume.end()) { out = a->second; return true; }
    auto i = e.find(v); if (i == e.end()) return false; out = i->second; return true;
  }
  bool eval(const Env &e, const Instruction *I, AV &out) const {
    AV a, b;
    if (auto *c = dyn_cast<ICmpInst>(I)) {
      if (!get(e, c->getOperand(0), a)) return get(e, c->getOperand(1), b) && b.k == AV::Differs && c->isEquality() ? (out = {AV::Const, c->getPredicate() == ICmpInst::ICMP_NE}, true) : false;
      if (a.k == AV::Differs) { if (!c->isEquality()) return false; out = {AV::Const, c->getPredicate() == ICmpInst::ICMP_NE}; return true; }
      if (!get(e, c->getOperand(1), b)) return false;
      if (b.k == AV::Differs) { if (!c->isEquality()) return false; out = {AV::Const, c->getPredicate() == ICmpInst::ICMP_NE}; return true; }
      if (a.k == AV::NonZero || b.k == AV::NonZero) {
        auto z = [](const AV &x) { return x.k == AV::Const && x.c == 0; };
        auto p = c->getPredicate();
        if (z(a) || z(b)) {
          if (p == ICmpInst::ICMP_EQ) { out = {AV::Const, 0}; return true; }
          if (p == ICmpInst::ICMP_NE) { out = {AV::Const, 1}; return true; }
          if (z(b) && p == ICmpInst::ICMP_UGT) { out = {AV::Const, 1}; return true; }
          if (z(a) && p == ICmpInst::ICMP_ULT) { out = {AV::Const, 1}; return true; }
          if (z(a) && p == ICmpInst::ICMP_UGE) { out = {AV::Const, 0}; return true; }
          if (z(b) && p == ICmpInst::ICMP_ULE) { out = {AV::Const, 0}; return true; }
        }
        return false;
      }
      bool ptr = c->getOperand(0)->getType()->isPointerTy(); unsigned w = ptr ? 64 : c->getOperand(0)->getType()->getIntegerBitWidth();
      APInt x(w, (uint64_t)a.c, true), y(w, (uint64_t)b.c, true);
      out = {AV::Const, ICmpInst::compare(x, y, c->getPredicate())}; return true;
    }
    if (isa<ZExtInst>(I) || isa<SExtInst>(I) || isa<TruncInst>(I) || isa<FreezeInst>(I) || isa<PtrToIntInst>(I) || isa<BitCastInst>(I)) {
      if (!get(e, I->getOperand(0), a)) return false;
      if (a.k == AV::Const) {
        unsigned w = I->getOperand(0)->getType()->isPointerTy() ? 64 : I->getOperand(0)->getType()->getIntegerBitWidth(), v = I->getType()->isPointerTy() ? 64 : I->getType()->getIntegerBitWidth();
        APInt x(w, (uint64_t)a.c, true); x = isa<SExtInst>(I) ? x.sext(v) : x.zextOrTrunc(v); out = {AV::Const, v == 1 ? (int64_t)x.getZExtValue() : x.getSExtValue()}; return true;
      }
      if (isa<TruncInst>(I) && I->getType()->isIntegerTy(1)) return false; // an odd bit is not known
      if (isa<TruncInst>(I) && a.k == AV::NonZero) return false;
      out = a; return true;
    }
    if (auto *b2 = dyn_cast<BinaryOperator>(I)) {
      bool ga = get(e, b2->getOperand(0), a), gb = get(e, b2->getOperand(1), b); auto op = b2->getOpcode();
      auto is = [](bool g, const AV &x, int64_t k) { return g && x.k == AV::Const && x.c == k; };
      bool i1 = I->getType()->isIntegerTy(1);
      if (op == Instruction::And && (is(ga, a, 0) || is(gb, b, 0))) { out = {AV::Const, 0}; return true; }
      if (op == Instruction::Or && i1 && (is(ga, a, 1) || is(gb, b, 1))) { out = {AV::Const, 1}; return true; }
      if (op == Instruction::Or && ((ga && (a.k == AV::NonZero || (a.k == AV::Const && a.c))) || (gb && (b.k == AV::NonZero || (b.k == AV::Const && b.c))))) { out = {AV::NonZero, 0}; return true; }
      if (ga && gb && a.k == AV::Const && b.k == AV::Const) {
        if (op == Instruction::And) { out = {AV::Const, a.c & b.c}; return true; }
        if (op == Instruction::Or) { out = {AV::Const, a.c | b.c}; return true; }
        if (op == Instruction::Xor) { out = {AV::Const, i1 ? (a.c ^ b.c) & 1 : a.c ^ b.c}; return true; }
      }
      return false;
    }
    if (auto *s = dyn_cast<SelectInst>(I)) {
      if (get(e, s->getCondition(), a) && a.k == AV::Const) return get(e, a.c ? s->getTrueValue() : s->getFalseValue(), out);
      return get(e, s->getTrueValue(), a) && get(e, s->getFalseValue(), b) && a == b ? (out = a, true) : false;
    }
    return false;
  }
  // Explore everything that can follow `from` in state e. stop(I, env): 0 go on, 1 this path is fine, 2 violation. ret(R, env): true if fine.
  const Instruction *bad = nullptr; unsigned long states = 0;
  bool explore(const Instruction *from, Env e0, const std::function<int(const Instruction *, const Env &)> &stop, const std::function<bool(const ReturnInst *, const Env &)> &ret) {
    std::set<std::pair<const BasicBlock *, Env>> seen; struct W { const Instruction *at; Env e; }; std::deque<W> wl{{from, e0}};
    auto enter = [&](const BasicBlock *b, const BasicBlock *p, const Env &e) {
      Env n = e; for (auto &ph : b->phis()) { AV v; if (get(e, ph.getIncomingValueForBlock(p), v)) n[&ph] = v; else n.erase(&ph); }
      for (auto it = n.begin(); it != n.end();) { auto *d = dyn_cast<Instruction>(it->first); if (d && !liveIn(d, b)) it = n.erase(it); else ++it; }
      if (seen.insert({b, n}).second) wl.push_back({&*b->getFirstNonPHIIt(), n});
    };
    while (!wl.empty()) {
      W w = wl.back(); wl.pop_back(); if (++states > 400000) broken("too many states in the path exploration");
      for (const Instruction *I = w.at; I; I = I->getNextNode()) {
        int s = stop(I, w.e); if (s == 2) { bad = I; return false; } if (s == 1) break;
        if (auto *r = dyn_cast<ReturnInst>(I)) { if (!ret(r, w.e)) { bad = r; return false; } break; }
        if (auto *br = dyn_cast<BranchInst>(I)) {
          if (br->isUnconditional()) { enter(br->getSuccessor(0), I->getParent(), w.e); break; }
          AV v; bool k = get(w.e, br->getCondition(), v) && v.k == AV::Const;
          for (unsigned d = 0; d < 2; d++) if (!k || (v.c != 0) == (d == 0)) { Env n = w.e; if (isa<Instruction>(br->getCondition())) n[br->getCondition()] = {AV::Const, d == 0}; enter(br->getSuccessor(d), I->getParent(), n); }
          break;
        }
        if (auto *sw = dyn_cast<SwitchInst>(I)) {
          AV v; std::set<const BasicBlock *> t; if (get(w.e, sw->getCondition(), v) && v.k == AV::Const) { t.insert(sw->findCaseValue(ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), v.c, true))->getCaseSuccessor()); } else for (unsigned i = 0; i < sw->getNumSuccessors(); i++) t.insert(sw->getSuccessor(i));
          for (auto *b : t) enter(b, I->getParent(), w.e); break;
        }
        if (auto *cb = dyn_cast<CallBase>(I)) if (cb->getCalledFunction()) { StringRef n = cb->getCalledFunction()->getName();
          if (n == "exit" || n == "_exit" || n == "_Exit") { AV v; if (get(w.e, cb->getArgOperand(0), v) && ((v.k == AV::Const && v.c != 0) || v.k == AV::NonZero)) break; bad = I; return false; }
          if (n == "abort") break; }
        if (isa<UnreachableInst>(I)) break;
        AV v; if (I->getType()->isVoidTy()) continue; if (eval(w.e, I, v)) w.e[I] = v; else w.e.erase(I);
      }
    }
    return true;
  }
  std::map<const Instruction *, std::set<const BasicBlock *>> lv; // blocks at whose entry the value may still be needed
  bool liveIn(const Instruction *d, const BasicBlock *b) {
    auto it = lv.find(d);
    if (it == lv.end()) {
      auto &s = lv[d]; std::vector<const BasicBlock *> wl;
      for (auto *u : d->users()) { auto *ui = cast<Instruction>(u); if (auto *p = dyn_cast<PHINode>(ui)) { for (unsigned i = 0; i < p->getNumIncomingValues(); i++) if (p->getIncomingValue(i) == d) wl.push_back(p->getIncomingBlock(i)); } else wl.push_back(ui->getParent()); }
      while (!wl.empty()) { auto *x = wl.back(); wl.pop_back(); if (x == d->getParent() && !isa<PHINode>(d)) continue; if (!s.insert(x).second) continue; if (x == d->getParent()) continue; for (auto *p : predecessors(x)) wl.push_back(p); }
      it = lv.find(d);
    }
    if (isa<PHINode>(d) && d->getParent() == b) return true;
    return it->second.count(b) != 0;
  }
};
bool ownFunction(Function *f) { static std::string file; if (file.empty()) if (auto *m = f->getParent()->getFunction("main")) if (auto *sp = m->getSubprogram()) file = sp->getFilename().str(); auto *sp = f->getSubprogram(); return !f->isDeclaration() && sp && sp->getFilename().str() == file; }
// the value itself, disregarding conversions and the null or 0 it has on paths where it is not used
const Value *root(const Value *v, unsigned depth = 0) {
  while (isa<ZExtInst>(v) || isa<TruncInst>(v) || isa<SExtInst>(v) || isa<FreezeInst>(v)) v = cast<Instruction>(v)->getOperand(0);
  if (auto *p = dyn_cast<PHINode>(v)) if (depth < 8) {
    const Value *r = nullptr;
    for (auto &o : p->incoming_values()) { if (o == p) continue; if (auto *c = dyn_cast<Constant>(o)) if (c->isNullValue() || isa<UndefValue>(c)) continue; const Value *x = root(o, depth + 1); if (r && x != r) return v; r = x; }
    if (r) return r;
  }
  return v;
}
} // namespace

int cmdExit(const std::string &bc) {
  LLVMContext ctx; auto M = loadModule(bc, ctx); Function *F = M->getFunction("main");
  if (!F || F->isDeclaration()) broken("no main function");
  inlineAllIf(F, ownFunction);
  runPasses(F, "sroa,early-cse,instsimplify,dce,loop-simplify,lcssa,loop-mssa(loop-rotate),indvars,loop-idiom,instsimplify,dce");
  Exit X; X.F = F; DominatorTree DT(*F);

  // test mode: what the option --test sets and no other option changes
  std::set<const BasicBlock *> arm; unsigned tests = 0;
  for (auto &B : *F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) if (cb->getCalledFunction() && (cb->getCalledFunction()->getName() == "strncmp" || cb->getCalledFunction()->getName() == "strcmp" || cb->getCalledFunction()->getName() == "memcmp")) {
    bool t = false; for (auto &a : cb->args()) { StringRef s; if (a->getType()->isPointerTy() && getConstantStringInfo(a, s) && s == "--test") t = true; }
    if (!t) continue;
    for (auto *u : cb->users()) if (auto *c = dyn_cast<ICmpInst>(u)) if (c->isEquality()) for (auto *v : c->users()) if (auto *br = dyn_cast<BranchInst>(v)) {
      BasicBlock *s = br->getSuccessor(c->getPredicate() == ICmpInst::ICMP_EQ ? 0 : 1); tests++;
      for (auto &x : *F) if (DT.dominates(BasicBlockEdge(br->getParent(), s), &x)) arm.insert(&x);
    }
  }
  report("test-option", "main", F->getSubprogram() ? "main.c in main" : "main", tests > 0, tests ? "recognised" : "the option --test is not recognised any more");
  // webs of phis that carry a constant set in the arm
  std::map<const PHINode *, std::set<const PHINode *>> adj; std::set<const PHINode *> seenPhi;
  for (auto &B : *F) for (auto &ph : B.phis()) {
    if (!ph.getType()->isIntegerTy() || seenPhi.count(&ph)) continue;
    std::set<const PHINode *> web; std::vector<const PHINode *> wl{&ph}; std::set<int64_t> in, out; bool other = false;
    while (!wl.empty()) {
      auto *p = wl.back(); wl.pop_back(); if (!web.insert(p).second) continue; seenPhi.insert(p);
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { const Value *v = p->getIncomingValue(i); if (auto *q = dyn_cast<PHINode>(v)) wl.push_back(q); else if (auto *k = dyn_cast<ConstantInt>(v)) (arm.count(p->getIncomingBlock(i)) ? in : out).insert(k->getZExtValue()); else other = true; }
      for (auto *u : p->users()) if (auto *q = dyn_cast<PHINode>(u)) wl.push_back(q);
    }
    if (!other && in.size() == 1 && !out.count(*in.begin())) for (auto *p : web) X.assume[p] = {AV::Const, *in.begin()};
  }
  unsigned facts = X.assume.size();
  // flags kept in memory: the only non-zero constant stored is stored in the arm
  auto slot = [&](const Value *p) -> std::pair<const Value *, int64_t> { APInt o(64, 0); auto *b = p->stripAndAccumulateConstantOffsets(M->getDataLayout(), o, true); return {b, o.getSExtValue()}; };
  std::map<std::pair<const Value *, int64_t>, std::pair<std::set<int64_t>, std::set<int64_t>>> mem; std::set<std::pair<const Value *, int64_t>> messy;
  for (auto &B : *F) for (auto &I : B) if (auto *s = dyn_cast<StoreInst>(&I)) { auto k = slot(s->getPointerOperand()); if (auto *c = dyn_cast<ConstantInt>(s->getValueOperand())) (arm.count(&B) ? mem[k].first : mem[k].second).insert(c->getZExtValue()); else messy.insert(k); }
  for (auto &B : *F) for (auto &I : B) if (auto *l = dyn_cast<LoadInst>(&I)) if (l->getType()->isIntegerTy()) {
    auto k = slot(l->getPointerOperand());
    if ((isa<GlobalVariable>(k.first) || isa<AllocaInst>(k.first)) && !messy.count(k)) { auto it = mem.find(k); if (it != mem.end() && it->second.first.size() == 1 && !it->second.second.count(*it->second.first.begin())) { X.assume[l] = {AV::Const, *it->second.first.begin()}; facts++; } }
    if (auto *g = dyn_cast<GlobalVariable>(k.first)) if (g->getName().ends_with("Supported")) X.assume[l] = {AV::Const, 1}; // a CPU that can run every codec
  }
  report("test-option", "main", "main.c in main", facts > 0, facts ? "sets a mode" : "the option --test has no effect");

  for (bool ch = true; ch;) { // what follows from these facts alone
    ch = false; Env none;
    for (auto &B : *F) for (auto &I : B) { AV v; if (!I.getType()->isVoidTy() && !isa<PHINode>(I) && !X.assume.count(&I) && X.eval(none, &I, v)) { X.assume[&I] = v; ch = true; } }
  }
  auto fails = [&](const ReturnInst *r, const Env &e) { AV v; return r->getReturnValue() && X.get(e, r->getReturnValue(), v) && ((v.k == AV::Const && v.c != 0) || v.k == AV::NonZero); };
  auto go = [](const Instruction *, const Env &) { return 0; };
  unsigned nIo = 0, nCodec = 0, nCmp = 0, nFuzz = 0; const CallBase *rd = nullptr;
  std::vector<const CallBase *> codec, cmps;
  auto same = [&](const Value *a, const Value *b) { if (!a || !b) return false; return a == b || root(a) == root(b); };
  for (auto &B : *F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) if (!cb->isInlineAsm() && !cb->getCalledFunction() && cb->getType()->isIntegerTy(32) && cb->arg_size() == 4) codec.push_back(cb);
  for (auto &B : *F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) {
    if (cb->isInlineAsm() || isa<IntrinsicInst>(cb)) continue;
    auto *fn = cb->getCalledFunction(); StringRef n = fn ? fn->getName() : ""; AV f; std::string what; const char *rule = nullptr;
    if (!fn) { if (cb->getType()->isIntegerTy(32) && cb->arg_size() == 4) { f = {AV::Const, 0}; what = "a codec fails"; rule = "codec-failure-reported"; nCodec++; } }
    else if (n == "fopen" || n == "malloc" || n == "calloc" || n == "realloc" || n == "aligned_alloc" || n == "_aligned_malloc") { f = {AV::Const, 0}; what = (n + " fails").str(); rule = "io-failure-reported"; nIo++; }
    else if (n == "fread") { f = {AV::Differs, 0}; what = "the file cannot be read completely"; rule = "io-failure-reported"; rd = cb; nIo++; }
    else if (n == "ftell") { f = {AV::Const, 0}; what = "the file is empty"; rule = "io-failure-reported"; nIo++; }
    else if (n == "fuzz") { f = {AV::Const, 0}; what = "the fuzzer fails"; rule = "codec-failure-reported"; nFuzz++; }
    else if ((n == "memcmp" || n == "bcmp")) { bool out = false; for (auto *c : codec) for (unsigned k = 0; k < 2; k++) if (same(cb->getArgOperand(k), c->getArgOperand(2))) out = true; if (out) { cmps.push_back(cb); f = {AV::NonZero, 0}; what = "the decoded data differs"; rule = "mismatch-reported"; nCmp++; } }
    if (!rule) continue;
    if (n == "malloc" || n == "realloc" || n == "calloc") { bool used = false; for (auto *u : cb->users()) if (isa<ICmpInst>(u) || isa<PHINode>(u)) used = true; if (!used) continue; }
    Env e; e[cb] = f; X.bad = nullptr;
    bool ok = X.explore(cb->getNextNode(), e, go, fails);
    report(rule, "main", locOf(cb), ok, ok ? what + ": every path ends in a non-zero exit status" : "when " + what + ", the program can still end with exit status 0 (" + locOf(X.bad) + ")");
  }
  // every decoded buffer is compared, over the length read, before the next codec or a successful end
  unsigned dec = 0;
  for (auto *c : codec) {
    const CallBase *m = nullptr; for (auto *x : cmps) for (unsigned k = 0; k < 2; k++) if (same(x->getArgOperand(k), c->getArgOperand(2))) m = x;
    if (!m) continue;
    dec++; Env e; e[c] = {AV::NonZero, 0}; X.bad = nullptr;
    bool ok = X.explore(c->getNextNode(), e, [&](const Instruction *I, const Env &) { for (auto *x : cmps) if (I == x && (same(x->getArgOperand(0), c->getArgOperand(2)) || same(x->getArgOperand(1), c->getArgOperand(2)))) return 1; if (I == c) return 1; for (auto *o : codec) if (I == o) return 2; return 0; }, fails);
    report("decoded-data-compared", "main", locOf(c), ok, ok ? "compared on every path" : "decoded data may go unchecked on a path to " + locOf(X.bad));
    bool len = rd && (same(m->getArgOperand(2), rd->getArgOperand(2)) || same(m->getArgOperand(2), rd->getArgOperand(1)));
    report("decoded-data-compared", "main", locOf(m), len, len ? "over the length that was read" : "the comparison does not cover the length that was read from the file");
    bool src = rd && (same(m->getArgOperand(0), rd->getArgOperand(0)) || same(m->getArgOperand(1), rd->getArgOperand(0)));
    // old data: in test mode the buffer is overwritten with a fixed byte between a comparison and the next decoder
    X.bad = nullptr; auto keep = X.assume; // an empty file was refused: its length is not 0 here
    if (rd) for (auto &B : *F) for (auto &I : B) if (I.getType()->isIntegerTy() && !X.assume.count(&I) && root(&I) == root(rd->getArgOperand(2))) X.assume[&I] = {AV::NonZero, 0};
    bool fresh = X.explore(m->getNextNode(), {}, [&](const Instruction *I, const Env &) {
      if (I == c) return 2;
      auto *cb = dyn_cast<CallBase>(I); if (!cb || cb->isInlineAsm() || !cb->getCalledFunction()) return 0;
      StringRef n = cb->getCalledFunction()->getName(); bool set = n == "memset" || n.starts_with("llvm.memset"), zero = n == "bzero";
      if (!set && !zero) return 0;
      auto *len = cb->getArgOperand(set ? 2 : 1);
      return same(cb->getArgOperand(0), c->getArgOperand(2)) && (same(len, rd ? rd->getArgOperand(2) : nullptr) || same(len, m->getArgOperand(2))) ? 1 : 0; }, [](const ReturnInst *, const Env &) { return true; });
    X.assume = keep;
    report("decoded-buffer-cleared", "main", locOf(c), fresh, fresh ? "the buffer is cleared between two codecs" : "with --test, what an earlier codec decoded can still be in the buffer when this decoder runs: a decoder that writes too little goes unnoticed");
    report("decoded-data-compared", "main", locOf(m), src, src ? "with what was read" : "the comparison is not with what was read from the file");
  }
  if (!dec) { // a comparison written as a loop over bytes: recognised, but its extent is not decided
    for (auto &B : *F) for (auto &I : B) if (auto *ic = dyn_cast<ICmpInst>(&I)) if (ic->isEquality()) {
      auto base = [&](const Value *v) -> const Value * { while (isa<CastInst>(v)) v = cast<Instruction>(v)->getOperand(0); auto *l = dyn_cast<LoadInst>(v); return l ? root(getUnderlyingObject(l->getPointerOperand())) : nullptr; };
      auto *x = base(ic->getOperand(0)), *y = base(ic->getOperand(1)); if (!x || !y) continue;
      for (auto *c : codec) if (rd && ((x == root(c->getArgOperand(2)) && y == root(rd->getArgOperand(0))) || (y == root(c->getArgOperand(2)) && x == root(rd->getArgOperand(0))))) dec++;
    }
  }
  report("decoded-data-compared", "main", "main.c in main", dec > 0, dec ? "decoders are checked" : "no decoder result is compared");
  printf("{\"note\":\"calls\",\"value\":\"%u input/output and memory, %u codec, %u comparison, %u fuzzer; %lu path states\"}\n", nIo, nCodec, nCmp, nFuzz, X.states);
  return 0;
}
