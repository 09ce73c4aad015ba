// Rules on what a public codec call may touch: never its source, never hidden state, only the memory it was given.
#include "common.h"
#include "facts.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
bool isCapFlag(const Value *v);
void prepRoot(Function *F);
static void bases(const Value *v, std::set<const Value *> &seen, std::set<const Value *> &out) {
  std::vector<const Value *> wl{v};
  while (!wl.empty()) {
    const Value *x = wl.back()->stripPointerCasts(); wl.pop_back();
    if (!seen.insert(x).second) continue;
    if (auto *g = dyn_cast<GEPOperator>(x)) { wl.push_back(g->getPointerOperand()); continue; }
    if (auto *p = dyn_cast<PHINode>(x)) { for (auto &i : p->incoming_values()) wl.push_back(i.get()); continue; }
    if (auto *s = dyn_cast<SelectInst>(x)) { wl.push_back(s->getTrueValue()); wl.push_back(s->getFalseValue()); continue; }
    if (auto *c = dyn_cast<CallBase>(x)) if (auto *g = c->getCalledFunction()) if (g->getName() == "memcpy" || g->getName() == "memset" || g->getName() == "memmove") { wl.push_back(c->getArgOperand(0)); continue; }
    if (auto *it = dyn_cast<Operator>(x)) if (it->getOpcode() == Instruction::IntToPtr) {
      // pointer arithmetic through integers: every pointer the integer is computed from
      std::vector<const Value *> iw{it->getOperand(0)}; std::set<const Value *> is; bool any = false, bad = false;
      while (!iw.empty()) { const Value *y = iw.back(); iw.pop_back(); if (!is.insert(y).second) continue;
        if (auto *o = dyn_cast<Operator>(y)) { if (o->getOpcode() == Instruction::PtrToInt) { wl.push_back(o->getOperand(0)); any = true; continue; }
          if (isa<BinaryOperator>(y) || isa<CastInst>(y) || isa<PHINode>(y) || isa<SelectInst>(y)) { for (auto &q : o->operands()) iw.push_back(q.get()); continue; } }
        if (isa<LoadInst>(y) || isa<CallBase>(y) || isa<Argument>(y)) {} }
      (void)bad; if (any) continue;
    }
    out.insert(x);
  }
}
static const std::set<std::string> PURE{"memcpy", "memmove", "memset", "memcmp", "bcmp", "abs", "labs", "strlen", "__assert_fail", "abort"};
int cmdEffects(const std::string &bc, const std::vector<std::string> &api) {
  // api lines: name or name:constparam,constparam
  unsigned nst = 0, nld = 0, nroots = 0, nmiss = 0, ncalls = 0;
  LLVMContext ctx; auto M = loadModule(bc, ctx);
  std::vector<std::pair<Function *, std::set<unsigned>>> rs;
  for (auto &a : api) {
    std::string n = a.substr(0, a.find(':')); std::set<unsigned> cp;
    if (a.find(':') != std::string::npos) { std::string t; for (char c : a.substr(a.find(':') + 1) + ",") { if (c == ',') { if (!t.empty()) cp.insert(std::stoul(t)); t.clear(); } else t += c; } }
    Function *f = M->getFunction(n);
    if (!f || f->isDeclaration()) { nmiss++; continue; }
    rs.push_back({f, cp});
  }
  if (rs.empty()) broken("no public function is defined");
  // fully inlined copies (made before any of them is rewritten)
  std::set<Function *> extra; std::vector<std::pair<Function *, std::set<unsigned>>> more;
  for (auto &pr : rs) extra.insert(pr.first);
  std::function<void(std::pair<Function *, std::set<unsigned>> &)> one = [&](std::pair<Function *, std::set<unsigned>> &pr) {
    Function *F = pr.first; nroots++;
    prepRoot(F);
    std::string rn = F->getName().str();
    auto wr = [&](const Instruction *I, const Value *p, const char *what) {
      nst++;
      std::set<const Value *> seen, b; bases(p, seen, b);
      for (auto *x : b) {
        if (auto *a = dyn_cast<Argument>(x)) { bool bad = pr.second.count(a->getArgNo()); report("source-read-only", rn, locOf(I), !bad, bad ? std::string(what) + " goes through the read-only parameter " + a->getName().str() : "writes through a writable parameter"); }
        else if (isa<AllocaInst>(x)) report("source-read-only", rn, locOf(I), true, "writes a local");
        else if (auto *g = dyn_cast<GlobalVariable>(x)) { bool ok = isCapFlag(g) || g->getName() == "_CpuFeaturesDetected"; report("no-hidden-state", rn, locOf(I), ok, ok ? "CPU capability cache" : std::string(what) + " modifies the global " + g->getName().str()); }
        else if (isa<ConstantPointerNull>(x) || isa<UndefValue>(x)) continue;
        else { std::string s; raw_string_ostream os(s); x->print(os); report("no-hidden-state", rn, locOf(I), false, std::string(what) + " goes through a pointer of unknown origin:" + s.substr(0, 80)); }
      }
    };
    auto rd = [&](const Instruction *I, const Value *p) {
      nld++;
      std::set<const Value *> seen, b; bases(p, seen, b);
      for (auto *x : b) if (auto *g = dyn_cast<GlobalVariable>(x)) { bool ok = g->isConstant() || isCapFlag(g) || g->getName() == "_CpuFeaturesDetected"; report("no-hidden-state", rn, locOf(I), ok, ok ? "constant table or CPU capability cache" : "result depends on the mutable global " + g->getName().str()); }
    };
    for (auto &B : *F) for (auto &I : B) {
      if (auto *s = dyn_cast<StoreInst>(&I)) wr(s, s->getPointerOperand(), "store");
      else if (auto *l = dyn_cast<LoadInst>(&I)) rd(l, l->getPointerOperand());
      else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) wr(&I, I.getOperand(0), "atomic update");
      else if (auto *m = dyn_cast<MemIntrinsic>(&I)) { wr(m, m->getDest(), "block write"); if (auto *mt = dyn_cast<MemTransferInst>(m)) rd(mt, mt->getSource()); }
      else if (auto *c = dyn_cast<CallBase>(&I)) {
        if (auto *ia = dyn_cast<IntrinsicInst>(c)) {
          // vector store intrinsics (masked stores, non-temporal maskmov ...)
          if (ia->getIntrinsicID() != Intrinsic::prefetch && !ia->doesNotAccessMemory() && !ia->onlyReadsMemory() && !ia->isLifetimeStartOrEnd() && !isa<DbgInfoIntrinsic>(ia) && !ia->isAssumeLikeIntrinsic()) for (auto &o : ia->args()) if (o->getType()->isPointerTy()) wr(ia, o.get(), "vector store");
          continue;
        }
        if (c->isInlineAsm()) continue;
        ncalls++;
        auto *g = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
        if (!g) { report("no-hidden-state", rn, locOf(c), false, "indirect call cannot be accounted for"); continue; }
        if (!g->isDeclaration()) { if (extra.insert(g).second) more.push_back({g, {}}); continue; } // not inlinable (prototype mismatch): analysed on its own
        std::string gn = g->getName().str(); bool ok = PURE.count(gn) != 0;
        report("no-hidden-state", rn, locOf(c), ok, ok ? "calls " + gn : "calls " + gn + ", which is outside the library and not a pure memory routine");
        if (gn == "memcpy" || gn == "memmove" || gn == "memset") wr(c, c->getArgOperand(0), "block write");
      }
    }
  };
  for (auto &pr : rs) one(pr);
  while (!more.empty()) { auto p = more.back(); more.pop_back(); one(p); }
  note("functions", std::to_string(nroots)); note("not_defined", std::to_string(nmiss)); note("stores", std::to_string(nst)); note("loads", std::to_string(nld)); note("external_calls", std::to_string(ncalls));
  return 0;
}
