// Rule: an instruction-set extension is used only where the CPU is known to have it.
#include "facts.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
// flag -> machine features its truth guarantees (closure as the compiler defines target("..."))
static const std::map<std::string, std::vector<std::string>> &flagTable() {
  static const std::vector<std::string> s1{"sse"}, s2{"sse", "sse2"}, s3{"sse", "sse2", "sse3"}, ss3{"sse", "sse2", "sse3", "ssse3"}, s41{"sse", "sse2", "sse3", "ssse3", "sse4.1"},
      s42{"sse", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "crc32", "popcnt"}, av{"sse", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "crc32", "popcnt", "avx"},
      av2{"sse", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "crc32", "popcnt", "avx", "avx2"},
      f3{"sse", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "crc32", "popcnt", "avx", "fma"},
      a5{"sse", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "crc32", "popcnt", "avx", "avx2", "fma", "f16c", "avx512f", "evex512"};
  auto plus = [](std::vector<std::string> v, const char *x) { v.push_back(x); return v; };
  static const std::map<std::string, std::vector<std::string>> t{{"sseSupported", s1}, {"sse2Supported", s2}, {"sse3Supported", s3}, {"ssse3Supported", ss3}, {"sse41Supported", s41}, {"sse42Supported", s42}, {"avxSupported", av}, {"avx2Supported", av2}, {"fma3Supported", f3}, {"aesNiSupported", {"sse", "sse2", "aes"}}, {"avx512FSupported", a5},
    {"avx512PFSupported", plus(a5, "avx512pf")}, {"avx512ERSupported", plus(a5, "avx512er")}, {"avx512CDSupported", plus(a5, "avx512cd")}, {"avx512BWSupported", plus(a5, "avx512bw")}, {"avx512DQSupported", plus(a5, "avx512dq")}, {"avx512VLSupported", plus(a5, "avx512vl")}, {"avx512IFMASupported", plus(a5, "avx512ifma")}, {"avx512VBMISupported", plus(plus(a5, "avx512bw"), "avx512vbmi")}, {"avx512VNNISupported", plus(a5, "avx512vnni")}, {"avx512VBMI2Supported", plus(plus(a5, "avx512bw"), "avx512vbmi2")}, {"avx512POPCNTDQSupported", plus(a5, "avx512vpopcntdq")}, {"avx512BITALGSupported", plus(plus(a5, "avx512bw"), "avx512bitalg")}, {"avx5124VNNIWSupported", plus(a5, "avx5124vnniw")}, {"avx5124FMAPSSupported", plus(a5, "avx5124fmaps")}};
  return t;
}
bool isCapFlag(const Value *v) { auto *g = dyn_cast<GlobalVariable>(v->stripPointerCasts()); return g && flagTable().count(g->getName().str()); }
static std::set<std::string> featuresOf(const Function *f) {
  static const std::set<std::string> base{"cmov", "cx8", "fxsr", "mmx", "sse", "sse2", "x87", "xsave"};
  std::set<std::string> r; std::string a = f->getFnAttribute("target-features").getValueAsString().str(), t;
  for (char c : a + ",") { if (c == ',') { if (t.size() > 1 && t[0] == '+' && !base.count(t.substr(1))) r.insert(t.substr(1)); t.clear(); } else t += c; }
  return r;
}
static std::string join(const std::set<std::string> &s) { std::string r; for (auto &x : s) r += (r.empty() ? "" : ",") + x; return r; }
// does f (transitively) satisfy p?
static std::map<const Function *, bool> closure(Module &M, const std::function<bool(Function &)> &p) {
  std::map<const Function *, bool> r;
  for (auto &f : M) if (!f.isDeclaration()) r[&f] = p(f);
  bool ch = true;
  while (ch) { ch = false; for (auto &f : M) if (!f.isDeclaration() && !r[&f]) for (auto &B : f) for (auto &I : B) for (Value *o : I.operands()) if (auto *g = dyn_cast<Function>(o->stripPointerCasts())) if (r.count(g) && r[g] && !r[&f]) { r[&f] = true; ch = true; } }
  return r;
}
int cmdDispatch(const std::string &bc, const std::vector<std::string> &api) {
  LLVMContext ctx; auto M = loadModule(bc, ctx);
  std::set<std::string> apiSet(api.begin(), api.end());
  auto writesFlag = [&](Function &f) { for (auto &B : f) for (auto &I : B) if (auto *s = dyn_cast<StoreInst>(&I)) if (isCapFlag(s->getPointerOperand()) && !isa<Constant>(s->getValueOperand())) return true; return false; };
  auto readsFlag = [&](Function &f) { for (auto &B : f) for (auto &I : B) if (auto *s = dyn_cast<LoadInst>(&I)) if (isCapFlag(s->getPointerOperand())) return true; return false; };
  auto isDet = closure(*M, writesFlag);
  auto reaches = closure(*M, [&](Function &f) { return !featuresOf(&f).empty() || readsFlag(f); });
  std::set<const Function *> writers; for (auto &f : *M) if (!f.isDeclaration() && writesFlag(f)) writers.insert(&f);
  if (writers.empty()) broken("no function detects CPU features");
  // address taken?
  std::set<const Function *> addr, called;
  for (auto &f : *M) for (auto &U : f.uses()) { auto *cb = dyn_cast<CallBase>(U.getUser()); if (cb && &U == &cb->getCalledOperandUse()) called.insert(&f); else addr.insert(&f); }
  auto isRoot = [&](Function *f) { return apiSet.count(f->getName().str()) || (!featuresOf(f).empty()); };
  // everything the API reaches (feature functions nothing in the library calls are the developer tools' own)
  std::set<const Function *> lib; { std::vector<const Function *> wl; for (auto &n : api) if (auto *f = M->getFunction(n)) if (!f->isDeclaration()) { lib.insert(f); wl.push_back(f); } if (wl.empty()) broken("no public function is defined"); while (!wl.empty()) { auto *f = wl.back(); wl.pop_back(); for (auto &B : *f) for (auto &I : B) for (Value *o : const_cast<Instruction &>(I).operands()) { std::function<void(const Value *)> w = [&](const Value *v) { v = v->stripPointerCasts(); if (auto *g = dyn_cast<Function>(v)) { if (!g->isDeclaration() && lib.insert(g).second) wl.push_back(g); } else if (auto *gv = dyn_cast<GlobalVariable>(v)) { if (gv->hasInitializer() && gv->isConstant()) w(gv->getInitializer()); } else if (auto *c = dyn_cast<Constant>(v)) for (auto &x : c->operands()) w(x); }; w(o); } } }
  std::vector<Function *> roots; for (auto &f : *M) if (!f.isDeclaration() && isRoot(&f) && lib.count(&f) && (reaches[&f])) roots.push_back(&f);
  unsigned nintr = 0, nsites = 0, nloads = 0, nfeat = 0;
  for (auto &f : *M) if (!f.isDeclaration() && !featuresOf(&f).empty()) nfeat++;
  // clone-free: every root is transformed in its own fresh copy of the module only if it needs inlining; inlining
  // never removes callees, so transforming roots in place (callees that are roots are never inlined) is order-safe.
  for (Function *R : roots) {
    static std::function<bool(Function *)> want;
    want = [&](Function *g) { return !isRoot(g) && !writers.count(g) && reaches[g] && featuresOf(g).empty(); };
    inlineAllIf(R, [](Function *g) { return want(g); });
    runPasses(R, "sroa,early-cse<memssa>,simplifycfg,sccp,dce");
    std::set<std::string> own = featuresOf(R);
    MustFacts mf(R);
    mf.leaf = [&](const Value *v, bool truth, Atoms &out) {
      if (auto *l = dyn_cast<LoadInst>(v)) if (isCapFlag(l->getPointerOperand())) { if (truth) out.insert("flag:" + l->getPointerOperand()->stripPointerCasts()->getName().str()); return true; }
      return false; };
    mf.step = [&](const Instruction *I, Atoms &a) {
      if (auto *c = dyn_cast<CallBase>(I)) if (auto *g = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) if (isDet.count(g) && isDet[g] && writers.count(g)) a.insert("detected"); };
    mf.solve({});
    auto avail = [&](const Atoms &a) { std::set<std::string> r = own; for (auto &x : a) if (x.rfind("flag:", 0) == 0) for (auto &y : flagTable().at(x.substr(5))) r.insert(y); return r; };
    auto check = [&](const Function *g, const Atoms &a, const Instruction *I) {
      auto need = featuresOf(g); if (need.empty()) return;
      if (!R->getName().empty() && g->hasFnAttribute(Attribute::AlwaysInline) && g->hasLocalLinkage()) { bool cov = true; for (auto &n : need) cov &= own.count(n) != 0; if (cov) { nintr++; return; } } // compiler-enforced
      nsites++;
      auto have = avail(a); std::set<std::string> miss; for (auto &n : need) if (!have.count(n)) miss.insert(n);
      report("isa-guard", R->getName().str() + " -> " + g->getName().str(), locOf(I), miss.empty(), miss.empty() ? "needs {" + join(need) + "}, guaranteed by the tested capability flags" : "calls code compiled for {" + join(miss) + "} where no tested capability flag guarantees it");
    };
    for (auto &B : *R) {
      if (!mf.reached.count(&B)) continue;
      for (auto &I : B) {
        if (auto *l = dyn_cast<LoadInst>(&I)) if (isCapFlag(l->getPointerOperand()) ) {
          nloads++;
          bool ok = mf.at(l).count("detected") || writers.count(R);
          report("detect-before-use", R->getName().str() + " reads " + l->getPointerOperand()->stripPointerCasts()->getName().str(), locOf(l), ok, ok ? "CPU detection has run on every path" : "capability flag is read on a path on which CPU detection has not run");
        }
        if (auto *c = dyn_cast<CallBase>(&I)) {
          Value *co = c->getCalledOperand()->stripPointerCasts();
          Atoms here = mf.at(c);
          std::function<void(const Value *, Atoms, int)> res = [&](const Value *v, Atoms a, int d) {
            v = v->stripPointerCasts();
            if (auto *g = dyn_cast<Function>(v)) { if (!g->isDeclaration()) check(g, a, c); return; }
            if (d > 16) return;
            if (auto *s = dyn_cast<SelectInst>(v)) { Atoms x = a, y = a; for (auto &q : mf.implied(s->getCondition(), true)) x.insert(q); for (auto &q : mf.implied(s->getCondition(), false)) y.insert(q); res(s->getTrueValue(), x, d + 1); res(s->getFalseValue(), y, d + 1); }
            else if (auto *p = dyn_cast<PHINode>(v)) for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { if (!mf.reached.count(p->getIncomingBlock(k))) continue; Atoms x = a; for (auto &q : mf.onEdge(p->getIncomingBlock(k), p->getParent())) x.insert(q); res(p->getIncomingValue(k), x, d + 1); }
          };
          res(co, here, 0);
        }
        // a feature function whose address escapes (stored, passed, kept in a table)
        for (Use &U : I.operands()) if (auto *g = dyn_cast<Function>(U.get()->stripPointerCasts())) {
          if (g->isDeclaration() || featuresOf(g).empty()) continue;
          if (auto *cb = dyn_cast<CallBase>(&I)) { if (&U == &cb->getCalledOperandUse()) continue; }
          if (isa<PHINode>(I) || isa<SelectInst>(I)) continue;
          check(g, mf.at(&I), &I);
        }
      }
    }
  }
  for (auto &g : M->globals()) if (g.hasInitializer() && !g.getName().starts_with("llvm.")) {
    std::function<void(const Constant *)> walk = [&](const Constant *c) { if (auto *f = dyn_cast<Function>(c)) { if (!f->isDeclaration() && !featuresOf(f).empty()) report("isa-guard", g.getName().str(), g.getName().str(), false, "table entry " + f->getName().str() + " needs {" + join(featuresOf(f)) + "} unconditionally"); return; } if (isa<GlobalVariable>(c)) return; for (auto &o : c->operands()) if (auto *k = dyn_cast<Constant>(o)) walk(k); };
    walk(g.getInitializer());
  }
  note("functions_in_module", std::to_string(std::distance(M->begin(), M->end())));
  note("feature_functions", std::to_string(nfeat)); note("roots", std::to_string(roots.size())); note("call_sites", std::to_string(nsites)); note("intrinsic_uses_inside_matching_functions", std::to_string(nintr)); note("flag_reads", std::to_string(nloads));
  return 0;
}
