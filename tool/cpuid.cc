// Rule: a capability flag is only ever set when the CPU reports the feature (right leaf, sub-leaf, register, bit),
// the leaf exists, and - for state-extending features - the operating system has enabled the register state.
#include "facts.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
bool isCapFlag(const Value *v);
struct Req { int leaf, reg, bit; int os; }; // reg: 0 eax 1 ebx 2 ecx 3 edx; os: 0 none, 1 AVX state, 2 AVX-512 state
static const std::map<std::string, Req> REQ{{"sseSupported", {1, 3, 25, 0}}, {"sse2Supported", {1, 3, 26, 0}}, {"sse3Supported", {1, 2, 0, 0}}, {"ssse3Supported", {1, 2, 9, 0}}, {"sse41Supported", {1, 2, 19, 0}}, {"sse42Supported", {1, 2, 20, 0}}, {"avxSupported", {1, 2, 28, 1}}, {"fma3Supported", {1, 2, 12, 1}}, {"aesNiSupported", {1, 2, 25, 0}}, {"avx2Supported", {7, 1, 5, 1}},
  {"avx512FSupported", {7, 1, 16, 2}}, {"avx512PFSupported", {7, 1, 26, 2}}, {"avx512ERSupported", {7, 1, 27, 2}}, {"avx512CDSupported", {7, 1, 28, 2}}, {"avx512BWSupported", {7, 1, 30, 2}}, {"avx512DQSupported", {7, 1, 17, 2}}, {"avx512VLSupported", {7, 1, 31, 2}}, {"avx512IFMASupported", {7, 1, 21, 2}}, {"avx512VBMISupported", {7, 2, 1, 2}}, {"avx512VNNISupported", {7, 2, 11, 2}}, {"avx512VBMI2Supported", {7, 2, 6, 2}}, {"avx512POPCNTDQSupported", {7, 2, 14, 2}}, {"avx512BITALGSupported", {7, 2, 12, 2}}, {"avx5124VNNIWSupported", {7, 3, 2, 2}}, {"avx5124FMAPSSupported", {7, 3, 3, 2}}};
static std::string bitName(int leaf, int reg, int bit) { static const char *r[] = {"eax", "ebx", "ecx", "edx"}; return "cpuid." + std::to_string(leaf) + "." + r[reg] + "[" + std::to_string(bit) + "]"; }
static std::string maxName(long n) { return "maxleaf>=" + std::to_string(n); }
static Atoms need(const Req &q) {
  Atoms a{bitName(q.leaf, q.reg, q.bit), maxName(q.leaf)};
  if (q.os >= 1) { a.insert(bitName(1, 2, 27)); a.insert("xcr0[1]"); a.insert("xcr0[2]"); }
  if (q.os >= 2) for (int b = 5; b <= 7; b++) a.insert("xcr0[" + std::to_string(b) + "]");
  return a;
}
// bit provenance of an integer value: "0", "1", atom name, or "?"
typedef std::vector<std::string> Bits;
struct Prov {
  std::map<const Value *, Bits> memo;
  static bool isCpuid(const CallBase *c) { auto *ia = dyn_cast<InlineAsm>(c->getCalledOperand()); return ia && StringRef(ia->getAsmString()).contains("cpuid"); }
  // output k of the asm -> register number, from the constraint string
  static int regOf(const CallBase *c, unsigned k) {
    auto *ia = cast<InlineAsm>(c->getCalledOperand()); unsigned o = 0;
    for (auto &ci : ia->ParseConstraints()) if (ci.Type == InlineAsm::isOutput) { if (o++ == k) { for (auto &cc : ci.Codes) { if (cc == "{ax}") return 0; if (cc == "{bx}") return 1; if (cc == "{cx}") return 2; if (cc == "{dx}") return 3; if (cc == "r") return 1; } return -1; } }
    return -1;
  }
  static bool leafOf(const CallBase *c, long &leaf, long &sub) {
    if (!c->arg_size()) return false;
    auto *a = dyn_cast<ConstantInt>(c->getArgOperand(0)); if (!a) return false;
    leaf = (long)a->getZExtValue(); sub = 0;
    if (c->arg_size() > 1) if (auto *b = dyn_cast<ConstantInt>(c->getArgOperand(1))) { sub = b->getZExtValue(); } else return false;
    else if (leaf >= 7) return false; // sub-leaf register undefined
    return true;
  }
  Bits get(const Value *v, int d = 0) {
    unsigned w = v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 0;
    Bits u(w, "?");
    if (!w || d > 40) return u;
    auto it = memo.find(v); if (it != memo.end()) return it->second;
    memo[v] = u;
    Bits r = u;
    if (auto *k = dyn_cast<ConstantInt>(v)) for (unsigned i = 0; i < w; i++) r[i] = k->getValue()[i] ? "1" : "0";
    else if (auto *e = dyn_cast<ExtractValueInst>(v)) {
      if (auto *c = dyn_cast<CallBase>(e->getAggregateOperand())) if (isCpuid(c) && e->getNumIndices() == 1) { long lf, sb; int rg = regOf(c, e->getIndices()[0]); if (rg >= 0 && leafOf(c, lf, sb) && sb == 0) for (unsigned i = 0; i < w; i++) r[i] = bitName((int)lf, rg, (int)i); }
    } else if (auto *c = dyn_cast<CallBase>(v)) {
      Function *g = c->getCalledFunction();
      if (g && g->getIntrinsicID() == Intrinsic::x86_xgetbv) { if (auto *k2 = dyn_cast<ConstantInt>(c->getArgOperand(0))) if (k2->isZero()) for (unsigned i = 0; i < w; i++) r[i] = "xcr0[" + std::to_string(i) + "]"; }
    } else if (auto *z = dyn_cast<ZExtInst>(v)) { Bits a = get(z->getOperand(0), d + 1); for (unsigned i = 0; i < w; i++) r[i] = i < a.size() ? a[i] : "0"; }
    else if (auto *z2 = dyn_cast<SExtInst>(v)) { Bits a = get(z2->getOperand(0), d + 1); for (unsigned i = 0; i < w; i++) r[i] = i < a.size() ? a[i] : a.back(); }
    else if (auto *t = dyn_cast<TruncInst>(v)) { Bits a = get(t->getOperand(0), d + 1); for (unsigned i = 0; i < w; i++) r[i] = a[i]; }
    else if (auto *b = dyn_cast<BinaryOperator>(v)) {
      Bits x = get(b->getOperand(0), d + 1), y = get(b->getOperand(1), d + 1);
      auto *k = dyn_cast<ConstantInt>(b->getOperand(1));
      switch (b->getOpcode()) {
      case Instruction::And: for (unsigned i = 0; i < w; i++) r[i] = x[i] == "0" || y[i] == "0" ? "0" : x[i] == "1" ? y[i] : y[i] == "1" ? x[i] : x[i] == y[i] ? x[i] : "?"; break;
      case Instruction::Or: for (unsigned i = 0; i < w; i++) r[i] = x[i] == "1" || y[i] == "1" ? "1" : x[i] == "0" ? y[i] : y[i] == "0" ? x[i] : x[i] == y[i] ? x[i] : "?"; break;
      case Instruction::Shl: if (k) { unsigned s = k->getZExtValue(); for (unsigned i = 0; i < w; i++) r[i] = i >= s ? x[i - s] : "0"; } break;
      case Instruction::LShr: if (k) { unsigned s = k->getZExtValue(); for (unsigned i = 0; i < w; i++) r[i] = i + s < w ? x[i + s] : "0"; } break;
      case Instruction::AShr: if (k) { unsigned s = k->getZExtValue(); for (unsigned i = 0; i < w; i++) r[i] = i + s < w ? x[i + s] : x[w - 1]; } break;
      default: break;
      }
    }
    memo[v] = r; return r;
  }
};
int cmdCpuid(const std::string &bc) {
  LLVMContext ctx; auto M = loadModule(bc, ctx);
  unsigned nflags = 0; for (auto &r : REQ) { auto *g = M->getGlobalVariable(r.first); if (!g) continue; nflags++; if (g->hasInitializer() && !g->getInitializer()->isNullValue()) report("initially-clear", r.first, r.first, false, "capability flag starts out set, before any detection"); else report("initially-clear", r.first, r.first, true, "starts clear"); }
  if (nflags < 9) broken("capability flags not found");
  // flags must not escape (only direct loads and stores)
  for (auto &r : REQ) if (auto *g = M->getGlobalVariable(r.first)) for (auto *u : g->users()) if (!isa<LoadInst>(u) && !(isa<StoreInst>(u) && cast<StoreInst>(u)->getPointerOperand() == g)) if (auto *I = dyn_cast<Instruction>(u)) report("flag-escapes", r.first, locOf(I), false, "address of a capability flag escapes; stores through it cannot be accounted for");
  std::map<Function *, int> det; unsigned nst = 0, nconst = 0;
  for (auto &r : REQ) if (auto *g = M->getGlobalVariable(r.first)) for (auto *u : g->users()) if (auto *s = dyn_cast<StoreInst>(u)) {
    if (isa<ConstantInt>(s->getValueOperand()) && cast<ConstantInt>(s->getValueOperand())->isZero()) { nconst++; continue; }
    det[s->getFunction()]++;
  }
  if (det.empty()) broken("nothing sets a capability flag");
  // inline helpers; detection code may be spread over several functions: analyse each top-level one that is not called by another
  std::vector<Function *> roots;
  for (auto &d : det) roots.push_back(d.first);
  std::set<std::string> seenFlags;
  auto analyse = [&](Function *R) {
    inlineAll(R, {});
    runPasses(R, "sroa,early-cse,instsimplify,dce");
    Prov pv; MustFacts mf(R);
    mf.leaf = [&](const Value *v, bool truth, Atoms &out) -> bool {
      if (auto *l = dyn_cast<LoadInst>(v)) if (isCapFlag(l->getPointerOperand())) { auto it = REQ.find(l->getPointerOperand()->stripPointerCasts()->getName().str()); if (truth && it != REQ.end()) out = need(it->second); return true; }
      auto atomsOf = [&](const Bits &b, Atoms &o) { // nonzero => exactly one candidate bit
        int cand = -1; bool many = false; std::string a; for (auto &x : b) if (x != "0") { if (cand >= 0 && x != a) many = true; cand = 1; a = x; }
        if (cand >= 0 && !many && a != "1" && a != "?") o.insert(a); };
      if (auto *i = dyn_cast<ICmpInst>(v)) {
        if (!i->getOperand(0)->getType()->isIntegerTy()) return false;
        auto *k = dyn_cast<ConstantInt>(i->getOperand(1)); CmpInst::Predicate p = i->getPredicate(); const Value *x = i->getOperand(0);
        if (!k) { k = dyn_cast<ConstantInt>(i->getOperand(0)); p = i->getSwappedPredicate(); x = i->getOperand(1); }
        if (!k) return false;
        if (!truth) p = CmpInst::getInversePredicate(p);
        Bits b = pv.get(x); bool known = false; for (auto &q : b) if (q != "?" && q != "0" && q != "1") known = true;
        if (!known) return false;
        if (b[0] == bitName(0, 0, 0)) { // highest basic leaf
          int64_t n = k->getSExtValue(); int64_t lo = -1;
          if (p == CmpInst::ICMP_SGE || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_EQ) lo = n; else if (p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_UGT) lo = n + 1; else if (p == CmpInst::ICMP_NE && n == 0) lo = 1;
          for (int64_t m = 0; m <= lo && m <= 64; m++) out.insert(maxName(m));
          return true;
        }
        if (p == CmpInst::ICMP_EQ) { for (unsigned j = 0; j < b.size(); j++) if (k->getValue()[j] && b[j] != "1" && b[j] != "0" && b[j] != "?") out.insert(b[j]); return true; }
        if (p == CmpInst::ICMP_NE && k->isZero()) { atomsOf(b, out); return true; }
        if (p == CmpInst::ICMP_UGT && k->isZero()) { atomsOf(b, out); return true; }
        if (p == CmpInst::ICMP_SLT && k->isZero()) { if (b.back() != "?" && b.back() != "0" && b.back() != "1") out.insert(b.back()); return true; }
        return true;
      }
      if (!isa<PHINode>(v) && !isa<SelectInst>(v) && v->getType()->isIntegerTy()) { Bits b = pv.get(v); bool known = false; for (auto &q : b) if (q != "?" && q != "0" && q != "1") known = true; if (known) { if (truth) atomsOf(b, out); return true; } }
      return false; };
    mf.solve({});
    for (auto &B : *R) { if (!mf.reached.count(&B)) continue; for (auto &I : B) {
      if (auto *c = dyn_cast<CallBase>(&I)) {
        if (auto *g = c->getCalledFunction()) if (g->getIntrinsicID() == Intrinsic::x86_xgetbv) { bool ok = mf.at(c).count(bitName(1, 2, 27)); report("xgetbv-guard", "xgetbv", locOf(c), ok, ok ? "executed only where OSXSAVE is reported" : "xgetbv is executed although the CPU need not support it (OSXSAVE not tested)"); }
        if (Prov::isCpuid(c)) { long lf, sb; if (Prov::leafOf(c, lf, sb) && lf > 0 && lf < 0x40000000) { bool ok = mf.at(c).count(maxName(lf)); report("leaf-exists", "cpuid leaf " + std::to_string(lf), locOf(c), ok, ok ? "queried only where the CPU reports the leaf" : "leaf queried on CPUs that do not report it (they answer with another leaf's data)"); } }
      }
      auto *s = dyn_cast<StoreInst>(&I); if (!s || !isCapFlag(s->getPointerOperand())) continue;
      std::string fl = s->getPointerOperand()->stripPointerCasts()->getName().str(); auto it = REQ.find(fl); if (it == REQ.end()) continue;
      if (isa<ConstantInt>(s->getValueOperand()) && cast<ConstantInt>(s->getValueOperand())->isZero()) continue;
      Atoms have = mf.at(s); Atoms im = mf.implied(s->getValueOperand(), true); if (im.count("<impossible>")) continue;
      have.insert(im.begin(), im.end()); nst++; seenFlags.insert(fl);
      std::string miss; for (auto &n : need(it->second)) if (!have.count(n)) miss += (miss.empty() ? "" : ", ") + n;
      report("flag-implies-feature", fl, locOf(s), miss.empty(), miss.empty() ? "set only if the CPU and the operating system report the feature" : "may be set although not established: " + miss);
    } }
  };
  for (auto *R : roots) {
    // if R is only called from other functions (a helper with parameters), analyse the callers instead
    std::set<Function *> callers; for (auto *u : R->users()) if (auto *cb = dyn_cast<CallBase>(u)) callers.insert(cb->getFunction());
    if (R->arg_size() && !callers.empty()) for (auto *c : callers) analyse(c); else analyse(R);
  }
  note("flags", std::to_string(nflags)); note("stores_checked", std::to_string(nst)); note("clearing_stores", std::to_string(nconst)); note("flags_with_detection", std::to_string(seenFlags.size()));
  if (nst == 0) broken("no detecting store was analysed");
  return 0;
}
