// Relational abstract interpreter over LLVM IR (convex polyhedra, trace partitioning between loop heads,
// hull + widening + narrowing at loop heads).
#pragma once
#include "common.h"
#include "poly.h"
#include <functional>
using namespace llvm;

struct State {
  std::map<const Value *, Lin> env;
  Cons ge;
};
typedef std::vector<State> States;

struct Obligation {
  const Instruction *inst; std::string kind; bool ok; std::string detail; unsigned visits;
};

struct Absint {
  Function *F; const DataLayout &DL;
  int nsym = 0; std::vector<std::string> symName;
  std::set<const Value *> rel;                  // tracked values
  std::set<const Value *> opaqueMulti;          // opaque i1 with several uses
  std::map<const BasicBlock *, std::set<const Value *>> liveIn;
  std::map<std::pair<const BasicBlock *, const BasicBlock *>, States> edge;
  std::map<std::pair<const Instruction *, std::string>, Obligation> obls;
  std::map<const Value *, const Value *> baseMemo;
  std::map<const Value *, uint64_t> may1;       // bits that may be set (flow-insensitive, least fixed point)
  std::set<const Value *> fromMem;              // integer data computed from memory contents
  std::map<const Value *, int> argSym;          // arguments keep one symbol for the whole analysis
  bool recording = false;
  unsigned long nSteps = 0, nJoins = 0, maxDisj = 0, nWiden = 0;
  int verbose = 0;
  size_t disjCap = 200;
  std::string failure;                          // analysis could not complete

  // configuration hooks
  std::function<bool(Absint &, State &, const Value *base, Lin &size)> objectSize; // bytes accessible behind a base
  std::function<void(Absint &, State &, const Instruction *, const Value *base, const Lin &off, const Lin &len, bool write)> onAccess;
  std::function<void(Absint &, State &, const ReturnInst *)> onReturn;
  std::function<void(Absint &, State &, const CallBase *)> onCall;
  std::function<void(Absint &, State &)> initState;
  std::function<void(Absint &, const BasicBlock *, State &)> onHead;     // invariant at a loop head
  std::function<void(Absint &, State &, const BasicBlock *, const BasicBlock *)> onEdge;
  std::vector<const Value *> ghosts;            // extra keys always live (ghost variables)
  std::map<const Value *, int> ghostKind;       // 1: only related to arguments, 2: lower bound relative to every variable
  bool lean = false;                            // addresses and returned values are of no interest
  std::set<const Value *> forceRel;
  bool kill = false;                            // set by onAccess/onCall: this path is not followed any further

  Absint(Function *f) : F(f), DL(f->getParent()->getDataLayout()) {}
  int fresh(const std::string &n) { symName.push_back(n); return nsym++; }
  std::string show(const Lin &l) const;
  std::string showState(const State &s) const;
  void prepare();
  void knownBits();
  std::set<const Value *> remat;                // pure functions of the arguments, re-evaluated on demand
  uint64_t mayBits(const Value *v) const;
  void run();

  bool tracked(const Value *v) const { return rel.count(v) != 0 || remat.count(v) != 0; }
  unsigned width(const Value *v) const { Type *t = v->getType(); if (t->isPointerTy()) return 64; return t->getIntegerBitWidth(); }
  Lin eval(State &s, const Value *v);
  const Value *baseOf(const Value *v);          // nullptr if unknown
  // returns false if infeasible
  bool add(State &s, const Lin &e);             // e >= 0
  bool addEq(State &s, const Lin &e);
  bool feas(State &s) { return feasible(s.ge); }
  bool ent(const State &s, const Lin &e) const { return entails(s.ge, e); }
  Lin havoc(State &s, unsigned w, const std::string &n);
  bool fits64(State &s, const Lin &e);
  bool inRange(State &s, const Lin &e, I lo, I hi);
  I upper(State &s, const Lin &e, unsigned maxPow); // smallest k such that e <= 2^k - 1 is entailed (or maxPow+1)
  Lin wrapTo(State &s, const Lin &e, unsigned w, const std::string &n, bool assumeNoWrap);
  void assume(State &s, const Value *c, bool v, States &out);
  void cmp(State &s, CmpInst::Predicate p, const Lin &a, const Lin &b, unsigned w, States &out);
  void execBlock(const BasicBlock *B, States in, bool rec);
  void transfer(State &&s, const Instruction *I, States &out);
  void toEdge(const State &s, const BasicBlock *from, const BasicBlock *to);
  void trim(State &s, const BasicBlock *to, const std::vector<const Value *> *extra = nullptr);
  void oblige(const Instruction *I, const std::string &kind, State &s, bool ok, const std::function<std::string()> &detail);

  // WTO
  struct Elem { const BasicBlock *b; std::vector<Elem> body; bool comp; };
  std::vector<Elem> wto;
  void buildWTO();
  void process(const Elem &e, bool rec);
  void component(const Elem &e, bool rec);
  void loop(const Elem &e, bool rec, const std::set<const BasicBlock *> &in, States entry);
  void entryDirections(const BasicBlock *h, const std::set<const BasicBlock *> &in, const States &entry, const std::vector<const Value *> &ys, std::vector<std::vector<std::pair<int, int>>> &T);
  bool entryTemplates = false;
  size_t maxLoopGroups = 3;
  std::set<const BasicBlock *> blocksOf(const Elem &e);
  std::vector<const Value *> headVars(const BasicBlock *h);
  typedef std::vector<std::pair<int, int>> Tmpl;               // sum of coef * ys[index]
  typedef std::vector<std::pair<bool, I>> Bounds;              // per template: bounded?, lower bound
  int maxQuadVars = 8, maxTripleVars = 14, widenDelay = 2, narrowSteps = 2; unsigned long nLP = 0;
  std::function<void(Absint &, const std::vector<const Value *> &, std::vector<Tmpl> &)> extraTemplates;
  std::vector<Tmpl> makeTemplates(const std::vector<const Value *> &ys);
  void bounds(const State &s, const std::vector<const Value *> &ys, const std::vector<Tmpl> &T, Bounds &out, const Bounds *only);
  static void joinBounds(Bounds &a, const Bounds &b);
  bool congruence(const PHINode *p, const std::set<const BasicBlock *> &in, I &g, I &r);
  State boundsState(const Bounds &H, const std::vector<Tmpl> &T, const std::vector<const Value *> &ys, const Cons &extra, const std::string &tag, const State *base = nullptr);
  struct Probe { std::vector<std::vector<double>> at; };     // per sample point: value of every live variable, in key order
  bool subsumed(State &a, const State &b, const Probe *pts);
  void dropSubsumed(States &v);
  void compress(States &v, const BasicBlock *at);
};
