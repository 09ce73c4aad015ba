// Must-facts: which capability flags / CPUID bits are known to be set at a program point.
#pragma once
#include "common.h"
#include <functional>
typedef std::set<std::string> Atoms;
struct MustFacts {
  llvm::Function *F;
  // atoms implied by v being true (truth) / false
  std::function<bool(const llvm::Value *, bool truth, Atoms &)> leaf;
  std::map<const llvm::BasicBlock *, Atoms> in; std::set<const llvm::BasicBlock *> reached;
  std::function<void(const llvm::Instruction *, Atoms &)> step;   // facts generated by an instruction
  MustFacts(llvm::Function *f) : F(f) {}
  Atoms implied(const llvm::Value *c, bool truth, int depth = 0);
  void solve(const Atoms &entry);
  Atoms at(const llvm::Instruction *I);
  Atoms onEdge(const llvm::BasicBlock *from, const llvm::BasicBlock *to);
};
