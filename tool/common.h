#pragma once
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include <string>
#include <vector>
#include <set>
#include <map>
std::unique_ptr<llvm::Module> loadModule(const std::string &path, llvm::LLVMContext &ctx);
// inline every call to a function defined in the module (transitively) for which pred returns true
void inlineAll(llvm::Function *F, const std::set<std::string> &keep);
void inlineAllIf(llvm::Function *F, bool (*pred)(llvm::Function *));
// split struct allocas by top-level field (also when an array field is dynamically indexed)
void splitStructAllocas(llvm::Function *F);
void uniteComparisons(llvm::Function *F);
void scalariseCopies(llvm::Function *F);
void runPasses(llvm::Function *F, const std::string &pipeline);
// "file:line (function)" of an instruction (outermost source function in brackets)
std::string locOf(const llvm::Instruction *I);
std::string jsonEsc(const std::string &s);

// one line of JSON per analysed instance
void report(const std::string &rule, const std::string &instance, const std::string &loc, bool ok, const std::string &detail);
void note(const std::string &key, const std::string &val);   // {"note":..}
[[noreturn]] void broken(const std::string &why);             // analysis-broken: exit 2
std::vector<std::string> readLines(const std::string &path);
