#pragma once
#include "exec.hpp"
#include <llvm/IR/Module.h>
namespace sx {
struct DFunc;
void interpLoad(llvm::Module *m);
void interpInitMemory();
Val interpRun(llvm::Function *f, const std::vector<Val> &args);
llvm::Module *interpModule();
extern std::set<std::string> fnExecuted;
extern u64 instrCount;
extern std::set<std::string> globalsWritten;
extern std::set<std::string> globalsHavocked; extern unsigned havocMin;
void havocGlobals(bool onlyWritten);
extern std::set<std::string> knownWritten;
}
