#include "common.h"
#include <sys/personality.h>
#include <unistd.h>
int cmdEncode(const std::string &bc, const std::vector<std::string> &roots, int verbose);
int cmdDispatch(const std::string &bc, const std::vector<std::string> &api);
int cmdCpuid(const std::string &bc);
int cmdEffects(const std::string &bc, const std::vector<std::string> &api);
int cmdArgs(const std::string &bc, const std::vector<std::string> &lines);
int cmdPrologue(const std::string &bc, const std::vector<std::string> &args, int verbose);
int cmdAlign(const std::string &bc, const std::vector<std::string> &roots);
int cmdUndef(const std::string &bc, const std::vector<std::string> &roots);
int cmdExit(const std::string &bc);
int cmdDump(const std::string &bc, const std::vector<std::string> &roots);
int main(int argc, char **argv) {
  // iteration order over pointer-keyed sets must not depend on address randomisation
  if (!getenv("HSA_NOASLR")) { setenv("HSA_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  if (argc < 3) { fprintf(stderr, "usage: hsa CMD module.bc [args]\n"); return 2; }
  std::vector<std::string> a; int verbose = 0;
  for (int i = 3; i < argc; i++) { std::string s = argv[i]; if (s == "-v") verbose++; else if (s[0] == '@') { for (auto &l : readLines(s.substr(1))) a.push_back(l); } else a.push_back(s); }
  std::string cmd = argv[1];
  if (cmd == "encode") return cmdEncode(argv[2], a, verbose);
  if (cmd == "dump") return cmdDump(argv[2], a);
  if (cmd == "dispatch") return cmdDispatch(argv[2], a);
  if (cmd == "cpuid") return cmdCpuid(argv[2]);
  if (cmd == "undef") return cmdUndef(argv[2], a);
  if (cmd == "exit") return cmdExit(argv[2]);
  if (cmd == "align") return cmdAlign(argv[2], a);
  if (cmd == "args") return cmdArgs(argv[2], a);
  if (cmd == "prologue") return cmdPrologue(argv[2], a, verbose);
  if (cmd == "effects") return cmdEffects(argv[2], a);
  return 2;
}
