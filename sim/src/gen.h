#pragma once
#include "axi_env.h"
#include <set>
#include <string>
#include <vector>
namespace vsim {
struct Plan {
  std::string scenario = "mix";
  uint64_t seed = 1;
  int nitems = 60;
  std::set<int> drop;   // program items left out (minimisation)
  std::set<int> fdrop;  // faults left out (minimisation)
  std::string env = "swarm"; // swarm | calm | faulty
  uint64_t envseed = 0;      // 0: same as seed
  std::string mode = "run";  // run | fast | ckpt | ref
  uint64_t fast = 0;         // fast: instructions executed before the switch
  // ckpt: instructions before the snapshot, recorded interval, warm-up (-1: default)
  uint64_t at = 0, interval = 0;
  int64_t warm = -1;
  uint64_t limit = 0;        // instruction limit given on the command line, 0: none
  std::string damage;        // what is wrong with the input file or the options
  uint64_t sigint = 0;       // cycle at which the operator interrupts the run
  std::string inject;        // kind:at:a:b
  std::string opts;
};
struct Image {
  std::vector<uint32_t> words; // from 0x80000000
  uint32_t entry = 0x80000000u;
  std::vector<std::string> item_names;
  std::string features;
  uint32_t expect_dynamic = 0;
  std::string learn; // the kind of regular loop this program is made of
  // Loops whose pace is judged: where each pass ends, and what a pass may take.
  struct Pace { std::string kind; uint32_t pc, n; };
  std::vector<Pace> paces;
};
Image generate(const Plan &p);
void make_env(const Plan &p, AxiEnv &env, std::vector<Fault> &faults);
} // namespace vsim
