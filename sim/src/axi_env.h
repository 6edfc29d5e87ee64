#pragma once
// The environment the stand-in interconnect consults. One instance per run.
#include <cstdint>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vsim {
// Ports: 0 icache read, 1 dcache read, 2 peripheral read, 3 dcache write,
// 4 peripheral write.
enum { P_IC = 0, P_DR = 1, P_PR = 2, P_DW = 3, P_PW = 4, NPORT = 5 };

inline uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
  uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
  bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};

// Per-port timing profile of one run (ticks; 16 ticks make one CPU cycle).
struct PortProfile {
  uint32_t lat_min = 16, lat_max = 64;
  uint32_t ready_num = 100; // percent of ticks the port is ready
  uint32_t reorder = 0;     // percent chance a due response may overtake
};

// One injected fault. Everything outside this list follows the base profile.
struct Fault {
  std::string kind; // delay | stall | hold (see DESIGN.md)
  int port = 0;
  uint64_t at = 0;  // delay: transaction index on that port; stall: tick
  uint64_t len = 0; // ticks
};

struct AxiEnv {
  uint64_t seed = 1;
  PortProfile prof[NPORT];
  bool llc_tables = false;
  // fault tables
  std::unordered_map<uint64_t, uint64_t> delay[NPORT]; // txn idx -> ticks
  std::vector<std::pair<uint64_t, uint64_t>> stall[NPORT];
  // statistics and history hash
  uint64_t txns[NPORT] = {}, delays_fired = 0, stall_ticks_hit = 0,
           reordered = 0, backpressured = 0, late_serves = 0;
  uint64_t hash = 0xcbf29ce484222325ull;
  uint64_t oob_writes = 0, oob_reads = 0;
  uint32_t max_outstanding[NPORT] = {};
  void mixin(uint64_t v) { hash = mix64(hash ^ v); }

  bool ready(int port, uint64_t tick);
  uint64_t latency(int port, uint64_t idx);
};
AxiEnv &axi_env();
// Called for every write the memory system performs on its backing store.
extern void (*on_mem_write)(int port, uint32_t addr, uint32_t bytes,
                            const uint32_t *data, uint64_t strb);
extern void (*on_mem_read)(int port, uint32_t addr, uint32_t bytes);
extern void (*on_tick)();
// Reports a bus-master rule that was broken.
extern void (*on_protocol)(const char *what, int port, uint32_t addr);
} // namespace vsim
