#pragma once
// Per-commit monitor: compares every retired instruction of the simulated
// machine with the architectural model and keeps the device, interrupt,
// memory-history and progress oracles.
#include "axi_env.h"
#include "model.h"
#include <array>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

struct RefCpuState;

namespace vsim {

struct Devices { // committed-order view of the modelled peripherals
  uint64_t off = 0, cmp = 0;
  uint32_t dsrc = 0, ddst = 0, dlen = 0, dctrl = 0, dstat = 0;
  bool uart_irq = false, dma_irq = false;
};

struct Monitor {
  // limits
  uint64_t max_cycles = 2000000, stall_limit = 40000, irq_commit_limit = 200;
  bool check_values = true;
  // divergence injection (used to test the simulator's own checker)
  bool inject = false, injected = false;
  uint64_t inject_at = 0;
  std::string inject_kind;
  uint32_t inject_a = 0, inject_b = 0;
  bool strict_off = false; // monitor only records, never judges

  // state
  bool active = false;
  Model *model = nullptr;
  uint64_t commits = 0, last_commit_cycle = 0;
  uint64_t recent[24] = {}; // cycles of the last retirements
  uint64_t cycle = 0, end_commits = 0;
  uint64_t commits_before = 0; // retired before the cycle of the last retirement
  // Snapshot the run starts from (checkpoint mode): what the file says.
  Model *truth = nullptr;
  std::set<uint32_t> truth_pages; // RAM pages that are not all zero
  // What the performance report has to say.
  struct Tally { uint64_t total = 0, loads = 0, stores = 0, cond = 0, jalr = 0, ret = 0, odd = 0, fuzzy = 0, cycle = 0, devld = 0, devst = 0, lines = 0, wbs = 0; };
  uint64_t prerun = 0; // instructions asked of the sequential executor before the detailed machine starts
  bool handed_over = false; // the detailed machine starts from another executor's state
  Tally tally, mark;
  uint64_t mark_at = 0; // retired instructions after which the report starts anew
  bool ended = false;
  Devices dev;
  uint64_t mtip_last = ~0ull, meip_last = ~0ull; // last cycle line was high
  uint64_t mtip_low = 0, meip_low = 0;           // last cycle it was not
  bool mtip_now = false, meip_now = false;
  uint64_t irq_wait_commits = 0;
  std::string uart_expect;
  // MMIO accesses that must reach the external device bus, in order
  struct Ext { bool wr; uint32_t addr, bytes, data; uint64_t at = 0; };
  std::deque<Ext> ext_done; // performed on the bus, not yet matched
  std::deque<Ext> ext_owed; // committed stores not yet seen on the bus
  uint64_t ext_seen = 0;
  // committed values per RAM word, oldest first (only words ever stored)
  std::unordered_map<uint32_t, std::vector<uint32_t>> hist;
  std::unordered_map<uint32_t, std::array<uint32_t, 4>> wb_idx; // per byte of the word
  uint64_t wb_words = 0;
  // counters
  std::map<std::string, uint64_t> cnt;
  uint64_t hash = 0x1234, timed_hash = 0x4321;
  std::deque<std::string> tail;
  size_t tail_max = 40;

  void note_effect(const Model &m, const StepOut &o);
  void note_commit(uint32_t pc, uint32_t inst);
  // Lines each first-level cache asked memory for: how often, and how many different ones per set.
  bool keep = false;
  std::unordered_map<uint32_t, uint32_t> line_reads[2];
  std::unordered_map<uint32_t, uint32_t> set_lines[2];
  std::unordered_map<uint32_t, std::vector<uint64_t>> pass_ends; // when the last instruction of each judged loop retired
  std::unordered_map<uint32_t, uint32_t> ran_lines; // code lines instructions retired from, and reads of them since
  void on_line(bool code, uint32_t addr);
  void step_checked(Model &m, StepOut &o);
  void sync_checked(Model &m, const RefCpuState &st);
  void restored(Model &m);
  // One step of the sequential executor, devices included.
  void ref_step(Model &m, StepOut &o, bool print);
  void ram_restored(Model &m, const uint32_t *ram, size_t bytes);
  void count(uint32_t inst, bool fuzzy);
  void on_cycle();
  uint32_t lines() const { return (mtip_now ? 0x80 : 0) | (meip_now ? 0x800 : 0); }
  void on_bus(bool wr, uint32_t addr, uint32_t bytes, uint32_t data);
  void on_ram_write(uint32_t addr, uint32_t bytes, const uint32_t *d, uint64_t strb);
  uint32_t dev_load(uint32_t pa, uint32_t bytes, uint32_t f3, uint32_t got,
                    bool &wild, std::string &why);
  void dev_store(Model &m, uint32_t pa, uint32_t data, uint32_t bytes);
  void record_store(Model &m, const StepOut &o);
  void post_state(Model &m, const StepOut &o);
  void fail(const char *kind, const char *fmt, ...);
  void finish(int code);
};
extern Monitor mon;
extern std::string result_path;
void emit(const char *status, const std::string &kind, const std::string &msg);
} // namespace vsim
