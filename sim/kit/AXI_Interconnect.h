#pragma once
// Stand-in interconnect + DDR. It plays the role of "network and disk" in the
// simulation: every accept, delay, reorder and stall comes from vsim::AxiEnv,
// which is driven by the run's seed and fault list.
#include "AXI_Interconnect_IO.h"
#include "SimDDR.h"
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <vector>

namespace axi_interconnect {
constexpr uint32_t AXI_LLC_META_ENTRY_BYTES = 8;
constexpr uint32_t AXI_LLC_REPL_BYTES = 8;

struct AXI_LLCConfig {
  bool enable = false;
  uint64_t size_bytes = 0;
  uint32_t ways = 1;
  uint32_t mshr_num = 1;
  uint32_t lookup_latency = 1;
  uint32_t line_bytes = 64;
  // The LLC tables of the memory subsystem are only exercised by runs that
  // ask for them (they cost most of the host time).
  bool valid() const;
  uint32_t set_count() const;
};
struct AXI_LLC {
  static uint32_t valid_row_bytes(const AXI_LLCConfig &c) {
    return (c.ways + 7) / 8;
  }
};
struct LlcBytes { std::vector<uint8_t> bytes; };
struct AXI_LLC_LookupIn_t {
  LlcBytes data, meta, valid, repl;
  bool data_valid = false, meta_valid = false, valid_valid = false,
       repl_valid = false;
};
struct AXI_LLC_TableReq_t {
  bool enable = false, write = false;
  uint32_t index = 0, way = 0;
  std::vector<uint8_t> payload, byte_enable;
};
struct AXI_LLC_TableOut_t {
  AXI_LLC_TableReq_t data, meta, valid, repl;
  bool invalidate_all = false;
};
struct AXI_LLCPerfCounters_t {
  uint64_t read_access = 0, read_hit = 0, read_miss = 0;
  uint64_t read_access_by_master[NUM_READ_MASTERS] = {};
  uint64_t read_hit_by_master[NUM_READ_MASTERS] = {};
  uint64_t read_miss_by_master[NUM_READ_MASTERS] = {};
  uint64_t bypass_read = 0, write_passthrough = 0, refill = 0, mshr_merge = 0;
  uint64_t prefetch_issue = 0, prefetch_hit = 0, prefetch_drop_inflight = 0,
           prefetch_drop_mshr_full = 0, prefetch_drop_queue_full = 0,
           prefetch_drop_table_hit = 0;
  uint64_t ddr_read_total_cycles = 0, ddr_read_samples = 0,
           ddr_write_total_cycles = 0, ddr_write_samples = 0;
};
struct ReadReqHoldLatch { bool valid = false; };

struct Txn {
  uint32_t addr = 0;
  uint32_t bytes = 0;
  uint8_t id = 0;
  uint64_t seqno = 0;    // per-master index
  uint64_t serve_at = 0; // tick memory is read / written
  uint64_t due_at = 0;   // earliest tick the response may be shown
  bool served = false;
  WideData_t data;
  uint64_t strb = 0;
};

class AXI_Interconnect {
public:
  ReadMasterPort_t read_ports[NUM_READ_MASTERS];
  WriteMasterPort_t write_ports[NUM_WRITE_MASTERS];
  sim_ddr::SimDDR_IO_t axi_ddr_io, axi_mmio_io, axi_io;

  void init();
  void comb_outputs();
  void comb_inputs();
  void seq();
  void set_llc_config(const AXI_LLCConfig &) {}
  void set_llc_lookup_in(const AXI_LLC_LookupIn_t &) {}
  const AXI_LLC_TableOut_t &get_llc_table_out() const { return table_out; }
  const AXI_LLCPerfCounters_t &get_llc_perf_counters() const { return perf; }

  bool req_ready_r[NUM_READ_MASTERS] = {};
  bool req_drop_warned[NUM_READ_MASTERS] = {};
  ReadReqHoldLatch read_req_hold[NUM_READ_MASTERS] = {};
  bool w_req_ready_r[NUM_WRITE_MASTERS] = {};
  bool read_req_accepted[NUM_READ_MASTERS] = {};
  uint8_t read_req_accepted_id[NUM_READ_MASTERS] = {};
  bool write_req_accepted[NUM_WRITE_MASTERS] = {};

  uint64_t tick = 0;
  std::deque<Txn> rq[NUM_READ_MASTERS], wq[NUM_WRITE_MASTERS];
  int r_shown[NUM_READ_MASTERS], w_shown[NUM_WRITE_MASTERS];
  uint64_t r_count[NUM_READ_MASTERS] = {}, w_count[NUM_WRITE_MASTERS] = {};
  AXI_LLC_TableOut_t table_out;
  AXI_LLCPerfCounters_t perf;
};
} // namespace axi_interconnect
