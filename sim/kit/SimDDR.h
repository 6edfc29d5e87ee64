#pragma once
// Stand-in: the DDR model is folded into the interconnect stand-in, so this
// object only carries the pins the SoC top level copies around.
#include <cstdint>
namespace sim_ddr {
constexpr int SIM_DDR_LATENCY = 0;
constexpr int SIM_DDR_WRITE_RESP_LATENCY = 0;
constexpr int SIM_DDR_BEAT_BYTES = 32;
constexpr int SIM_DDR_WRITE_QUEUE_DEPTH = 0;
constexpr int SIM_DDR_WRITE_ACCEPT_GAP = 0;
constexpr int SIM_DDR_WRITE_DATA_FIFO_DEPTH = 0;
constexpr int SIM_DDR_WRITE_DRAIN_GAP = 0;
constexpr int SIM_DDR_WRITE_DRAIN_HIGH_WATERMARK = 0;
constexpr int SIM_DDR_WRITE_DRAIN_LOW_WATERMARK = 0;
constexpr int SIM_DDR_READ_TO_WRITE_TURNAROUND = 0;
constexpr int SIM_DDR_WRITE_TO_READ_TURNAROUND = 0;
constexpr int SIM_DDR_MAX_OUTSTANDING = 32;
struct SimDDR_IO_t {
  struct { bool arvalid = false, arready = false; uint32_t arid = 0, araddr = 0, arlen = 0, arsize = 0, arburst = 0; } ar;
  struct { bool rvalid = false, rready = false; uint32_t rid = 0, rdata = 0, rresp = 0; bool rlast = false; } r;
  struct { bool awvalid = false, awready = false; uint32_t awid = 0, awaddr = 0, awlen = 0, awsize = 0, awburst = 0; } aw;
  struct { bool wvalid = false, wready = false; uint32_t wdata = 0, wstrb = 0; bool wlast = false; } w;
  struct { bool bvalid = false, bready = false; uint32_t bid = 0, bresp = 0; } b;
};
class SimDDR {
public:
  SimDDR_IO_t io;
  void init() { io = {}; }
  void comb_outputs() {}
  void comb_inputs() {}
  void seq() {}
};
} // namespace sim_ddr
