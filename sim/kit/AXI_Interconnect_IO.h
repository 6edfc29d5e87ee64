#pragma once
// Stand-in for the (absent) axi-interconnect-kit: port types seen by the real
// memory subsystem, instruction cache and SoC top level.
#include <array>
#include <cstdint>
#include <cstring>
namespace axi_interconnect {
constexpr int NUM_READ_MASTERS = 3;
constexpr int NUM_WRITE_MASTERS = 2;
constexpr int MASTER_ICACHE = 0;
constexpr int MASTER_DCACHE_R = 1;
constexpr int MASTER_EXTRA_R = 2;
constexpr int MASTER_DCACHE_W = 0;
constexpr int MASTER_EXTRA_W = 1;
constexpr int CACHELINE_WORDS = 16;
constexpr int AXI_UPSTREAM_PAYLOAD_BYTES = CACHELINE_WORDS * 4;
constexpr int MAX_READ_TRANSACTION_BYTES = 64;
constexpr int MAX_READ_TRANSACTION_WORDS = MAX_READ_TRANSACTION_BYTES / 4;
constexpr int MAX_OUTSTANDING = 32;
constexpr int MAX_READ_OUTSTANDING_PER_MASTER = 32;

struct WideData_t {
  uint32_t w[CACHELINE_WORDS] = {};
  uint32_t &operator[](int i) { return w[i]; }
  const uint32_t &operator[](int i) const { return w[i]; }
  void clear() { std::memset(w, 0, sizeof w); }
};
struct ReadReq_t {
  bool valid = false, ready = false, accepted = false;
  uint8_t accepted_id = 0;
  uint32_t addr = 0;
  uint8_t total_size = 0;
  uint8_t id = 0;
  bool bypass = false;
};
struct ReadResp_t {
  bool valid = false, ready = false;
  WideData_t data;
  uint8_t id = 0;
};
struct ReadMasterPort_t {
  ReadReq_t req;
  ReadResp_t resp;
};
struct WriteReq_t {
  bool valid = false, ready = false, accepted = false;
  uint32_t addr = 0;
  WideData_t wdata;
  uint64_t wstrb = 0;
  uint8_t total_size = 0;
  uint8_t id = 0;
  bool bypass = false;
};
struct WriteResp_t {
  bool valid = false, ready = false;
  uint8_t id = 0;
};
struct WriteMasterPort_t {
  WriteReq_t req;
  WriteResp_t resp;
};
} // namespace axi_interconnect
