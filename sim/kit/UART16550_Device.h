#pragma once
#include <cstdint>
namespace mmio {
class UART16550_Device {
public:
  explicit UART16550_Device(uint32_t base) : base_(base) {}
  void sync_from_backing(uint32_t *) { syncs++; }
  uint32_t base_;
  uint64_t syncs = 0;
};
} // namespace mmio
