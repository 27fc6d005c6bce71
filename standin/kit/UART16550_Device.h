#pragma once
#include <cstdint>
namespace mmio {
struct UART16550_Device {
  uint32_t base;
  explicit UART16550_Device(uint32_t b) : base(b) {}
  void sync_from_backing(const uint32_t *) {}
};
} // namespace mmio
