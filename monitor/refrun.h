#pragma once
// One instruction of the sequential machine with devices: used for
// fast-forwarding, for reference-only runs and to compute checkpoints.
#include "devmodel.h"

namespace vp {

// Executes one instruction, or takes a pending interrupt. The console byte is
// returned through `out` (-1: none); false when the interrupt was taken.
inline bool ref_step(Iss &iss, DevModel &dev, uint64_t now, int &out,
                     bool irqs = true) {
  dev.iss = &iss;
  out = -1;
  const uint32_t lines = (dev.timer_on(now) ? 1u << 7 : 0u) |
                         (dev.ext_on() ? 1u << 11 : 0u);
  const uint32_t win = irqs ? iss.irq_winners(lines, lines) : 0;
  if (win) {
    std::memset(&iss.e, 0, sizeof iss.e);
    iss.e.pc = iss.s.pc;
    iss.n = iss.after_interrupt(static_cast<uint32_t>(__builtin_ctz(win)));
    iss.s = iss.n;
    return false;
  }
  iss.step();
  if (!iss.e.trap && ((iss.e.mmio && iss.e.load) || iss.e.irq_csr)) {
    Adopt ad;
    ad.use = true;
    ad.mip_dev = lines;
    if (iss.e.mmio && iss.e.load) {
      const uint32_t f3 = iss.e.inst >> 12 & 7;
      uint32_t want = 0;
      dev.check_load(iss.e.ld_pa, iss.e.ld_size, !(f3 & 4), 0, now, want);
      ad.rd = want;
    }
    iss.step(ad);
  }
  if (iss.e.store && iss.e.mmio && DevModel::modeled(iss.e.st_pa)) {
    const Effect e = iss.e;
    iss.s = iss.n;
    dev.store(e.st_pa, e.st_data, e.st_size, now);
    if (e.st_pa == DevModel::UART)
      out = static_cast<int>(e.st_data & 255);
  } else {
    iss.apply();
  }
  return true;
}

// The machine at reset with a program in memory.
inline void boot(Iss &iss, DevModel &dev, const uint8_t *img, size_t n) {
  static const uint32_t stub[4] = {0xf1402573u, 0x83e005b7u, 0x800002b7u,
                                   0x00028067u};
  iss.reset(0);
  iss.fma = false;
  dev = DevModel();
  dev.iss = &iss;
  std::memcpy(iss.ram, img, n);
  for (uint32_t i = 0; i < 4; i++)
    iss.io[4 * i] = stub[i];
  iss.io[0x10000004u] = 0x6000;
}

} // namespace vp
