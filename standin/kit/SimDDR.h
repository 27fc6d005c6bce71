#pragma once
#include "config.h"
#include <cstdint>

namespace sim_ddr {
constexpr uint32_t SIM_DDR_LATENCY = 1;
constexpr uint32_t SIM_DDR_WRITE_RESP_LATENCY = 1;
constexpr uint32_t SIM_DDR_BEAT_BYTES = CONFIG_AXI_KIT_SIM_DDR_BEAT_BYTES;
constexpr uint32_t SIM_DDR_WRITE_QUEUE_DEPTH = 1;
constexpr uint32_t SIM_DDR_WRITE_ACCEPT_GAP = 0;
constexpr uint32_t SIM_DDR_WRITE_DATA_FIFO_DEPTH = 1;
constexpr uint32_t SIM_DDR_WRITE_DRAIN_GAP = 0;
constexpr uint32_t SIM_DDR_WRITE_DRAIN_HIGH_WATERMARK = 1;
constexpr uint32_t SIM_DDR_WRITE_DRAIN_LOW_WATERMARK = 0;
constexpr uint32_t SIM_DDR_READ_TO_WRITE_TURNAROUND = 0;
constexpr uint32_t SIM_DDR_WRITE_TO_READ_TURNAROUND = 0;
constexpr uint32_t SIM_DDR_MAX_OUTSTANDING = 1;

struct AR_t {
  bool arvalid = false, arready = false;
  uint32_t arid = 0, araddr = 0, arlen = 0, arsize = 0, arburst = 0;
};
struct R_t {
  bool rvalid = false, rready = false, rlast = false;
  uint32_t rid = 0, rresp = 0;
  uint64_t rdata = 0;
};
struct AW_t {
  bool awvalid = false, awready = false;
  uint32_t awid = 0, awaddr = 0, awlen = 0, awsize = 0, awburst = 0;
};
struct W_t {
  bool wvalid = false, wready = false, wlast = false;
  uint64_t wdata = 0;
  uint32_t wstrb = 0;
};
struct B_t {
  bool bvalid = false, bready = false;
  uint32_t bid = 0, bresp = 0;
};
struct SimDDR_IO_t {
  AR_t ar;
  R_t r;
  AW_t aw;
  W_t w;
  B_t b;
};
// The channel-level DRAM is folded into the stand-in interconnect, so this
// object only carries the wires.
struct SimDDR {
  SimDDR_IO_t io{};
  void init() {}
  void comb_outputs() {}
  void comb_inputs() {}
  void seq() {}
};
} // namespace sim_ddr
