#pragma once
// Stand-in for the axi-interconnect-kit submodule (empty in this checkout).
// Only the interface the simulator uses is reproduced; the behaviour behind it
// is a seeded memory model (see AXI_Interconnect.h).
#include "config.h"
#include <cstddef>
#include <cstdint>
#include <vector>

namespace axi_interconnect {

constexpr int MASTER_ICACHE = 0;
constexpr int MASTER_DCACHE_R = 1;
constexpr int MASTER_UNCORE_LSU_R = 2;
constexpr int MASTER_EXTRA_R = 3;
constexpr int NUM_READ_MASTERS = 4;
constexpr int MASTER_DCACHE_W = 0;
constexpr int MASTER_EXTRA_W = 1;
constexpr int NUM_WRITE_MASTERS = 2;

constexpr int CACHELINE_WORDS = CONFIG_AXI_KIT_MAX_WRITE_TRANSACTION_BYTES / 4;
constexpr uint32_t MAX_READ_TRANSACTION_BYTES = 256;
constexpr int MAX_READ_TRANSACTION_WORDS = MAX_READ_TRANSACTION_BYTES / 4;
constexpr uint32_t AXI_UPSTREAM_PAYLOAD_BYTES =
    CONFIG_AXI_KIT_MAX_WRITE_TRANSACTION_BYTES;
constexpr uint32_t MAX_OUTSTANDING = CONFIG_AXI_KIT_MAX_OUTSTANDING;
constexpr uint32_t MAX_READ_OUTSTANDING_PER_MASTER =
    CONFIG_AXI_KIT_MAX_READ_OUTSTANDING_PER_MASTER;

template <int N> struct WideWords {
  uint32_t words[N] = {0};
  uint32_t &operator[](int idx) { return words[idx]; }
  const uint32_t &operator[](int idx) const { return words[idx]; }
  void clear() {
    for (int i = 0; i < N; ++i) {
      words[i] = 0;
    }
  }
};
using WideData512_t = WideWords<MAX_READ_TRANSACTION_WORDS>;
using WriteData_t = WideWords<CACHELINE_WORDS>;

struct ReadMasterReq_t {
  bool valid = false;
  bool ready = false;
  bool accepted = false;
  uint8_t accepted_id = 0;
  uint32_t addr = 0;
  uint8_t total_size = 0;
  uint8_t id = 0;
  bool bypass = false;
};
struct ReadMasterResp_t {
  bool valid = false;
  bool ready = false;
  WideData512_t data{};
  uint8_t id = 0;
};
struct ReadMasterPort_t {
  ReadMasterReq_t req{};
  ReadMasterResp_t resp{};
};
struct WriteMasterReq_t {
  bool valid = false;
  bool ready = false;
  bool accepted = false;
  uint32_t addr = 0;
  WriteData_t wdata{};
  uint64_t wstrb = 0;
  uint8_t total_size = 0;
  uint8_t id = 0;
  bool bypass = false;
};
struct WriteMasterResp_t {
  bool valid = false;
  bool ready = false;
  uint8_t id = 0;
  uint8_t resp = 0;
};
struct WriteMasterPort_t {
  WriteMasterReq_t req{};
  WriteMasterResp_t resp{};
};

constexpr uint32_t AXI_LLC_META_ENTRY_BYTES = 8;
constexpr uint32_t AXI_LLC_REPL_BYTES = 4;

struct AXI_LLCConfig {
  bool enable = false;
  uint64_t size_bytes = 0;
  uint32_t ways = 1;
  uint32_t mshr_num = 1;
  uint32_t lookup_latency = 1;
  uint32_t line_bytes = 64;
  bool valid() const {
    return size_bytes != 0 && ways != 0 && line_bytes != 0 &&
           size_bytes % (static_cast<uint64_t>(ways) * line_bytes) == 0;
  }
  uint32_t set_count() const {
    return static_cast<uint32_t>(size_bytes /
                                 (static_cast<uint64_t>(ways) * line_bytes));
  }
};
struct AXI_LLC_Bytes_t {
  std::vector<uint8_t> bytes;
  size_t size() const { return bytes.size(); }
  uint8_t *data() { return bytes.data(); }
  const uint8_t *data() const { return bytes.data(); }
};
struct AXI_LLC_LookupIn_t {
  bool data_valid = false, meta_valid = false, valid_valid = false,
       repl_valid = false;
  AXI_LLC_Bytes_t data, meta, valid, repl;
};
struct AXI_LLC_TableReq_t {
  bool enable = false, write = false;
  uint32_t index = 0, way = 0;
  std::vector<uint8_t> payload;
  std::vector<uint8_t> byte_enable;
};
struct AXI_LLC_TableOut_t {
  AXI_LLC_TableReq_t data, meta, valid, repl;
  bool invalidate_all = false;
};
struct AXI_LLCPerfCounters_t {
  uint64_t read_access = 0, read_hit = 0, read_miss = 0;
  uint64_t read_access_by_master[NUM_READ_MASTERS] = {};
  uint64_t read_hit_by_master[NUM_READ_MASTERS] = {};
  uint64_t read_miss_by_master[NUM_READ_MASTERS] = {};
  uint64_t bypass_read = 0, write_passthrough = 0, refill = 0, mshr_merge = 0;
  uint64_t prefetch_issue = 0, prefetch_hit = 0, prefetch_drop_inflight = 0,
           prefetch_drop_mshr_full = 0, prefetch_drop_queue_full = 0,
           prefetch_drop_table_hit = 0;
  uint64_t ddr_read_total_cycles = 0, ddr_read_samples = 0,
           ddr_write_total_cycles = 0, ddr_write_samples = 0;
};
struct AXI_LLC {
  static uint32_t valid_row_bytes(const AXI_LLCConfig &cfg) {
    return (cfg.ways + 7u) / 8u;
  }
};

} // namespace axi_interconnect
