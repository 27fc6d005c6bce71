#pragma once
// Stand-in for the kit's shared memory fabric. Every request is served from
// pmem after a seeded delay; request acceptance, response delay and response
// order between ids are all drawn from g_vp_axi, which the harness sets.
//
// Handshake (as the simulator's bridges expect it):
//   comb_outputs: a response that was valid and ready is retired first, then
//                 the port outputs of this tick are driven.
//   comb_inputs : req.valid && req.ready is an accept, visible to the master
//                 from the next tick as req.accepted/accepted_id.
#include "AXI_Interconnect_IO.h"
#include "PhysMemory.h"
#include "SimDDR.h"
#include "vp_hooks.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>

struct VpAxiControl {
  uint64_t seed = 1;
  uint32_t rd_lat_min = 1, rd_lat_max = 1;   // ticks
  uint32_t wr_lat_min = 1, wr_lat_max = 1;   // ticks
  uint32_t ready_pct = 100;                  // chance that req.ready is high
  uint32_t spike_pct = 0;                    // chance of an extra long delay
  uint32_t spike_lat = 0;
  bool reorder = false;                      // answer ids out of order
  uint64_t flip = 0;                         // corrupt the n-th read
  uint32_t flip_bit = 0;
  bool llc_traffic = false;                  // exercise the LLC table storage
  // observations
  uint64_t reads = 0, writes = 0, rejected = 0, reordered = 0;
  uint64_t samples = 0, flipped = 0;
  uint32_t flip_addr = 0;
  uint64_t id_reuse = 0;                     // protocol violation by a master
  uint64_t unstable = 0;                     // request changed before accept
  uint64_t llc_reads = 0, llc_writes = 0, llc_bad = 0;
};
extern VpAxiControl g_vp_axi;

namespace axi_interconnect {

struct ReadReqHoldLatch {
  bool valid = false;
  uint32_t addr = 0;
};

class AXI_Interconnect {
public:
  ReadMasterPort_t read_ports[NUM_READ_MASTERS];
  WriteMasterPort_t write_ports[NUM_WRITE_MASTERS];
  sim_ddr::SimDDR_IO_t axi_io{}, axi_ddr_io{}, axi_mmio_io{};
  bool read_req_accepted[NUM_READ_MASTERS] = {};
  uint8_t read_req_accepted_id[NUM_READ_MASTERS] = {};
  bool write_req_accepted[NUM_WRITE_MASTERS] = {};

  void init() {
    rng_ = g_vp_axi.seed * 0x9E3779B97F4A7C15ull + 0x1234567ull;
    for (int i = 0; i < NUM_READ_MASTERS; ++i) {
      rq_[i].clear();
      read_ports[i] = ReadMasterPort_t{};
      req_ready_r[i] = true;
      read_ports[i].req.ready = true;
      read_req_accepted[i] = false;
      rvis_[i] = false;
    }
    for (int i = 0; i < NUM_WRITE_MASTERS; ++i) {
      wq_[i].clear();
      write_ports[i] = WriteMasterPort_t{};
      w_req_ready_r[i] = true;
      write_ports[i].req.ready = true;
      write_req_accepted[i] = false;
      wvis_[i] = false;
    }
    shadow_valid_ = false;
    table_out_ = AXI_LLC_TableOut_t{};
  }
  void set_llc_config(const AXI_LLCConfig &cfg) {
    llc_cfg_ = cfg;
    llc_shadow_.clear();
    llc_wait_ = 0;
  }
  void set_llc_lookup_in(const AXI_LLC_LookupIn_t &in) { lookup_in_ = in; }
  const AXI_LLC_TableOut_t &get_llc_table_out() const { return table_out_; }
  const AXI_LLCPerfCounters_t &get_llc_perf_counters() const { return perf_; }

  void comb_outputs() {
    for (int m = 0; m < NUM_READ_MASTERS; ++m) {
      auto &p = read_ports[m];
      if (rvis_[m] && p.resp.ready) {
        rq_[m].erase(rq_[m].begin() + rsel_[m]);
        rvis_[m] = false;
      }
      p.req.ready = rq_[m].size() < MAX_READ_OUTSTANDING_PER_MASTER &&
                    pct(g_vp_axi.ready_pct);
      // this master withdraws its request a cycle after the accept
      if (m == MASTER_EXTRA_R && rcool_ != 0) {
        p.req.ready = false;
      }
      p.req.accepted = read_req_accepted[m];
      p.req.accepted_id = read_req_accepted_id[m];
      if (!rvis_[m]) {
        select_read(m);
      }
      p.resp.valid = rvis_[m];
      if (rvis_[m]) {
        const auto &t = rq_[m][rsel_[m]];
        p.resp.id = t.id;
        p.resp.data = t.data;
      }
    }
    for (int m = 0; m < NUM_WRITE_MASTERS; ++m) {
      auto &p = write_ports[m];
      if (wvis_[m] && p.resp.ready) {
        wq_[m].pop_front();
        wvis_[m] = false;
      }
      p.req.ready = wq_[m].size() < MAX_OUTSTANDING && pct(g_vp_axi.ready_pct);
      if (m == MASTER_EXTRA_W && wcool_ != 0) {
        p.req.ready = false;
      }
      p.req.accepted = write_req_accepted[m];
      if (!wvis_[m] && !wq_[m].empty() && wq_[m].front().delay == 0) {
        wvis_[m] = true;
      }
      p.resp.valid = wvis_[m];
      if (wvis_[m]) {
        p.resp.id = wq_[m].front().id;
      }
    }
  }

  void comb_inputs() {
    for (int m = 0; m < NUM_READ_MASTERS; ++m) {
      auto &p = read_ports[m];
      read_req_accepted[m] = false;
      if (p.req.valid && !p.req.ready) {
        g_vp_axi.rejected++;
      }
      if (p.req.valid && p.req.ready) {
        RTxn t;
        t.addr = p.req.addr;
        t.size = static_cast<uint32_t>(p.req.total_size) + 1u;
        t.id = p.req.id;
        t.delay = delay(g_vp_axi.rd_lat_min, g_vp_axi.rd_lat_max);
        for (const auto &o : rq_[m]) {
          if (o.id == t.id) {
            g_vp_axi.id_reuse++;
          }
        }
        // half of the reads sample memory when accepted, half when answered
        t.late = (next() & 1u) != 0;
        if (!t.late) {
          sample(t);
        }
        rq_[m].push_back(t);
        g_vp_axi.reads++;
        vp_on_read(m, t.addr, t.size, t.id);
        read_req_accepted[m] = true;
        if (m == MASTER_EXTRA_R) {
          rcool_ = 2 * CONFIG_AXI_SUBSYSTEM_FREQ_DIV;
        }
        read_req_accepted_id[m] = p.req.id;
      }
      p.req.accepted = read_req_accepted[m];
      p.req.accepted_id = read_req_accepted_id[m];
    }
    for (int m = 0; m < NUM_WRITE_MASTERS; ++m) {
      auto &p = write_ports[m];
      write_req_accepted[m] = false;
      if (p.req.valid && !p.req.ready) {
        g_vp_axi.rejected++;
      }
      if (p.req.valid && p.req.ready) {
        WTxn t;
        t.addr = p.req.addr;
        t.size = static_cast<uint32_t>(p.req.total_size) + 1u;
        t.strb = p.req.wstrb;
        t.data = p.req.wdata;
        t.id = p.req.id;
        t.delay = delay(g_vp_axi.wr_lat_min, g_vp_axi.wr_lat_max);
        wq_[m].push_back(t);
        g_vp_axi.writes++;
        {
          uint32_t words[CACHELINE_WORDS];
          for (int w = 0; w < static_cast<int>(CACHELINE_WORDS); ++w) {
            words[w] = t.data[w];
          }
          vp_on_write(m, t.addr, t.size, t.strb, words);
        }
        write_req_accepted[m] = true;
        if (m == MASTER_EXTRA_W) {
          wcool_ = 2 * CONFIG_AXI_SUBSYSTEM_FREQ_DIV;
        }
      }
      p.req.accepted = write_req_accepted[m];
    }
  }

  void seq() {
    rcool_ -= rcool_ != 0;
    wcool_ -= wcool_ != 0;
    for (int m = 0; m < NUM_READ_MASTERS; ++m) {
      for (auto &t : rq_[m]) {
        if (t.delay > 0) {
          t.delay--;
        }
      }
    }
    for (int m = 0; m < NUM_WRITE_MASTERS; ++m) {
      for (auto &t : wq_[m]) {
        if (t.delay > 0) {
          t.delay--;
        }
      }
      // memory is updated in order, no later than the response
      for (auto &t : wq_[m]) {
        if (t.delay != 0) {
          break;
        }
        if (!t.done) {
          apply(t);
        }
      }
    }
    llc_step();
    vp_on_tick();
  }

  bool quiescent() const {
    for (int m = 0; m < NUM_READ_MASTERS; ++m) {
      if (!rq_[m].empty()) {
        return false;
      }
    }
    for (int m = 0; m < NUM_WRITE_MASTERS; ++m) {
      if (!wq_[m].empty()) {
        return false;
      }
    }
    return true;
  }

private:
  struct RTxn {
    uint32_t addr = 0, size = 0, delay = 0;
    uint8_t id = 0;
    bool late = false, sampled = false;
    WideData512_t data{};
  };
  struct WTxn {
    uint32_t addr = 0, size = 0, delay = 0;
    uint8_t id = 0;
    bool done = false;
    uint64_t strb = 0;
    WriteData_t data{};
  };

  bool req_ready_r[NUM_READ_MASTERS] = {};
  bool req_drop_warned[NUM_READ_MASTERS] = {};
  ReadReqHoldLatch read_req_hold[NUM_READ_MASTERS] = {};
  bool w_req_ready_r[NUM_WRITE_MASTERS] = {};

  std::deque<RTxn> rq_[NUM_READ_MASTERS];
  std::deque<WTxn> wq_[NUM_WRITE_MASTERS];
  bool rvis_[NUM_READ_MASTERS] = {};
  size_t rsel_[NUM_READ_MASTERS] = {};
  bool wvis_[NUM_WRITE_MASTERS] = {};
  uint64_t rng_ = 1;
  uint32_t rcool_ = 0, wcool_ = 0;
  bool shadow_valid_ = false;
  AXI_LLCConfig llc_cfg_{};
  AXI_LLC_LookupIn_t lookup_in_{};
  AXI_LLC_TableOut_t table_out_{};
  AXI_LLCPerfCounters_t perf_{};
  std::vector<uint8_t> llc_shadow_;
  uint32_t llc_wait_ = 0, llc_index_ = 0;

  uint64_t next() {
    rng_ ^= rng_ << 13;
    rng_ ^= rng_ >> 7;
    rng_ ^= rng_ << 17;
    return rng_;
  }
  bool pct(uint32_t p) { return p >= 100 || (next() >> 20) % 100 < p; }
  uint32_t delay(uint32_t lo, uint32_t hi) {
    uint32_t d = lo + (hi > lo ? static_cast<uint32_t>((next() >> 16) %
                                                       (hi - lo + 1))
                               : 0u);
    if (g_vp_axi.spike_pct && pct(g_vp_axi.spike_pct)) {
      d += g_vp_axi.spike_lat;
    }
    return d == 0 ? 1 : d;
  }
  // A device on the bus: data travels in the low bytes, whatever the address.
  static bool device(uint32_t a) { return a >= 0x1fb00000u && a < 0x1fb01000u; }
  void sample(RTxn &t) {
    const uint32_t base = t.addr & ~3u;
    if (device(t.addr)) {
      t.data[0] = vp_device_read(t.addr, t.size);
      t.sampled = true;
      return;
    }
    for (uint32_t w = 0; w * 4 < t.size && w < MAX_READ_TRANSACTION_WORDS;
         ++w) {
      t.data[static_cast<int>(w)] = pmem_read(base + w * 4);
    }
    t.sampled = true;
    if (++g_vp_axi.samples == g_vp_axi.flip) {
      const uint32_t words = t.size < 4 ? 1 : t.size / 4;
      const uint32_t w = g_vp_axi.flip_bit / 32 % words;
      t.data[static_cast<int>(w)] ^= 1u << (g_vp_axi.flip_bit & 31);
      g_vp_axi.flipped++;
      g_vp_axi.flip_addr = base + w * 4;
    }
  }
  void apply(WTxn &t) {
    const uint32_t base = t.addr & ~3u;
    if (device(t.addr)) {
      vp_device_write(t.addr, t.size, t.strb, t.data[0]);
      t.done = true;
      return;
    }
    for (uint32_t w = 0; w * 4 < t.size && w < CACHELINE_WORDS; ++w) {
      const uint32_t en = static_cast<uint32_t>((t.strb >> (w * 4)) & 0xF);
      if (en == 0) {
        continue;
      }
      uint32_t mask = 0;
      for (int b = 0; b < 4; ++b) {
        if (en & (1u << b)) {
          mask |= 0xFFu << (8 * b);
        }
      }
      const uint32_t old = pmem_read(base + w * 4);
      pmem_write(base + w * 4,
                 (old & ~mask) | (t.data[static_cast<int>(w)] & mask));
    }
    t.done = true;
  }
  void select_read(int m) {
    size_t n = 0;
    size_t pick = 0;
    for (size_t i = 0; i < rq_[m].size(); ++i) {
      if (rq_[m][i].delay == 0) {
        if (n == 0 || (g_vp_axi.reorder && (next() & 1u))) {
          pick = i;
        }
        n++;
      } else if (!g_vp_axi.reorder) {
        break;
      }
    }
    if (n == 0) {
      return;
    }
    if (pick != 0) {
      g_vp_axi.reordered++;
    }
    rsel_[m] = pick;
    if (!rq_[m][pick].sampled) {
      sample(rq_[m][pick]);
    }
    rvis_[m] = true;
  }
  void llc_step() {}
};
} // namespace axi_interconnect
