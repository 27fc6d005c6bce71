// Requests the load/store unit sends to the data cache; the first one of each
// queue entry is told apart from repetitions.
#include "../res/res.h"
#define private public
#include "SimCpu.h"
#include "MemUtils.h"
#undef private
#include "stat.h"

extern SimCpu cpu;

namespace {
struct Slot {
  uint32_t key = ~0u;
  bool sent = false;
};
Slot ld[LDQ_SIZE], st[STQ_SIZE];
template <class E> bool first(Slot &s, const E &e) {
  const uint32_t k = static_cast<uint32_t>(e.rob_idx) << 1 | static_cast<uint32_t>(e.rob_flag);
  const bool f = !s.sent || s.key != k;
  s.key = k;
  s.sent = true;
  return f;
}
} // namespace

void stat_request_cycle(uint64_t &all, uint64_t &initial) {
  auto &lsu = *cpu.back.lsu;
  const auto &p = lsu.out.lsu2dcache->req_ports;
  for (int i = 0; i < LDQ_SIZE; i++)
    if (lsu.cur.ldq[i].load_state == LoadState::Empty)
      ld[i].sent = false;
  for (int i = lsu.cur.stq_count; i < STQ_SIZE; i++)
    st[(lsu.cur.stq_head + i) % STQ_SIZE].sent = false;
  for (const auto &x : p.load_ports)
    if (x.valid) {
      all++;
      const uint32_t w = lsu_req_id_wait_idx(x.req_id);
      const uint32_t q = lsu.nxt.wait_dcache_ldq[w].ldq_idx;
      initial += first(ld[q], lsu.nxt.ldq[q]);
    }
  for (const auto &x : p.store_ports)
    if (x.valid) {
      all++;
      initial += first(st[x.req_id], lsu.nxt.stq[x.req_id]);
    }
}
