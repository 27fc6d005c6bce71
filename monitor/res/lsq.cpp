// Load and store queue slots: a taken one belongs to exactly one instruction
// in flight, or (stores) to a committed store that is still draining.
#include "res.h"
#define private public
#include "SimCpu.h"
#undef private

extern SimCpu cpu;

namespace {
bool started;
LoadState free_ld;

bool inflight(uint32_t rob_idx, uint32_t flag) {
  const uint32_t line = rob_idx / ROB_BANK_NUM, bank = rob_idx % ROB_BANK_NUM;
  auto &e = cpu.back.rob->entry[bank][line];
  return line < ROB_LINE_NUM && e.valid && e.uop.rob_flag == flag;
}

template <class T> void ring(const char *name, const T &q, uint32_t head,
                             uint32_t count, uint32_t size) {
  if (count > size)
    res::bad("lsu_ring", "%s holds %u of %u", name, count, size);
  uint32_t in = 0, all = 0;
  for (uint32_t k = 0; k < size; k++) {
    all += (bool)q[k].valid;
    if (k < count)
      in += (bool)q[(head + k) % size].valid;
  }
  if (in != all)
    res::bad("lsu_ring", "%s: %u entries outside its %u", name, all - in, count);
}

void check(uint64_t idle) {
  auto &s = cpu.back.lsu->cur;
  if (!started) {
    started = true;
    free_ld = s.ldq[0].load_state;
  }
  static uint8_t seen[ROB_BANK_NUM * ROB_LINE_NUM];
  std::memset(seen, 0, sizeof seen);
  uint32_t nl = 0;
  for (int i = 0; i < LDQ_SIZE; i++) {
    auto &e = s.ldq[i];
    if (e.load_state == free_ld)
      continue;
    nl++;
    if (!inflight(e.rob_idx, e.rob_flag))
      res::bad("ldq_leak", "load slot %d is held for reorder slot %u, which is free",
               i, (unsigned)e.rob_idx);
    if (seen[e.rob_idx]++)
      res::bad("ldq_dup", "two load slots for reorder slot %u", (unsigned)e.rob_idx);
  }
  std::memset(seen, 0, sizeof seen);
  const uint32_t n = s.stq_count, c = s.stq_commit_count;
  if (n > STQ_SIZE || c > n || (s.stq_head + c) % STQ_SIZE != s.stq_commit)
    res::bad("stq_ptr", "store queue head %u commit %u count %u committed %u",
             (unsigned)s.stq_head, (unsigned)s.stq_commit, n, c);
  for (uint32_t k = c; k < n; k++) {
    const uint32_t i = (s.stq_head + k) % STQ_SIZE;
    auto &e = s.stq[i];
    if (!inflight(e.rob_idx, e.rob_flag))
      res::bad("stq_leak", "store slot %u is held for reorder slot %u, which is free",
               i, (unsigned)e.rob_idx);
    if (seen[e.rob_idx]++)
      res::bad("stq_dup", "two store slots for reorder slot %u", (unsigned)e.rob_idx);
    if (cpu.back.rob->entry[e.rob_idx % ROB_BANK_NUM][e.rob_idx / ROB_BANK_NUM]
            .uop.stq_idx != i)
      res::bad("stq_owner", "store slot %u and its instruction disagree", i);
  }
  ring("translation wait (stores)", s.wait_mmu_stq, s.wait_mmu_stq_head,
       s.wait_mmu_stq_count, STQ_SIZE);
  ring("translation wait (loads)", s.wait_mmu_ldq, s.wait_mmu_ldq_head,
       s.wait_mmu_ldq_count, LDQ_SIZE);
  ring("translated stores", s.mmu_done_stq, s.mmu_done_stq_head,
       s.mmu_done_stq_count, STQ_SIZE);
  ring("finished", s.finish, s.finish_head, s.finish_count, LDQ_SIZE);
  ring("forwarding", s.stlf_queue, s.stlf_queue_head, s.stlf_queue_count, LDQ_SIZE);
  ring("cache wait", s.wait_dcache_ldq, s.wait_dcache_ldq_head,
       s.wait_dcache_ldq_count, LDQ_SIZE);
  if (idle >= res::SETTLED) {
    if (nl)
      res::bad("ldq_drain", "%u load slots taken when empty", nl);
    if (n != c)
      res::bad("stq_drain", "%u uncommitted stores when empty", n - c);
    if (!n)
      res::count("lsq_empty");
  }
  res::peak("ldq_peak", nl);
  res::peak("stq_peak", n);
  if (nl == LDQ_SIZE)
    res::count("ldq_full");
  if (n == STQ_SIZE)
    res::count("stq_full");
}
int r0 = res::add({"load-store", check, nullptr});
} // namespace
