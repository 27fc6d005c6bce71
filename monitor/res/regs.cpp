// Physical registers: each is mapped to a committed architectural register,
// is the destination of one instruction in flight, or is free.
#include "res.h"
#define private public
#include "SimCpu.h"
#undef private

extern SimCpu cpu;

namespace {
bool busy() {
  for (int i = 0; i < DECODE_WIDTH; i++)
    if (cpu.back.rename->inst_valid[i] || cpu.back.dis->inst_valid[i])
      return true;
  return false;
}

int initial_free = -1;
uint8_t owner[PRF_NUM];

void take(uint32_t p, int who) {
  static const char *const W[] = {"nobody", "a committed register",
                                  "an instruction in flight", "the free pool"};
  if (p >= PRF_NUM)
    res::bad("preg_range", "physical register %u held by %s", p, W[who]);
  if (owner[p])
    res::bad("preg_dup", "physical register %u held by %s and by %s", p,
             W[owner[p]], W[who]);
  owner[p] = who;
}

void check(uint64_t idle) {
  auto &r = *cpu.back.rename;
  auto &rob = *cpu.back.rob;
  auto &dis = *cpu.back.dis;
  std::memset(owner, 0, sizeof owner);
  for (int i = 0; i < ARF_NUM + 1; i++)
    take(r.arch_RAT[i], 1);
  int inflight = 0, nfree = 0;
  for (int b = 0; b < ROB_BANK_NUM; b++)
    for (int l = 0; l < ROB_LINE_NUM; l++)
      if (rob.entry[b][l].valid && rob.entry[b][l].uop.dest_en) {
        take(rob.entry[b][l].uop.dest_preg, 2);
        inflight++;
      }
  for (int i = 0; i < DECODE_WIDTH; i++)
    if (dis.inst_valid[i] && dis.inst_r[i].dest_en) {
      take(dis.inst_r[i].dest_preg, 2);
      inflight++;
    }
  for (uint32_t h = r.free_head; h != r.free_tail; h = (h + 1) % PRF_NUM) {
    take(r.free_list[h], 3);
    nfree++;
  }
  if (initial_free < 0)
    initial_free = nfree + inflight;
  for (int p = 0; p < PRF_NUM; p++)
    if (!owner[p])
      res::bad("preg_leak",
               "physical register %d has no holder (%d in flight, %d free)", p,
               inflight, nfree);
  // what a speculative register maps to is committed or in flight
  for (int i = 0; i < ARF_NUM + 1; i++)
    if (owner[r.spec_RAT[i]] == 3)
      res::bad("preg_map", "register %d maps to free physical register %u", i,
               (unsigned)r.spec_RAT[i]);
  if (idle >= res::SETTLED) {
    if (nfree != initial_free)
      res::bad("preg_drain", "%d of %d physical registers free when empty",
               nfree, initial_free);
    for (int i = 0; i < ARF_NUM + 1; i++)
      if (r.spec_RAT[i] != r.arch_RAT[i])
        res::bad("map_drain",
                 "register %d maps to %u, committed %u, when empty", i,
                 (unsigned)r.spec_RAT[i], (unsigned)r.arch_RAT[i]);
  }
  res::peak("preg_peak", inflight);
  if (nfree < DECODE_WIDTH)
    res::count("preg_short");
}
int r0 = res::add({"registers", check, busy});
} // namespace
