// Branch tags: the pool and the mask of live tags agree, and the pool is back
// to its first state when the pipeline is empty.
#include "res.h"
#define private public
#include "SimCpu.h"
#undef private

extern SimCpu cpu;

namespace {
bool started;
bool first[MAX_BR_NUM];
bool first_mask[MAX_BR_NUM];
uint64_t used_max;

bool live(int i) { return (uint64_t(cpu.back.idu->now_br_mask) >> i) & 1; }

void check(uint64_t idle) {
  auto &d = *cpu.back.idu;
  if (!started) {
    started = true;
    for (int i = 0; i < MAX_BR_NUM; i++) {
      first[i] = d.tag_vec[i];
      first_mask[i] = live(i);
    }
  }
  uint64_t used = 0;
  for (int i = 0; i < MAX_BR_NUM; i++) {
    const bool taken = (bool)d.tag_vec[i] != first[i];
    used += taken;
    if (taken != (live(i) != first_mask[i]))
      res::bad("tag_mask", "branch tag %d %s, live mask says %d", i,
               taken ? "taken" : "free", live(i));
    if (idle >= res::SETTLED && taken)
      res::bad("tag_drain", "branch tag %d taken when empty", i);
  }
  res::peak("tag_peak", used);
  if (used + 2 >= MAX_BR_NUM)
    res::count("tag_short");
}
int r0 = res::add({"branch-tags", check, nullptr});
} // namespace
