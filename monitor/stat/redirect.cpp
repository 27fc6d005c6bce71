// Which reorder slots hold a branch that redirected the fetch stream.
#include "../res/res.h"
#define private public
#include "SimCpu.h"
#undef private
#include "stat.h"

extern SimCpu cpu;
extern long long sim_time;

namespace {
bool marked[ROB_NUM];
bool valid(uint32_t i) {
  return cpu.back.rob->entry[get_rob_bank(i)][get_rob_line(i)].valid;
}
} // namespace

uint64_t stat_redirect_cycle() {
  for (uint32_t i = 0; i < ROB_NUM; i++)
    if (marked[i] && !valid(i))
      marked[i] = false;
  const auto &l = cpu.back.idu->br_latch;
  if (!l.mispred)
    return 0;
  const uint32_t i = l.redirect_rob_idx;
  if (!valid(i))
    return 0;
  marked[i] = true;
  return 1;
}

bool stat_redirect_commit() {
  static long long at = -1;
  static int slot = 0;
  if (at != sim_time) {
    at = sim_time;
    slot = 0;
  }
  const auto &c = *cpu.back.rob->out.rob_commit;
  for (; slot < COMMIT_WIDTH; slot++)
    if (c.commit_entry[slot].valid) {
      const uint32_t i = c.commit_entry[slot].uop.rob_idx;
      slot++;
      const bool m = marked[i];
      marked[i] = false;
      return m;
    }
  return false;
}

uint64_t stat_commit_width() { return COMMIT_WIDTH; }
