// Issue slots: the counter is right, each holds an instruction in flight, and
// none is taken when the pipeline is empty.
#include "res.h"
#define private public
#include "SimCpu.h"
#undef private

extern SimCpu cpu;

namespace {
void check(uint64_t idle) {
  int total = 0, q = 0;
  for (auto &iq : cpu.back.isu->iqs) {
    int n = 0;
    for (auto &e : iq.entry)
      if (e.valid) {
        n++;
        const uint32_t i = e.uop.rob_idx;
        auto &r = cpu.back.rob->entry[i % ROB_BANK_NUM][i / ROB_BANK_NUM];
        if (i / ROB_BANK_NUM >= ROB_LINE_NUM || !r.valid ||
            r.uop.rob_flag != e.uop.rob_flag)
          res::bad("iq_leak", "issue queue %d waits for reorder slot %u, which is free",
                   q, i);
      }
    if (n != iq.count)
      res::bad("iq_count", "issue queue %d holds %d, counts %d", q, n, iq.count);
    total += n;
    if (n == iq.size)
      res::count("iq_full");
    q++;
  }
  if (idle >= res::SETTLED && total)
    res::bad("iq_drain", "%d issue slots taken when empty", total);
  res::peak("iq_peak", total);
}
int r0 = res::add({"issue", check, nullptr});
} // namespace
