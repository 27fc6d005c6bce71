// Fetch-target slots: used ones lie between head and tail, an instruction in
// flight names a used one, and none is left when the pipeline is empty.
#include "res.h"
#define private public
#include "SimCpu.h"
#undef private

extern SimCpu cpu;

namespace {
bool busy() { return cpu.back.pre->ibuf.count() != 0; }
void named(uint32_t i, const char *who) {
  if (i >= FTQ_SIZE || !cpu.back.pre->ftq_valid[i])
    res::bad("ftq_freed", "%s names fetch-target slot %u, which is free", who, i);
}
void check(uint64_t idle) {
  auto &p = *cpu.back.pre;
  const int n = p.ftq_count;
  if (n > FTQ_SIZE || (p.ftq_head + n) % FTQ_SIZE != p.ftq_tail)
    res::bad("ftq_ptr", "fetch-target head %u tail %u count %d",
             (unsigned)p.ftq_head, (unsigned)p.ftq_tail, n);
  for (int k = 0; k < FTQ_SIZE; k++) {
    const int i = (p.ftq_head + k) % FTQ_SIZE;
    if ((bool)p.ftq_valid[i] != (k < n))
      res::bad("ftq_range", "fetch-target slot %d %s, head %u count %d", i,
               p.ftq_valid[i] ? "taken" : "free", (unsigned)p.ftq_head, n);
  }
  for (int i = 0; i < p.ibuf.count(); i++)
    named(p.ibuf.peek(i).ftq_idx, "a buffered instruction");
  auto &rob = *cpu.back.rob;
  for (int b = 0; b < ROB_BANK_NUM; b++)
    for (int l = 0; l < ROB_LINE_NUM; l++)
      if (rob.entry[b][l].valid)
        named(rob.entry[b][l].uop.ftq_idx, "an instruction in flight");
  if (idle >= res::SETTLED && n)
    res::bad("ftq_drain", "%d fetch-target slots taken when empty", n);
  res::peak("ftq_peak", n);
  if (n == FTQ_SIZE)
    res::count("ftq_full");
}
int r0 = res::add({"fetch-target", check, busy});
} // namespace
