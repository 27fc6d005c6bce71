// Reorder slots: used ones lie between the two pointers, nowhere else.
#include "res.h"
#define private public
#include "SimCpu.h"
#undef private

extern SimCpu cpu;

namespace {
bool busy() {
  auto &rob = *cpu.back.rob;
  for (int b = 0; b < ROB_BANK_NUM; b++)
    for (int l = 0; l < ROB_LINE_NUM; l++)
      if (rob.entry[b][l].valid)
        return true;
  return false;
}
void check(uint64_t idle) {
  auto &rob = *cpu.back.rob;
  int n = (int)rob.enq_ptr - (int)rob.deq_ptr;
  if (rob.enq_flag != rob.deq_flag)
    n += ROB_LINE_NUM;
  if (n < 0 || n > ROB_LINE_NUM)
    res::bad("rob_ptr", "reorder pointers %u/%u flags %u/%u",
             (unsigned)rob.enq_ptr, (unsigned)rob.deq_ptr,
             (unsigned)rob.enq_flag, (unsigned)rob.deq_flag);
  int used = 0;
  for (int k = 0; k < ROB_LINE_NUM; k++) {
    const int l = (rob.deq_ptr + k) % ROB_LINE_NUM;
    int v = 0;
    for (int b = 0; b < ROB_BANK_NUM; b++)
      v += rob.entry[b][l].valid;
    used += v;
    if (k >= n && v)
      res::bad("rob_stray", "%d used slots in line %d outside %u..%u", v, l,
               (unsigned)rob.deq_ptr, (unsigned)rob.enq_ptr);
    if (k < n && !v)
      res::bad("rob_hole", "line %d inside %u..%u holds nothing", l,
               (unsigned)rob.deq_ptr, (unsigned)rob.enq_ptr);
  }
  if (idle >= res::SETTLED && n)
    res::bad("rob_drain", "%d reorder lines taken when empty", n);
  res::peak("rob_peak", used);
  if (n == ROB_LINE_NUM)
    res::count("rob_full");
}
int r0 = res::add({"reorder", check, busy});
} // namespace
