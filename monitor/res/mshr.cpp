// Miss registers and write-back slots: the counters are right, no two hold the
// same line, and none is held for ever.
#include "res.h"
#define private public
#include "SimCpu.h"
#undef private

extern SimCpu cpu;

namespace {
constexpr uint64_t FOREVER = 60000;
uint64_t age[DCACHE_MSHR_ENTRIES];
uint32_t line[DCACHE_MSHR_ENTRIES];

void check(uint64_t idle) {
  auto &m = cpu.mem_subsystem.get_mshr().cur;
  uint32_t n = 0;
  for (uint32_t i = 0; i < DCACHE_MSHR_ENTRIES; i++) {
    auto &e = m.mshr_entries[i];
    if (!e.valid) {
      age[i] = 0;
      continue;
    }
    n++;
    if (line[i] != e.addr)
      age[i] = 0;
    line[i] = e.addr;
    if (++age[i] > FOREVER)
      res::bad("mshr_leak", "miss register %u held for line %08x for %llu cycles",
               i, (unsigned)e.addr, (unsigned long long)age[i]);
    for (uint32_t j = 0; j < i; j++)
      if (m.mshr_entries[j].valid &&
          m.mshr_entries[j].addr / DCACHE_LINE_SIZE == e.addr / DCACHE_LINE_SIZE)
        res::bad("mshr_dup", "miss registers %u and %u hold line %08x", j, i,
                 (unsigned)e.addr);
  }
  if (n != m.mshr_count)
    res::bad("mshr_count", "%u miss registers taken, counter %u", n,
             (unsigned)m.mshr_count);
  auto &w = cpu.mem_subsystem.get_wb().cur;
  if (w.count > DCACHE_WB_ENTRIES)
    res::bad("wb_count", "%u write-back slots taken of %d", (unsigned)w.count,
             (int)DCACHE_WB_ENTRIES);
  static uint64_t wage;
  static uint32_t whead;
  if (!w.count || w.head != whead)
    wage = 0;
  whead = w.head;
  if (w.count && ++wage > FOREVER)
    res::bad("wb_leak", "write-back slot %u held for %llu cycles", whead,
             (unsigned long long)wage);
  res::peak("mshr_peak", n);
  res::peak("wb_peak", w.count);
  if (n == DCACHE_MSHR_ENTRIES)
    res::count("mshr_full");
  if (w.count == DCACHE_WB_ENTRIES)
    res::count("wb_full");
  if (idle >= res::SETTLED && !n && !w.count)
    res::count("miss_empty");
}
int r0 = res::add({"miss", check, nullptr});
} // namespace
