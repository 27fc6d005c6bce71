// Runs the resource monitors once per core cycle and reports what they saw.
#include "res.h"
#include "../vp_monitor.h"

extern long long sim_time;

namespace res {
namespace {
std::vector<Part> &parts() {
  static auto *v = new std::vector<Part>; // outlives the exit handlers
  return *v;
}
struct Cell {
  const char *name;
  uint64_t v;
};
std::vector<Cell> &cells() {
  static auto *v = new std::vector<Cell>; // outlives the exit handlers
  return *v;
}
uint64_t &cell(const char *name) {
  for (auto &c : cells())
    if (c.name == name)
      return c.v;
  cells().push_back({name, 0});
  return cells().back().v;
}
uint64_t cycles, idle, idle_cycles, drains;
} // namespace

int add(const Part &p) {
  parts().push_back(p);
  return 0;
}
void count(const char *name, uint64_t n) { cell(name) += n; }
void peak(const char *name, uint64_t v) {
  uint64_t &c = cell(name);
  if (v > c)
    c = v;
}
void bad(const char *key, const char *fmt, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  vp_violation(key, b);
}
} // namespace res

bool vp_commit_hook(bool) { return false; }

void vp_cycle_hook() {
  using namespace res;
  static long long last = -1;
  if (sim_time == last)
    return;
  last = sim_time;
  cycles++;
  int holders = 0;
  bool busy = false;
  for (auto &p : parts())
    if (p.busy) {
      holders++;
      busy |= p.busy();
    }
  // without all three stage monitors emptiness cannot be told
  if (holders < 3)
    busy = true;
  idle = busy ? 0 : idle + 1;
  if (idle >= SETTLED)
    idle_cycles++;
  if (idle == SETTLED)
    drains++;
  for (auto &p : parts())
    p.check(idle);
}

void vp_write_extra(std::FILE *f) {
  using namespace res;
  std::fprintf(f, ",\"res_cycles\":%llu,\"res_drains\":%llu,\"res_idle\":%llu",
               (unsigned long long)cycles, (unsigned long long)drains,
               (unsigned long long)idle_cycles);
  std::fprintf(f, ",\"res_parts\":[");
  for (size_t i = 0; i < parts().size(); i++)
    std::fprintf(f, "%s\"%s\"", i ? "," : "", parts()[i].name);
  std::fprintf(f, "]");
  for (auto &c : cells())
    std::fprintf(f, ",\"res_%s\":%llu", c.name, (unsigned long long)c.v);
}
