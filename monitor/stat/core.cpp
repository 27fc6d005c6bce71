// Follows what the report counts on the wires. Parts that no longer compile are
// left out.
#include "../vp_monitor.h"
#include "stat.h"

extern long long sim_time;

namespace {
uint64_t redirects, replaced, reqs, initial;
} // namespace

void vp_cycle_hook() {
  static long long last = -1;
  if (sim_time == last)
    return;
  last = sim_time;
  if (stat_redirect_cycle)
    redirects += stat_redirect_cycle();
  if (stat_request_cycle)
    stat_request_cycle(reqs, initial);
}

bool vp_commit_hook(bool by_interrupt) {
  if (!stat_redirect_commit)
    return false;
  const bool r = stat_redirect_commit();
  replaced += by_interrupt && r;
  return r;
}

void vp_write_extra(std::FILE *f) {
  auto put = [f](const char *n, uint64_t v) {
    std::fprintf(f, ",\"%s\":%llu", n, (unsigned long long)v);
  };
  if (stat_redirect_cycle) {
    put("w_redirects", redirects);
    put("w_redirects_replaced", replaced);
    put("w_commit_width", stat_commit_width());
  }
  if (stat_request_cycle) {
    put("w_requests", reqs);
    put("w_first_requests", initial);
  }
  if (stat_fetches) {
    put("w_fetches", stat_fetches());
    put("w_fetch_cycles", stat_fetch_calls());
  }
}
