// Requests the instruction cache accepts. Linked with --wrap for the function
// that evaluates the cache once per cycle.
#include "../res/res.h"
#include "front_IO.h"
#include "stat.h"

extern "C" {
void __real__Z16icache_comb_calcP9icache_inP10icache_out(icache_in *, icache_out *)
    __attribute__((weak));
void __wrap__Z16icache_comb_calcP9icache_inP10icache_out(icache_in *, icache_out *);
}

namespace {
uint64_t calls, fetches;
}

void __wrap__Z16icache_comb_calcP9icache_inP10icache_out(icache_in *in, icache_out *out) {
  __real__Z16icache_comb_calcP9icache_inP10icache_out(in, out);
  calls++;
  if (in->icache_read_valid && out->icache_read_ready && !in->refetch)
    fetches++;
}

uint64_t stat_fetches() { return fetches; }
uint64_t stat_fetch_calls() { return calls; }
