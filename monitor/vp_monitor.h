#pragma once
#include <cstdio>
// Optional per-cycle monitor of pipeline internals (res/, stat/), or nothing
// (nores.cpp).
void vp_cycle_hook();
// At every commit; `replaced` by an interrupt. Returns whether the fetch after
// this instruction had been redirected.
bool vp_commit_hook(bool replaced);
void vp_write_extra(std::FILE *f);
// Ends the run with a violation.
[[noreturn]] void vp_violation(const char *key, const char *detail);
