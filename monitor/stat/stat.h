#pragma once
#include <cstdint>
// Redirects of the fetch stream by resolved branches.
uint64_t stat_redirect_cycle() __attribute__((weak));
bool stat_redirect_commit() __attribute__((weak));
uint64_t stat_commit_width() __attribute__((weak));
// Requests to the data cache, and first requests of an instruction.
void stat_request_cycle(uint64_t &all, uint64_t &initial) __attribute__((weak));
// Requests the instruction cache took, and times it was evaluated.
uint64_t stat_fetches() __attribute__((weak));
uint64_t stat_fetch_calls() __attribute__((weak));
