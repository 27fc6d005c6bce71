#pragma once
// Resource monitors. Each file here looks at one kind of pipeline resource at
// the start of every core cycle and is linked on its own: one that no longer
// compiles against the repository is left out and named in the evidence.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <cstdarg>
#include <cstddef>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>

namespace res {
struct Part {
  const char *name;
  void (*check)(uint64_t idle); // idle: cycles the pipeline has been empty
  bool (*busy)();               // holds an instruction, or null
};
int add(const Part &p);
void count(const char *name, uint64_t n = 1);
void peak(const char *name, uint64_t v);
[[noreturn]] void bad(const char *key, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
// The pipeline counts as empty after this many cycles without an instruction.
constexpr uint64_t SETTLED = 8;
} // namespace res
