// Runs any image on the reference CPU of the repository for a number of
// instructions. Nothing is compared: the sanitizers of the build judge.
//
//   refwild IMAGE STEPS OUT.json
#include "RISCV.h"
#include "ref.h"

#include <cstdio>
#include <cstdlib>
#include <vector>

long long sim_time = 0;
void push_oracle_timer(uint32_t) {}

int main(int argc, char **argv) {
  if (argc < 4)
    return 2;
  FILE *f = std::fopen(argv[1], "rb");
  if (!f)
    return 3;
  std::vector<unsigned char> img(1 << 20);
  const size_t n = std::fread(img.data(), 1, img.size(), f);
  std::fclose(f);
  const long long limit = std::atoll(argv[2]);
  static RefCpu cpu{};
  cpu.init(0);
  std::memcpy(cpu.memory, img.data(), n);
  cpu.ref_only = true;
  long long traps = 0, stores = 0;
  std::fprintf(stderr, "[VP] first cycle\n");
  while (sim_time < limit && !cpu.sim_end) {
    cpu.exec();
    sim_time++;
    traps += cpu.is_exception;
    stores += cpu.state.store;
  }
  unsigned h = 0;
  for (int i = 0; i < 32; i++)
    h = h * 31 + cpu.state.gpr[i];
  FILE *o = std::fopen(argv[3], "w");
  if (!o)
    return 3;
  std::fprintf(o, "{\"status\":\"end\",\"steps\":%lld,\"traps\":%lld,\"stores\":%lld,\"hash\":\"%08x\"}\n",
               sim_time, traps, stores, h);
  std::fclose(o);
  return 0;
}
