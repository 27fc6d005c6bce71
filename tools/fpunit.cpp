// Drives the floating-point execution units directly and compares every result
// with the model of fp.h.
//
//   fpunit SEED COUNT OUT.json
#include "FPU.h"
#include "values.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>

long long sim_time = 0;

struct Soft : FPUSoftfloat {
  uint32_t run(ExuInst &i) { impl_compute(i); return i.result; }
};
struct Rtl : FPURtl {
  uint32_t run(ExuInst &i) { impl_compute(i); return i.result; }
};

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  const uint64_t seed = strtoull(argv[1], nullptr, 0), count = strtoull(argv[2], nullptr, 0);
  rng_state = seed * 0x9e3779b97f4a7c15ull + 5;
  rng_state = r64();
  static Soft soft;
  static Rtl rtl;
  std::map<std::string, uint64_t> per;
  std::string detail;
  uint64_t n = 0, hash = 1469598103934665603ull;
  static const char *names[] = {"add", "sub", "mul", "div", "sqrt", "sgnj", "minmax",
                                "cmp", "to_int", "from_int", "class"};
  for (; n < count && detail.empty(); n++) {
    static const int pick[] = {0, 0, 0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 8, 9, 9, 10};
    const int k = pick[rn(19)];
    static const uint32_t rms[] = {0, 1, 2, 3, 4, 7};
    uint32_t f3 = rms[rn(6)], a = fpval(), b = fpval(), sel = 0, want = 0;
    if (pct(8)) b = a ^ (pct(50) ? 0x80000000u : 0) ^ (pct(50) ? 1u << rn(24) : 0);
    static const uint32_t f7[] = {0, 4, 8, 0xc, 0x2c, 0x10, 0x14, 0x50, 0x60, 0x68, 0x70};
    auto rm = [&] { return f3 == 7 ? 0 : static_cast<int>(f3); };
    switch (k) {
    case 0: want = fp::arith(fp::ADD, a, b, rm()); break;
    case 1: want = fp::arith(fp::SUB, a, b, rm()); break;
    case 2: want = fp::arith(fp::MUL, a, b, rm()); break;
    case 3: want = fp::arith(fp::DIV, a, b, rm()); break;
    case 4: want = fp::arith(fp::SQRT, a, 0, rm()); break;
    case 5:
      f3 = rn(3);
      want = (a & 0x7fffffffu) | ((f3 == 0 ? b : f3 == 1 ? ~b : a ^ b) & 0x80000000u);
      break;
    case 6: f3 = rn(2); want = fp::minmax(a, b, f3 == 1); break;
    case 7: f3 = rn(3); want = fp::cmp(a, b, static_cast<int>(f3)); break;
    case 8: sel = rn(2); want = fp::to_int(a, sel == 1, rm()); break;
    case 9: sel = rn(2); a = value(); want = fp::from_int(a, sel == 1, rm()); break;
    default: f3 = 1; want = fp::classify(a); break;
    }
    ExuInst i{};
    i.op = UOP_FP;
    i.src1_rdata = a;
    i.src2_rdata = b;
    i.func3 = f3;
    i.func7 = f7[k];
    i.imm = sel;
    const uint32_t got = soft.run(i);
    per[names[k]]++;
    hash = (hash ^ got) * 1099511628211ull;
    const char *unit = "execution unit";
    uint32_t g = got;
    if (g == want && k < 3 && f3 != 7) {
      ExuInst j = i;
      g = rtl.run(j);
      per["datapath"]++;
      unit = "gate-level datapath";
    }
    if (g != want) {
      char t[200];
      snprintf(t, sizeof t, "%s %s rounding %u a=%08x b=%08x sel=%u expected %08x got %08x", unit,
               names[k], f3, a, b, sel, want, g);
      detail = t;
    }
  }
  FILE *f = fopen(argv[3], "w");
  if (!f) return 3;
  fprintf(f, "{\"status\":\"%s\",\"detail\":\"%s\",\"steps\":%llu,\"hash\":\"%016llx\",\"unit_ops\":{",
          detail.empty() ? "end" : "violation", detail.c_str(), static_cast<unsigned long long>(n),
          static_cast<unsigned long long>(hash));
  bool first = true;
  for (auto &x : per) {
    fprintf(f, "%s\"%s\":%llu", first ? "" : ",", x.first.c_str(), static_cast<unsigned long long>(x.second));
    first = false;
  }
  fprintf(f, "}}\n");
  fclose(f);
  return detail.empty() ? 0 : 77;
}
