// Switch points and checkpoints of a program, computed by the sequential model.
//   plan  <image> <limit> <seed> <json>   length, result and switch points
//   write <image> <n> <interval> <file> [<member offsets>]
//                                         checkpoint after n instructions
#include "../monitor/refrun.h"
#include <cstdio>
#include <fstream>
#include <iterator>
#include <map>
#include <zlib.h>

using namespace vp;

namespace {
std::vector<uint8_t> read_file(const char *p) {
  std::ifstream f(p, std::ios::binary);
  return std::vector<uint8_t>((std::istreambuf_iterator<char>(f)), {});
}
uint64_t hash = 1469598103934665603ull;
void mix(uint64_t v) {
  for (int i = 0; i < 8; i++) {
    hash ^= (v >> (8 * i)) & 255;
    hash *= 1099511628211ull;
  }
}

// Gzip members written one after the other; long zero stretches reuse one
// compressed member.
struct Gz {
  std::FILE *f;
  std::vector<uint8_t> zero1m;
  std::vector<long> start; // of each member
  static std::vector<uint8_t> pack(const uint8_t *p, size_t n,
                                   int level = 1) {
    z_stream z{};
    deflateInit2(&z, level, Z_DEFLATED, 15 + 16, 9, Z_DEFAULT_STRATEGY);
    std::vector<uint8_t> o(deflateBound(&z, n) + 64);
    z.next_in = const_cast<uint8_t *>(p);
    z.avail_in = static_cast<uInt>(n);
    z.next_out = o.data();
    z.avail_out = static_cast<uInt>(o.size());
    deflate(&z, Z_FINISH);
    o.resize(z.total_out);
    deflateEnd(&z);
    return o;
  }
  void put(const void *p, size_t n) {
    const auto o = pack(static_cast<const uint8_t *>(p), n);
    start.push_back(std::ftell(f));
    std::fwrite(o.data(), 1, o.size(), f);
  }
  void put_ram(const uint8_t *p, size_t n) {
    const size_t M = 1u << 20;
    static const std::vector<uint8_t> z(M, 0);
    if (zero1m.empty())
      zero1m = pack(z.data(), M, 9);
    for (size_t o = 0; o < n; o += M) {
      if (std::memcmp(p + o, z.data(), M) == 0) {
        start.push_back(std::ftell(f));
        std::fwrite(zero1m.data(), 1, zero1m.size(), f);
      } else {
        put(p + o, M);
      }
    }
  }
};

struct CpuPart {
  uint32_t gpr[32], csr[21], pc, store_addr, store_data, store_strb;
  bool store, reserve_valid;
  uint32_t reserve_addr;
};
} // namespace

int main(int argc, char **argv) {
  if (argc < 6)
    return 2;
  const auto img = read_file(argv[2]);
  Iss iss;
  DevModel dev;
  boot(iss, dev, img.data(), img.size());
  int ch;
  if (std::string(argv[1]) == "plan") {
    const uint64_t limit = std::strtoull(argv[3], nullptr, 0);
    uint64_t rng = std::strtoull(argv[4], nullptr, 0) * 2 + 1;
    auto rnd = [&] {
      rng = rng * 6364136223846793005ull + 1442695040888963407ull;
      return rng >> 33;
    };
    struct Pick {
      uint64_t seen = 0;
      std::vector<uint64_t> at;
    };
    std::map<std::string, Pick> tags;
    uint64_t i = 0, irqs = 0, ckpt_ok = 0;
    bool ended = false;
    const char *bad = "";
    std::vector<uint8_t> no_ckpt;
    while (i < limit) {
      const bool ran = ref_step(iss, dev, 0, ch);
      mix((static_cast<uint64_t>(iss.e.pc) << 32) | iss.e.inst);
      i++;
      irqs += !ran;
      if (ran && iss.e.undef) {
        bad = iss.e.undef;
        break;
      }
      if (ran && (iss.e.kind == Kind::Ebreak || iss.e.kind == Kind::Wfi)) {
        ended = true;
        break;
      }
      // the claim register names one source only
      if (dev.uart_irq && dev.dma_irq)
        continue;
      const bool dma = dev.dsrc || dev.ddst || dev.dlen || dev.dctrl ||
                       dev.dstat || dev.dma_irq;
      auto tag = [&](const char *t) {
        Pick &p = tags[std::string(t) + (dma ? "+dma" : "")];
        p.seen++;
        if (p.at.size() < 24)
          p.at.push_back(i);
        else if (const uint64_t k = rnd() % p.seen; k < 24)
          p.at[k] = i;
      };
      tag("any");
      ckpt_ok += !dma;
      if (iss.s.res_valid && !iss.s.res_dirty)
        tag("reserved");
      if (iss.s.priv < 3)
        tag(iss.s.csr[C_SATP] >> 31 ? "paged" : iss.s.priv ? "smode" : "umode");
      if (iss.e.trap || !ran)
        tag("trap");
      if (iss.e.mmio)
        tag("mmio");
      if (dev.ext_on())
        tag("ext_pending");
      if (dev.cmp > 0)
        tag("timer_set");
      if (iss.e.kind == Kind::Csr)
        tag("csr");
      if (iss.e.kind == Kind::Branch || iss.e.kind == Kind::Jalr)
        tag("branch");
      if (iss.e.kind == Kind::FenceI || iss.e.kind == Kind::Sfence)
        tag("fence");
    }
    std::FILE *f = std::fopen(argv[5], "w");
    std::fprintf(f, "{\"total\":%llu,\"ended\":%d,\"irqs\":%llu,\"bad\":\"%s\","
                    "\"a0\":%u,\"hash\":\"%016llx\",\"tags\":{",
                 (unsigned long long)i, ended, (unsigned long long)irqs, bad,
                 iss.s.x[10], (unsigned long long)hash);
    bool first = true;
    for (auto &t : tags) {
      std::fprintf(f, "%s\"%s\":[", first ? "" : ",", t.first.c_str());
      for (size_t k = 0; k < t.second.at.size(); k++)
        std::fprintf(f, "%s%llu", k ? "," : "",
                     (unsigned long long)t.second.at[k]);
      std::fprintf(f, "]");
      first = false;
    }
    std::fprintf(f, "}}\n");
    std::fclose(f);
    return 0;
  }
  const uint64_t n = std::strtoull(argv[3], nullptr, 0);
  const uint64_t interval = std::strtoull(argv[4], nullptr, 0);
  for (uint64_t i = 0; i < n; i++)
    ref_step(iss, dev, 0, ch);
  struct {
    uint32_t magic;
    uint16_t ver, priv;
    uint32_t ram, ranges;
  } h = {0x006d6552u, 2, iss.s.priv, RAM_HI - RAM_LO, 4};
  CpuPart cpu;
  std::memset(&cpu, 0, sizeof cpu);
  std::memcpy(cpu.gpr, iss.s.x, sizeof cpu.gpr);
  std::memcpy(cpu.csr, iss.s.csr, sizeof cpu.csr);
  cpu.pc = iss.s.pc;
  cpu.reserve_valid = iss.s.res_valid;
  cpu.reserve_addr = iss.s.res_addr;
  Gz gz{std::fopen(argv[5], "wb"), {}, {}};
  if (!gz.f)
    return 2;
  std::vector<uint8_t> head;
  auto add = [&](const void *p, size_t k) {
    const uint8_t *b = static_cast<const uint8_t *>(p);
    head.insert(head.end(), b, b + k);
  };
  add(&h, sizeof h);
  add(&cpu, sizeof cpu);
  add(&interval, sizeof interval);
  gz.put(head.data(), head.size());
  gz.put_ram(iss.ram, RAM_HI - RAM_LO);
  const uint32_t io[4][2] = {{0, 0x2000},
                             {DevModel::UART, DevModel::UART_SZ},
                             {DevModel::PLIC, DevModel::PLIC_SZ},
                             {DevModel::TIMER, DevModel::TIMER_SZ}};
  for (const auto &x : io) {
    head.clear();
    add(x, 8);
    for (uint32_t a = x[0]; a < x[0] + x[1]; a += 4) {
      const uint32_t w = dev.word(a, 0);
      add(&w, 4);
    }
    gz.put(head.data(), head.size());
  }
  std::fclose(gz.f);
  if (argc > 6) {
    std::FILE *f = std::fopen(argv[6], "w");
    for (long o : gz.start)
      std::fprintf(f, "%ld\n", o);
    std::fclose(f);
  }
  return 0;
}
