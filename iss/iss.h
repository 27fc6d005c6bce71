#pragma once
// Instruction-set simulator used as the oracle. Written from the RISC-V
// manuals for RV32IMA + Zba/Zbb/Zbc/Zbs + Zfinx + M/S/U + Sv32 (A/D faulting).
// It shares no code with the simulator under test.
//
// step() computes the effect of the instruction at pc without touching memory;
// apply() makes it take effect. `undef` names behaviour which the generators
// must avoid because the machine under test does not define it.
#include "fp.h"
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>

namespace vp {

constexpr uint32_t RAM_LO = 0x80000000u, RAM_HI = 0xC0000000u;

enum CsrIx {
  C_MTVEC, C_MEPC, C_MCAUSE, C_MIE, C_MIP, C_MTVAL, C_MSCRATCH, C_MSTATUS,
  C_MIDELEG, C_MEDELEG, C_SEPC, C_STVEC, C_SCAUSE, C_SSCRATCH, C_STVAL,
  C_SSTATUS, C_SIE, C_SIP, C_SATP, C_MHARTID, C_MISA, C_NUM
};
inline const char *csr_name(int i) {
  static const char *n[] = {"mtvec", "mepc", "mcause", "mie", "mip", "mtval",
                            "mscratch", "mstatus", "mideleg", "medeleg",
                            "sepc", "stvec", "scause", "sscratch", "stval",
                            "sstatus", "sie", "sip", "satp", "mhartid", "misa"};
  return n[i];
}
inline int csr_index(uint32_t num) {
  switch (num) {
  case 0x305: return C_MTVEC;
  case 0x341: return C_MEPC;
  case 0x342: return C_MCAUSE;
  case 0x304: return C_MIE;
  case 0x344: return C_MIP;
  case 0x343: return C_MTVAL;
  case 0x340: return C_MSCRATCH;
  case 0x300: return C_MSTATUS;
  case 0x303: return C_MIDELEG;
  case 0x302: return C_MEDELEG;
  case 0x141: return C_SEPC;
  case 0x105: return C_STVEC;
  case 0x142: return C_SCAUSE;
  case 0x140: return C_SSCRATCH;
  case 0x143: return C_STVAL;
  case 0x100: return C_SSTATUS;
  case 0x104: return C_SIE;
  case 0x144: return C_SIP;
  case 0x180: return C_SATP;
  case 0xf14: return C_MHARTID;
  case 0x301: return C_MISA;
  default: return -1;
  }
}

constexpr uint32_t S_VIEW = 0x800DE133u; // sstatus bits of mstatus
constexpr uint32_t SI_VIEW = 0x333u;
constexpr uint32_t MIP_DEV = (1u << 11) | (1u << 7); // driven by devices

struct Arch {
  uint32_t x[32];
  uint32_t csr[C_NUM]; // sstatus/sie/sip slots kept in step with m-versions
  uint32_t pc;
  uint8_t priv;
  bool res_valid;   // a load-reserved is outstanding
  bool res_dirty;   // ... but something happened since that may cancel it
  uint32_t res_addr;
};

enum class Kind : uint8_t {
  Other, Load, Store, Amo, Lr, Sc, Branch, Jal, Jalr, Csr, Fence, FenceI,
  Sfence, Ecall, Ebreak, Wfi, Mret, Sret, Fp, MulDiv, Illegal, FetchFault
};

struct Effect {
  Kind kind;
  uint32_t pc, inst, next_pc, fetch_pa;
  int rd;            // destination register or -1
  bool trap;
  uint32_t cause, tval;
  bool pf_inst, pf_load, pf_store;
  bool load;         // performs a load (physical address below)
  uint32_t ld_pa;
  int ld_size;
  bool store;        // performs a store
  uint32_t st_pa, st_data;
  int st_size;
  bool mmio;         // the access leaves RAM
  bool sc_free;      // outcome of the store-conditional is up to the machine
  bool sc_ok;
  bool irq_csr;      // reads mip/sip
  bool taken;        // control transfer taken
  const char *undef; // non-null: behaviour outside the tested contract
};

struct Adopt { // facts only the machine knows
  bool use = false;
  uint32_t rd = 0;       // value loaded from a device
  bool sc_ok = true;     // outcome of a free store-conditional
  uint32_t mip_dev = 0;  // device interrupt lines at this moment
};

class Iss {
public:
  Arch s{};
  uint8_t *ram = nullptr;
  std::unordered_map<uint32_t, uint32_t> io;
  bool fma = false; // FMADD family supported (reference CPU only)
  bool fp_illegal = false; // reserved FP encodings trap

  Iss() {
    ram = static_cast<uint8_t *>(std::calloc(1, RAM_HI - RAM_LO));
    if (!ram)
      std::abort();
    reset(0);
  }
  ~Iss() { std::free(ram); }
  Iss(const Iss &) = delete;
  Iss &operator=(const Iss &) = delete;

  void reset(uint32_t pc) {
    std::memset(&s, 0, sizeof s);
    s.pc = pc;
    s.priv = 3;
    s.csr[C_MISA] = 0x40141103u;
  }

  static bool in_ram(uint32_t a) { return a >= RAM_LO && a < RAM_HI; }
  uint32_t rd32(uint32_t pa) const {
    if (in_ram(pa)) {
      uint32_t v;
      std::memcpy(&v, ram + ((pa - RAM_LO) & ~3u), 4);
      return v;
    }
    auto it = io.find(pa & ~3u);
    return it == io.end() ? 0 : it->second;
  }
  uint32_t rdN(uint32_t pa, int n) const {
    const uint32_t w = rd32(pa) >> ((pa & 3) * 8);
    return n == 1 ? w & 0xff : n == 2 ? w & 0xffff : w;
  }
  void wrN(uint32_t pa, uint32_t v, int n) {
    n = std::min(n, 4 - static_cast<int>(pa & 3)); // misaligned: outside the contract
    if (in_ram(pa)) {
      std::memcpy(ram + (pa - RAM_LO), &v, n);
    } else {
      uint32_t w = rd32(pa);
      std::memcpy(reinterpret_cast<uint8_t *>(&w) + (pa & 3), &v, n);
      io[pa & ~3u] = w;
    }
  }

  // ---- translation -------------------------------------------------------
  enum Acc { FETCH, LOAD, STORE };
  mutable const char *xlate_undef = nullptr;
  mutable uint64_t walks = 0;
  bool translate(uint32_t va, Acc acc, uint32_t &pa) const {
    uint32_t ms = s.csr[C_MSTATUS];
    int prv = s.priv;
    if (acc != FETCH && (ms >> 17 & 1))
      prv = ms >> 11 & 3;
    if (!(s.csr[C_SATP] >> 31) || prv == 3) {
      pa = va;
      return true;
    }
    walks++;
    uint64_t base = static_cast<uint64_t>(s.csr[C_SATP] & 0x3fffff) << 12;
    for (int level = 1; level >= 0; level--) {
      const uint32_t vpn = (va >> (12 + 10 * level)) & 0x3ff;
      const uint64_t pte_pa = base + vpn * 4;
      if (pte_pa >= RAM_HI || pte_pa < RAM_LO) {
        xlate_undef = "page table outside RAM";
        return false;
      }
      const uint32_t pte = rd32(static_cast<uint32_t>(pte_pa));
      const bool V = pte & 1, R = pte & 2, W = pte & 4, X = pte & 8,
                 U = pte & 16, A = pte & 64, D = pte & 128;
      if (!V || (!R && W))
        return false;
      if (!R && !X) { // pointer
        if (level == 0)
          return false;
        if (pte & 0xd0) {
          xlate_undef = "D/A/U set in a non-leaf entry";
          return false;
        }
        base = static_cast<uint64_t>(pte >> 10) << 12;
        continue;
      }
      bool ok = acc == FETCH  ? X
                : acc == LOAD ? (R || ((ms >> 19 & 1) && X))
                              : W;
      if (prv == 0 && !U)
        ok = false;
      if (prv == 1 && U && (acc == FETCH || !(ms >> 18 & 1)))
        ok = false;
      if (!A || (acc == STORE && !D))
        ok = false;
      if (level == 1 && ((pte >> 10) & 0x3ff))
        ok = false;
      if (!ok)
        return false;
      uint64_t p = static_cast<uint64_t>(pte >> 10) << 12;
      p |= va & (level == 1 ? 0x3fffffu : 0xfffu);
      if (p >> 32) {
        xlate_undef = "physical address above 4 GiB";
        return false;
      }
      pa = static_cast<uint32_t>(p);
      return true;
    }
    return false;
  }

  bool translated() const {
    const uint32_t ms = s.csr[C_MSTATUS];
    const uint32_t prv = (ms >> 17 & 1) ? ms >> 11 & 3 : s.priv;
    return (s.csr[C_SATP] >> 31) && (s.priv < 3 || prv < 3);
  }

  // ---- traps -------------------------------------------------------------
  void sync_views(Arch &n) const {
    n.csr[C_SSTATUS] = n.csr[C_MSTATUS] & S_VIEW;
    n.csr[C_SIE] = n.csr[C_MIE] & SI_VIEW;
    n.csr[C_SIP] = n.csr[C_MIP] & SI_VIEW;
  }
  void enter(Arch &n, uint32_t cause, uint32_t tval, uint32_t epc) const {
    const bool irq = cause >> 31;
    const uint32_t code = cause & 31;
    const uint32_t deleg = n.csr[irq ? C_MIDELEG : C_MEDELEG];
    uint32_t &ms = n.csr[C_MSTATUS];
    uint32_t tvec;
    if (n.priv < 3 && (deleg >> code & 1)) {
      n.csr[C_SEPC] = epc;
      n.csr[C_SCAUSE] = cause;
      n.csr[C_STVAL] = tval;
      const uint32_t sie = ms >> 1 & 1;
      ms = (ms & ~0x122u) | (sie << 5) | ((n.priv & 1u) << 8);
      n.priv = 1;
      tvec = n.csr[C_STVEC];
    } else {
      n.csr[C_MEPC] = epc;
      n.csr[C_MCAUSE] = cause;
      n.csr[C_MTVAL] = tval;
      const uint32_t mie = ms >> 3 & 1;
      ms = (ms & ~0x1888u) | (mie << 7) | (static_cast<uint32_t>(n.priv) << 11);
      n.priv = 3;
      tvec = n.csr[C_MTVEC];
    }
    n.pc = tvec & ~3u;
    if (irq && (tvec & 1))
      n.pc += 4 * code;
    n.res_dirty = true;
    sync_views(n);
  }

  // Interrupts that may be taken now; bit i = cause i. Those going to M mode
  // precede those going to S mode.
  uint32_t irq_takeable(uint32_t mip_dev) const {
    const uint32_t pend =
        ((s.csr[C_MIP] & ~MIP_DEV) | mip_dev) & s.csr[C_MIE];
    const uint32_t ms = s.csr[C_MSTATUS], dl = s.csr[C_MIDELEG];
    const uint32_t m = pend & ~dl, sv = pend & dl;
    uint32_t r = 0;
    if (s.priv < 3 || (ms >> 3 & 1))
      r = m;
    if (r)
      return r;
    if (s.priv < 1 || (s.priv == 1 && (ms >> 1 & 1)))
      r = sv;
    return r;
  }
  // The causes that can win, given that some device lines may or may not be
  // visible yet.
  uint32_t irq_winners(uint32_t must, uint32_t may) const {
    static const int order[6] = {11, 3, 7, 9, 1, 5};
    const uint32_t open = may & ~must;
    uint32_t r = 0;
    for (uint32_t sub = open;; sub = (sub - 1) & open) {
      const uint32_t t = irq_takeable(must | sub);
      for (int c : order)
        if (t >> c & 1) {
          r |= 1u << c;
          break;
        }
      if (!sub)
        break;
    }
    return r;
  }
  Arch after_interrupt(uint32_t code) const {
    Arch n = s;
    enter(n, 0x80000000u | code, 0, s.pc);
    return n;
  }

  // ---- execution ---------------------------------------------------------
  Arch n{};  // state after the last step()
  Effect e{};

  void step(const Adopt &ad = Adopt()) {
    n = s;
    std::memset(&e, 0, sizeof e);
    e.rd = -1;
    e.pc = s.pc;
    e.kind = Kind::Other;
    xlate_undef = nullptr;
    if (s.pc & 3)
      e.undef = "misaligned pc";
    uint32_t pa;
    if (!translate(s.pc, FETCH, pa)) {
      e.kind = Kind::FetchFault;
      e.pf_inst = true;
      e.undef = xlate_undef;
      trap(12, s.pc);
      e.next_pc = n.pc;
      return;
    }
    e.fetch_pa = pa;
    if (!in_ram(pa) && io.find(pa & ~3u) == io.end())
      e.undef = "fetch outside memory";
    e.inst = rd32(pa);
    n.pc = s.pc + 4;
    exec(ad);
    n.x[0] = 0;
    e.next_pc = n.pc;
  }

  void apply() {
    if (e.store)
      wrN(e.st_pa, e.st_data, e.st_size);
    s = n;
  }

private:
  void trap(uint32_t cause, uint32_t tval) {
    e.trap = true;
    e.cause = cause;
    e.tval = tval;
    e.rd = -1;
    e.load = e.store = false;
    std::memcpy(n.x, s.x, sizeof n.x);
    n = s;
    enter(n, cause, tval, s.pc);
  }
  void illegal() {
    e.kind = Kind::Illegal;
    trap(2, e.inst);
  }
  void wr(int rd, uint32_t v) {
    if (rd) {
      n.x[rd] = v;
      e.rd = rd;
    }
  }
  void jump(uint32_t t) {
    e.taken = true;
    n.pc = t;
    if (t & 3)
      e.undef = "misaligned jump target";
  }
  static uint32_t rol(uint32_t v, uint32_t k) {
    k &= 31;
    return k ? (v << k) | (v >> (32 - k)) : v;
  }
  static uint64_t clmul(uint32_t a, uint32_t b) {
    uint64_t r = 0;
    for (int i = 0; i < 32; i++)
      if (b >> i & 1)
        r ^= static_cast<uint64_t>(a) << i;
    return r;
  }

  void do_load(const Adopt &ad, uint32_t va, int size, bool sext, int rd) {
    e.kind = Kind::Load;
    uint32_t pa;
    if (!translate(va, LOAD, pa)) {
      e.pf_load = true;
      e.undef = xlate_undef;
      trap(13, va);
      return;
    }
    if (va & (size - 1))
      e.undef = "misaligned access";
    e.load = true;
    e.ld_pa = pa;
    e.ld_size = size;
    uint32_t v;
    if (!in_ram(pa)) {
      e.mmio = true;
      v = ad.use ? ad.rd : rdN(pa, size);
      if (ad.use) {
        wr(rd, v);
        return;
      }
    } else {
      v = rdN(pa, size);
    }
    if (sext && size < 4)
      v = size == 1 ? static_cast<uint32_t>(static_cast<int8_t>(v))
                    : static_cast<uint32_t>(static_cast<int16_t>(v));
    wr(rd, v);
  }

  void do_store(uint32_t va, uint32_t data, int size) {
    e.kind = Kind::Store;
    uint32_t pa;
    if (!translate(va, STORE, pa)) {
      e.pf_store = true;
      e.undef = xlate_undef;
      trap(15, va);
      return;
    }
    if (va & (size - 1))
      e.undef = "misaligned access";
    set_store(pa, data, size);
    n.res_dirty = true;
  }
  void set_store(uint32_t pa, uint32_t data, int size) {
    e.store = true;
    e.st_pa = pa;
    e.st_size = size;
    e.st_data = size == 1 ? data & 0xff : size == 2 ? data & 0xffff : data;
    if (!in_ram(pa))
      e.mmio = true;
  }

  void exec(const Adopt &ad) {
    const uint32_t i = e.inst;
    const uint32_t op = i & 0x7f, f3 = i >> 12 & 7, f7 = i >> 25;
    const int rd = i >> 7 & 31, r1 = i >> 15 & 31, r2 = i >> 20 & 31;
    const uint32_t a = s.x[r1], b = s.x[r2];
    const uint32_t immI = static_cast<uint32_t>(static_cast<int32_t>(i) >> 20);
    const uint32_t immS = (immI & ~31u) | static_cast<uint32_t>(rd);
    switch (op) {
    case 0x37: wr(rd, i & 0xfffff000u); return;
    case 0x17: wr(rd, s.pc + (i & 0xfffff000u)); return;
    case 0x6f: {
      e.kind = Kind::Jal;
      uint32_t imm = (i >> 31 ? 0xfff00000u : 0) | (i & 0xff000u) |
                     (i >> 9 & 0x800u) | (i >> 20 & 0x7feu);
      wr(rd, s.pc + 4);
      jump(s.pc + imm);
      return;
    }
    case 0x67:
      e.kind = Kind::Jalr;
      if (f3)
        e.undef = "jalr funct3";
      wr(rd, s.pc + 4);
      jump((a + immI) & ~1u);
      return;
    case 0x63: {
      e.kind = Kind::Branch;
      bool t = false;
      switch (f3) {
      case 0: t = a == b; break;
      case 1: t = a != b; break;
      case 4: t = static_cast<int32_t>(a) < static_cast<int32_t>(b); break;
      case 5: t = static_cast<int32_t>(a) >= static_cast<int32_t>(b); break;
      case 6: t = a < b; break;
      case 7: t = a >= b; break;
      default: e.undef = "branch funct3"; break;
      }
      if (t) {
        const uint32_t imm = (i >> 31 ? 0xfffff000u : 0) | (i << 4 & 0x800u) |
                             (i >> 20 & 0x7e0u) | (i >> 7 & 0x1eu);
        jump(s.pc + imm);
      }
      return;
    }
    case 0x03:
      if ((f3 & 3) == 3 || f3 == 6)
        e.undef = "load funct3";
      do_load(ad, a + immI, 1 << (f3 & 3), !(f3 & 4), rd);
      return;
    case 0x23:
      if (f3 > 2)
        e.undef = "store funct3";
      do_store(a + immS, b, 1 << (f3 & 3));
      return;
    case 0x13: opimm(i, f3, f7, rd, a, immI); return;
    case 0x33: opreg(f3, f7, rd, a, b); return;
    case 0x0f:
      e.kind = f3 == 1 ? Kind::FenceI : Kind::Fence;
      if (f3 > 1)
        e.undef = "fence funct3";
      return;
    case 0x2f: amo(ad, i, f3, rd, a, b); return;
    case 0x73: system(ad, i, f3, rd, r1, a); return;
    case 0x53: fpop(f3, f7, rd, r2, a, b); return;
    case 0x43: case 0x47: case 0x4b: case 0x4f:
      if (fma) {
        e.kind = Kind::Fp;
        uint32_t c = s.x[i >> 27], p = a;
        if (i >> 25 & 3)
          e.undef = "fp encoding";
        if (f3 == 5 || f3 == 6) {
          illegal();
          return;
        }
        if (op == 0x4b || op == 0x4f)
          p ^= 0x80000000u;
        if (op == 0x47 || op == 0x4f)
          c ^= 0x80000000u;
        wr(rd, fp::fma_(p, b, c, f3 == 7 ? 0 : static_cast<int>(f3)));
        return;
      }
      illegal();
      return;
    default: illegal(); return;
    }
  }

  void opimm(uint32_t i, uint32_t f3, uint32_t f7, int rd, uint32_t a,
             uint32_t imm) {
    const uint32_t sh = i >> 20 & 31, sel = i >> 20;
    switch (f3) {
    case 0: wr(rd, a + imm); return;
    case 2:
      wr(rd, static_cast<int32_t>(a) < static_cast<int32_t>(imm));
      return;
    case 3: wr(rd, a < imm); return;
    case 4: wr(rd, a ^ imm); return;
    case 6: wr(rd, a | imm); return;
    case 7: wr(rd, a & imm); return;
    case 1:
      switch (f7) {
      case 0x00: wr(rd, a << sh); return;
      case 0x24: wr(rd, a & ~(1u << sh)); return;
      case 0x34: wr(rd, a ^ (1u << sh)); return;
      case 0x14: wr(rd, a | (1u << sh)); return;
      case 0x30:
        switch (sh) {
        case 0: wr(rd, a ? __builtin_clz(a) : 32); return;
        case 1: wr(rd, a ? __builtin_ctz(a) : 32); return;
        case 2: wr(rd, __builtin_popcount(a)); return;
        case 4:
          wr(rd, static_cast<uint32_t>(static_cast<int8_t>(a)));
          return;
        case 5:
          wr(rd, static_cast<uint32_t>(static_cast<int16_t>(a)));
          return;
        }
      }
      break;
    case 5:
      if (sel == 0x287) { // orc.b
        uint32_t r = 0;
        for (int k = 0; k < 32; k += 8)
          if (a >> k & 255)
            r |= 255u << k;
        wr(rd, r);
        return;
      }
      if (sel == 0x698) {
        wr(rd, __builtin_bswap32(a));
        return;
      }
      switch (f7) {
      case 0x00: wr(rd, a >> sh); return;
      case 0x20:
        wr(rd, static_cast<uint32_t>(static_cast<int32_t>(a) >> sh));
        return;
      case 0x24: wr(rd, a >> sh & 1); return;
      case 0x30: wr(rd, rol(a, 32 - sh)); return;
      }
      break;
    }
    e.undef = "reserved op-imm encoding";
  }

  void opreg(uint32_t f3, uint32_t f7, int rd, uint32_t a, uint32_t b) {
    const int32_t sa = static_cast<int32_t>(a), sb = static_cast<int32_t>(b);
    const uint32_t sh = b & 31;
    switch (f7 << 3 | f3) {
    case 0x00 << 3 | 0: wr(rd, a + b); return;
    case 0x20 << 3 | 0: wr(rd, a - b); return;
    case 0x00 << 3 | 1: wr(rd, a << sh); return;
    case 0x00 << 3 | 2: wr(rd, sa < sb); return;
    case 0x00 << 3 | 3: wr(rd, a < b); return;
    case 0x00 << 3 | 4: wr(rd, a ^ b); return;
    case 0x00 << 3 | 5: wr(rd, a >> sh); return;
    case 0x20 << 3 | 5: wr(rd, static_cast<uint32_t>(sa >> sh)); return;
    case 0x00 << 3 | 6: wr(rd, a | b); return;
    case 0x00 << 3 | 7: wr(rd, a & b); return;
    case 0x20 << 3 | 7: wr(rd, a & ~b); return;
    case 0x20 << 3 | 6: wr(rd, a | ~b); return;
    case 0x20 << 3 | 4: wr(rd, ~(a ^ b)); return;
    case 0x10 << 3 | 2: wr(rd, (a << 1) + b); return;
    case 0x10 << 3 | 4: wr(rd, (a << 2) + b); return;
    case 0x10 << 3 | 6: wr(rd, (a << 3) + b); return;
    case 0x05 << 3 | 6: wr(rd, sa > sb ? a : b); return;
    case 0x05 << 3 | 7: wr(rd, a > b ? a : b); return;
    case 0x05 << 3 | 4: wr(rd, sa < sb ? a : b); return;
    case 0x05 << 3 | 5: wr(rd, a < b ? a : b); return;
    case 0x05 << 3 | 1:
      wr(rd, static_cast<uint32_t>(clmul(a, b)));
      return;
    case 0x05 << 3 | 3:
      wr(rd, static_cast<uint32_t>(clmul(a, b) >> 32));
      return;
    case 0x05 << 3 | 2:
      wr(rd, static_cast<uint32_t>(clmul(a, b) >> 31));
      return;
    case 0x30 << 3 | 1: wr(rd, rol(a, sh)); return;
    case 0x30 << 3 | 5: wr(rd, rol(a, 32 - sh)); return;
    case 0x24 << 3 | 1: wr(rd, a & ~(1u << sh)); return;
    case 0x24 << 3 | 5: wr(rd, a >> sh & 1); return;
    case 0x34 << 3 | 1: wr(rd, a ^ (1u << sh)); return;
    case 0x14 << 3 | 1: wr(rd, a | (1u << sh)); return;
    case 0x04 << 3 | 4: wr(rd, (a & 0xffff) | b << 16); return;
    case 0x04 << 3 | 7: wr(rd, (a & 0xff) | (b & 0xff) << 8); return;
    }
    if (f7 == 1) {
      e.kind = Kind::MulDiv;
      switch (f3) {
      case 0: wr(rd, a * b); return;
      case 1:
        wr(rd, static_cast<uint32_t>(static_cast<uint64_t>(
                   static_cast<int64_t>(sa) * sb) >> 32));
        return;
      case 2:
        wr(rd, static_cast<uint32_t>(
                   static_cast<uint64_t>(static_cast<int64_t>(sa) *
                                         static_cast<int64_t>(b)) >> 32));
        return;
      case 3:
        wr(rd, static_cast<uint32_t>((static_cast<uint64_t>(a) * b) >> 32));
        return;
      case 4:
        wr(rd, b == 0 ? ~0u
               : (a == 0x80000000u && b == ~0u) ? a
                                       : static_cast<uint32_t>(sa / sb));
        return;
      case 5: wr(rd, b ? a / b : ~0u); return;
      case 6:
        wr(rd, b == 0 ? a
               : (a == 0x80000000u && b == ~0u) ? 0
                                       : static_cast<uint32_t>(sa % sb));
        return;
      case 7: wr(rd, b ? a % b : a); return;
      }
    }
    e.undef = "reserved op encoding";
  }

  void amo(const Adopt &ad, uint32_t i, uint32_t f3, int rd, uint32_t a,
           uint32_t b) {
    const uint32_t f5 = i >> 27;
    if (f3 != 2)
      e.undef = "amo funct3";
    if (a & 3)
      e.undef = "misaligned access";
    uint32_t pa;
    if (f5 == 2) {
      e.kind = Kind::Lr;
      if (i >> 20 & 31)
        e.undef = "lr rs2";
      if (!translate(a, LOAD, pa)) {
        e.pf_load = true;
        e.undef = xlate_undef;
        trap(13, a);
        return;
      }
      e.load = true;
      e.ld_pa = pa;
      e.ld_size = 4;
      if (!in_ram(pa)) {
        e.undef = "lr outside RAM";
        e.mmio = true;
      }
      wr(rd, rd32(pa));
      n.res_valid = true;
      n.res_dirty = false;
      n.res_addr = pa;
      return;
    }
    e.kind = f5 == 3 ? Kind::Sc : Kind::Amo;
    if (!translate(a, STORE, pa)) {
      e.pf_store = true;
      e.undef = xlate_undef;
      trap(15, a);
      return;
    }
    if (!in_ram(pa))
      e.undef = "amo outside RAM";
    if (f5 == 3) {
      bool ok = s.res_valid && s.res_addr == pa;
      if (ok && s.res_dirty) {
        e.sc_free = true;
        if (ad.use)
          ok = ad.sc_ok;
      }
      e.sc_ok = ok;
      if (ok)
        set_store(pa, b, 4);
      wr(rd, ok ? 0 : 1);
      n.res_valid = false;
      return;
    }
    uint32_t perm;
    if (!translate(a, LOAD, perm))
      e.undef = "amo on a page that is writable but not readable";
    const uint32_t o = rd32(pa);
    const int32_t so = static_cast<int32_t>(o), sb = static_cast<int32_t>(b);
    uint32_t v = 0;
    switch (f5) {
    case 0: v = o + b; break;
    case 1: v = b; break;
    case 4: v = o ^ b; break;
    case 8: v = o | b; break;
    case 12: v = o & b; break;
    case 16: v = so < sb ? o : b; break;
    case 20: v = so > sb ? o : b; break;
    case 24: v = o < b ? o : b; break;
    case 28: v = o > b ? o : b; break;
    default: e.undef = "amo funct5"; break;
    }
    e.load = true;
    e.ld_pa = pa;
    e.ld_size = 4;
    wr(rd, o);
    set_store(pa, v, 4);
    n.res_dirty = true;
  }

  void system(const Adopt &ad, uint32_t i, uint32_t f3, int rd, int r1,
              uint32_t a) {
    if (f3 == 0) {
      if (i == 0x00000073u) {
        e.kind = Kind::Ecall;
        trap(s.priv == 3 ? 11 : s.priv == 1 ? 9 : 8, 0);
        return;
      }
      if (i == 0x00100073u) {
        e.kind = Kind::Ebreak;
        return;
      }
      if (i == 0x10500073u) {
        e.kind = Kind::Wfi;
        return;
      }
      if (i == 0x30200073u) {
        e.kind = Kind::Mret;
        uint32_t &ms = n.csr[C_MSTATUS];
        const uint32_t mpp = ms >> 11 & 3, mpie = ms >> 7 & 1;
        if (s.priv != 3)
          e.undef = "mret below M";
        if (mpp == 2)
          e.undef = "reserved MPP";
        n.priv = static_cast<uint8_t>(mpp);
        ms = (ms & ~0x1888u) | (mpie << 3) | 0x80u;
        if (mpp != 3 && (ms >> 17 & 1))
          e.undef = "mret with MPRV set to a lower mode";
        n.pc = n.csr[C_MEPC];
        if (n.pc & 3)
          e.undef = "misaligned epc";
        n.res_dirty = true;
        sync_views(n);
        return;
      }
      if (i == 0x10200073u) {
        e.kind = Kind::Sret;
        uint32_t &ms = n.csr[C_MSTATUS];
        const uint32_t spp = ms >> 8 & 1, spie = ms >> 5 & 1;
        if (s.priv < 1)
          e.undef = "sret in U";
        if (ms >> 17 & 1)
          e.undef = "sret with MPRV";
        n.priv = static_cast<uint8_t>(spp);
        ms = (ms & ~0x122u) | (spie << 1) | 0x20u;
        n.pc = n.csr[C_SEPC];
        if (n.pc & 3)
          e.undef = "misaligned epc";
        n.res_dirty = true;
        sync_views(n);
        return;
      }
      if ((i >> 25) == 9 && rd == 0) {
        e.kind = Kind::Sfence;
        if (s.priv == 0)
          e.undef = "sfence in U";
        return;
      }
      e.undef = "reserved SYSTEM encoding";
      return;
    }
    if (f3 == 4) {
      e.undef = "reserved SYSTEM encoding";
      return;
    }
    const uint32_t num = i >> 20;
    if (num == 0xc01 || num == 0xc81) {
      illegal();
      return;
    }
    e.kind = Kind::Csr;
    const int ix = csr_index(num);
    if (ix < 0) {
      e.undef = "unknown CSR";
      return;
    }
    if ((num >> 8 & 3) > s.priv)
      e.undef = "CSR above the current privilege";
    if (ix == C_MIP || ix == C_SIP)
      e.irq_csr = true;
    const uint32_t mip_now = (s.csr[C_MIP] & ~MIP_DEV) | ad.mip_dev;
    uint32_t old = s.csr[ix];
    if (ix == C_MIP)
      old = mip_now;
    if (ix == C_SIP)
      old = mip_now & SI_VIEW;
    const uint32_t src = (f3 & 4) ? static_cast<uint32_t>(r1) : a;
    const bool we = (f3 & 3) == 1 || r1 != 0;
    uint32_t v = (f3 & 3) == 1   ? src
                 : (f3 & 3) == 2 ? (old | src)
                                 : (old & ~src);
    wr(rd, old);
    if (!we)
      return;
    if ((num >> 10) == 3 || ix == C_MISA)
      e.undef = "write to a read-only CSR";
    switch (ix) {
    case C_MSTATUS:
      if ((v ^ old) & ~0x000e19aau)
        e.undef = "mstatus bits outside the tested set";
      if ((v >> 11 & 3) == 2)
        e.undef = "reserved MPP";
      n.csr[C_MSTATUS] = v;
      break;
    case C_SSTATUS:
      if ((v ^ old) & ~0x000c0122u)
        e.undef = "sstatus bits outside the tested set";
      n.csr[C_MSTATUS] = (s.csr[C_MSTATUS] & ~S_VIEW) | (v & S_VIEW);
      break;
    case C_MIE: n.csr[C_MIE] = v & 0xaaau; break;
    case C_SIE:
      if (v & ~s.csr[C_MIDELEG] & 0x222)
        e.undef = "sie bits that are not delegated";
      n.csr[C_MIE] = (s.csr[C_MIE] & ~0x222u) | (v & 0x222u);
      break;
    case C_MIP:
      n.csr[C_MIP] = (s.csr[C_MIP] & MIP_DEV) | (v & 0x22au);
      break;
    case C_SIP:
      if ((v ^ old) & ~2u)
        e.undef = "sip bits other than SSIP";
      n.csr[C_MIP] = (s.csr[C_MIP] & ~0x222u) | (v & 0x222u);
      break;
    case C_MTVEC: case C_STVEC:
      if (v & 2)
        e.undef = "reserved tvec mode";
      n.csr[ix] = v;
      break;
    case C_MEPC: case C_SEPC:
      if (v & 3)
        e.undef = "misaligned epc";
      n.csr[ix] = v;
      break;
    case C_MEDELEG:
      if (v & ~0xb304u) // only delegable causes that exist here
        e.undef = "medeleg bits outside the tested set";
      n.csr[ix] = v;
      break;
    case C_MIDELEG:
      if (v & ~0x222u)
        e.undef = "mideleg bits outside the tested set";
      n.csr[ix] = v;
      break;
    default: n.csr[ix] = v; break;
    }
    if ((ix == C_MIE || ix == C_MIP || ix == C_SIE) && (v & ~0xaaau))
      e.undef = "reserved interrupt bits";
    sync_views(n);
  }

  void fpop(uint32_t f3, uint32_t f7, int rd, int r2, uint32_t a, uint32_t b) {
    e.kind = Kind::Fp;
    const int rm = f3 == 7 ? 0 : static_cast<int>(f3);
    const bool badrm = f3 == 5 || f3 == 6;
    switch (f7) {
    case 0x00: case 0x04: case 0x08: case 0x0c: {
      if (badrm)
        break;
      const fp::Op op = f7 == 0 ? fp::ADD : f7 == 4 ? fp::SUB
                        : f7 == 8 ? fp::MUL : fp::DIV;
      wr(rd, fp::arith(op, a, b, rm));
      return;
    }
    case 0x2c:
      if (badrm || r2)
        break;
      wr(rd, fp::arith(fp::SQRT, a, 0, rm));
      return;
    case 0x10:
      if (f3 > 2)
        break;
      wr(rd, (a & 0x7fffffffu) |
                 ((f3 == 0 ? b : f3 == 1 ? ~b : a ^ b) & 0x80000000u));
      return;
    case 0x14:
      if (f3 > 1)
        break;
      wr(rd, fp::minmax(a, b, f3 == 1));
      return;
    case 0x50:
      if (f3 > 2)
        break;
      wr(rd, fp::cmp(a, b, static_cast<int>(f3)));
      return;
    case 0x60:
      if (badrm || r2 > 1)
        break;
      wr(rd, fp::to_int(a, r2 == 1, rm));
      return;
    case 0x68:
      if (badrm || r2 > 1)
        break;
      wr(rd, fp::from_int(a, r2 == 1, rm));
      return;
    case 0x70:
      if (f3 != 1 || r2)
        break;
      wr(rd, fp::classify(a));
      return;
    }
    if (fp_illegal)
      illegal();
    else
      e.undef = "fp encoding";
  }
};

} // namespace vp
