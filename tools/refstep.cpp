// Steps the reference CPU of the repository and the model of iss.h side by side
// over random machine states and instructions and compares everything they
// define after every instruction.
//
//   refstep user|priv|fp SEED STEPS OUT.json [FROM]
//
// exit 0: agreed everywhere, 77: difference (named in OUT.json), else: error.
// Every step is decided by a sub-seed of (SEED, step), so that a failing step
// can be replayed on its own with FROM.
#include "../iss/iss.h"
#include "RISCV.h"
#include "ref.h"
#include "values.h"

#include <cstdarg>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>

long long sim_time = 1000;
void push_oracle_timer(uint32_t) {}

using namespace vp;

static RefCpu ref{};
static Iss iss;
// ---- memory arenas -------------------------------------------------------
constexpr uint32_t DATA = 0x80100000u, DATA_N = 0x8000;
constexpr uint32_t CODE = 0x80200000u, CODE_N = 0x8000;
constexpr uint32_t PT = 0x80300000u; // two roots, four second-level tables
static std::set<uint32_t> touched;   // pages that were written on purpose

static void poke(uint32_t pa, uint32_t v) {
  iss.wrN(pa & ~3u, v, 4);
  ref.memory[((pa & ~3u) - RAM_LO) >> 2] = v;
  touched.insert(pa >> 12);
}

enum Mode { USER, PRIV, FPM };
static Mode mode;

static uint32_t pte_leaf(uint32_t pa) {
  uint32_t f = 1;
  if (pct(80)) f |= 2;
  if (pct(60)) f |= 4;
  if (pct(60)) f |= 8;
  if (pct(50)) f |= 16;
  if (pct(20)) f |= 32;
  if (pct(85)) f |= 64;
  if (pct(75)) f |= 128;
  if (pct(3)) f &= ~1u;
  f |= rn(4) << 8;
  return (pa >> 12 << 10) | f;
}
static uint32_t any_page() {
  return pct(50) ? DATA + 0x1000 * rn(DATA_N >> 12) : CODE + 0x1000 * rn(CODE_N >> 12);
}
static void fill_tables() {
  for (int root = 0; root < 2; root++)
    for (int k = 0; k < 16; k++) {
      // eight regions at each end of the address space
      const uint32_t vpn1 = k < 8 ? static_cast<uint32_t>(0x200 + k) : static_cast<uint32_t>(0x3f0 + k);
      uint32_t p;
      const uint32_t x = rn(10);
      if (x < 5)
        p = ((PT + 0x2000 + 0x1000 * rn(4)) >> 12 << 10) | 1;
      else if (x < 8)
        p = pte_leaf(0x80000000u);
      else if (x < 9)
        p = pte_leaf(0x80000000u + 0x1000 * (1 + rn(1023))); // misaligned
      else
        p = pct(50) ? 0 : 0x20000005u; // absent, or W without R
      if ((p & 0xb) == 1 && (p & 0xd0)) // reserved non-leaf bits
        p &= ~0xd0u;
      poke(PT + 0x1000 * root + 4 * vpn1, p);
    }
  for (int t = 0; t < 4; t++)
    for (uint32_t k = 0; k < 1024; k += 1) {
      if (k >= 64 && k < 0x100) continue;
      if (k >= 0x240) break;
      uint32_t p = pte_leaf(any_page());
      if (pct(2)) p &= ~0xau; // a pointer at the last level, or W without R
      poke(PT + 0x2000 + 0x1000 * t + 4 * k, p);
    }
}
static uint32_t any_va() {
  const uint32_t k = rn(16);
  const uint32_t vpn1 = k < 8 ? 0x200 + k : 0x3f0 + k;
  uint32_t vpn0 = rn(10) < 6 ? rn(64) : 0x100 + rn(8) + (pct(50) ? 0x100 : 0);
  return vpn1 << 22 | vpn0 << 12;
}

static void sync_csr_views() {
  iss.sync_views(iss.s);
}
static void set_csr(int ix, uint32_t v) { iss.s.csr[ix] = v; }

static uint32_t legal_mstatus() {
  uint32_t v = r32() & 0x000e19aau;
  if ((v >> 11 & 3) == 2) v ^= 0x800;
  return v;
}
static uint32_t legal_vec() { return (CODE + 64 * rn(256)) | (pct(50) ? 1 : 0); }

static void new_state() {
  for (int k = 1; k < 32; k++)
    iss.s.x[k] = mode == FPM ? (pct(85) ? fpval() : value()) : value();
  iss.s.res_valid = false;
  iss.s.res_dirty = false;
  if (mode != PRIV) {
    iss.s.pc = CODE + 4 * rn(CODE_N / 4);
    if (pct(2)) iss.s.pc = 0xbffffffcu - 4 * rn(8);
    if (pct(2)) iss.s.pc = RAM_LO + 4 * rn(8);
    return;
  }
  static const uint8_t prv[] = {0, 0, 1, 1, 3};
  iss.s.priv = prv[rn(5)];
  set_csr(C_MTVEC, legal_vec());
  set_csr(C_STVEC, legal_vec());
  set_csr(C_MEPC, r32() & ~3u);
  set_csr(C_SEPC, r32() & ~3u);
  set_csr(C_MCAUSE, r32());
  set_csr(C_SCAUSE, r32());
  set_csr(C_MTVAL, r32());
  set_csr(C_STVAL, r32());
  set_csr(C_MSCRATCH, r32());
  set_csr(C_SSCRATCH, r32());
  set_csr(C_MSTATUS, legal_mstatus());
  set_csr(C_MEDELEG, r32() & 0xb304u);
  const uint32_t dl = r32() & 0x222u;
  set_csr(C_MIDELEG, dl);
  // interrupts are off in two thirds of the states
  uint32_t en = pct(33) ? r32() & (0x888u | dl) : 0;
  set_csr(C_MIE, en);
  set_csr(C_MIP, r32() & (pct(30) ? 0xa2au : 0x22au));
  set_csr(C_SATP, pct(70) ? 0x80000000u | (r32() & 0x7fc00000u) |
                                ((PT + 0x1000 * rn(2)) >> 12)
                          : r32() & 0x7fffffffu);
  if (iss.s.csr[C_MSTATUS] >> 17 & 1 && iss.s.priv != 3)
    set_csr(C_MSTATUS, iss.s.csr[C_MSTATUS] & ~(1u << 17));
  const bool xl = iss.s.priv < 3 && iss.s.csr[C_SATP] >> 31;
  iss.s.pc = (xl ? any_va() : any_page()) + 4 * rn(1024);
  sync_csr_views();
}

// ---- instructions --------------------------------------------------------
static int rg() { return pct(8) ? 0 : pct(50) ? static_cast<int>(10 + rn(6)) : static_cast<int>(rn(32)); }
static uint32_t R(uint32_t f7, int r2, int r1, uint32_t f3, int rd, uint32_t op) {
  return f7 << 25 | static_cast<uint32_t>(r2) << 20 | static_cast<uint32_t>(r1) << 15 | f3 << 12 |
         static_cast<uint32_t>(rd) << 7 | op;
}
static uint32_t I(uint32_t imm, int r1, uint32_t f3, int rd, uint32_t op) {
  return imm << 20 | static_cast<uint32_t>(r1) << 15 | f3 << 12 | static_cast<uint32_t>(rd) << 7 | op;
}
static uint32_t S(uint32_t imm, int r2, int r1, uint32_t f3) {
  return (imm >> 5 & 0x7f) << 25 | static_cast<uint32_t>(r2) << 20 | static_cast<uint32_t>(r1) << 15 |
         f3 << 12 | (imm & 31) << 7 | 0x23;
}
static uint32_t imm12() {
  switch (rn(5)) {
  case 0: return 0;
  case 1: return 0x800;
  case 2: return 0x7ff;
  case 3: return 0xfff;
  default: return r32() & 0xfff;
  }
}
static int addr_reg(uint32_t target, uint32_t imm) {
  int r = 1 + static_cast<int>(rn(31));
  iss.s.x[r] = target - static_cast<uint32_t>(static_cast<int32_t>(imm << 20) >> 20);
  return r;
}
static uint32_t data_addr(int size) {
  uint32_t a;
  if (mode == PRIV && iss.translated() && pct(90))
    a = any_va() + rn(4096);
  else if (pct(4))
    a = pct(50) ? 0xbfffffffu - rn(64) : RAM_LO + rn(64);
  else
    a = DATA + rn(DATA_N);
  return a & ~static_cast<uint32_t>(size - 1);
}

static uint32_t gen_alu() {
  static const uint32_t f7s[] = {0, 0x20, 1, 0x10, 5, 0x30, 0x24, 0x34, 0x14, 4, 1, 1};
  switch (rn(8)) {
  case 0: return (r32() & 0xfffff000u) | static_cast<uint32_t>(rg()) << 7 | 0x37;
  case 1: return (r32() & 0xfffff000u) | static_cast<uint32_t>(rg()) << 7 | 0x17;
  case 2: case 3: {
    const uint32_t f3 = rn(8);
    uint32_t imm = imm12();
    if (f3 == 1 || f3 == 5) {
      static const uint32_t f[] = {0, 0x20, 0x24, 0x34, 0x14, 0x30};
      imm = f[rn(6)] << 5 | rn(32);
      if (f3 == 1 && pct(30)) {
        static const uint32_t u[] = {0x600, 0x601, 0x602, 0x604, 0x605};
        imm = u[rn(5)];
      }
      if (f3 == 5 && pct(25))
        imm = pct(50) ? 0x287 : 0x698;
    }
    return I(imm, rg(), f3, rg(), 0x13);
  }
  default:
    return R(f7s[rn(12)], rg(), rg(), rn(8), rg(), 0x33);
  }
}
static uint32_t gen_flow() {
  switch (rn(4)) {
  case 0: // jal
    return (r32() & 0xffeff000u & ~0u) | static_cast<uint32_t>(rg()) << 7 | 0x6f;
  case 1: {
    const uint32_t imm = imm12();
    uint32_t t = CODE + 4 * rn(CODE_N / 4) + rn(2);
    if (pct(5)) t = r32() & ~2u;
    return I(imm, addr_reg(t, imm), 0, rg(), 0x67);
  }
  default: {
    static const uint32_t f[] = {0, 1, 4, 5, 6, 7};
    int a = rg(), b = rg();
    if (pct(25)) iss.s.x[b] = iss.s.x[a];
    if (pct(15)) iss.s.x[b] = iss.s.x[a] + 1;
    iss.s.x[0] = 0;
    uint32_t i = (r32() & 0xfe000e80u & ~0x100u) | static_cast<uint32_t>(b) << 20 |
                 static_cast<uint32_t>(a) << 15 | f[rn(6)] << 12 | 0x63;
    return i & ~0x100u;
  }
  }
}
static uint32_t gen_mem() {
  if (pct(50)) {
    static const uint32_t f[] = {0, 1, 2, 4, 5};
    const uint32_t f3 = f[rn(5)], imm = imm12();
    const int b = addr_reg(data_addr(1 << (f3 & 3)), imm);
    return I(imm, b, f3, rg(), 3);
  }
  const uint32_t f3 = rn(3), imm = imm12();
  const int b = addr_reg(data_addr(1 << f3), imm);
  return S(imm, rg(), b, f3);
}
static uint32_t last_lr;
static uint32_t gen_amo() {
  static const uint32_t f5[] = {2, 3, 3, 0, 1, 4, 8, 12, 16, 20, 24, 28, 2, 3};
  const uint32_t f = f5[rn(14)];
  uint32_t a = data_addr(4);
  if (f == 3 && iss.s.res_valid && pct(70)) a = last_lr ^ (pct(20) ? 4u : 0u);
  const int b = addr_reg(a, 0);
  if (f == 2) last_lr = a;
  return R(f << 2 | rn(4), f == 2 ? 0 : rg(), b, 2, rg(), 0x2f);
}
static uint32_t gen_fp() {
  static const uint32_t rms[] = {0, 1, 2, 3, 4, 7};
  const uint32_t rm = pct(1) ? 5 + rn(2) : rms[rn(6)];
  int a = rg(), b = rg();
  if (pct(6)) { // operands of nearly equal size
    iss.s.x[b] = iss.s.x[a] ^ (pct(50) ? 0x80000000u : 0) ^ (pct(50) ? 1u << rn(24) : 0);
    iss.s.x[0] = 0;
  }
  switch (rn(16)) {
  case 0: case 1: case 2: return R(0, b, a, rm, rg(), 0x53);
  case 3: case 4: return R(4, b, a, rm, rg(), 0x53);
  case 5: case 6: return R(8, b, a, rm, rg(), 0x53);
  case 7: return R(0xc, b, a, rm, rg(), 0x53);
  case 8: return R(0x2c, 0, a, rm, rg(), 0x53);
  case 9: return R(0x10, b, a, rn(3), rg(), 0x53);
  case 10: return R(0x14, b, a, rn(2), rg(), 0x53);
  case 11: return R(0x50, b, a, rn(3), rg(), 0x53);
  case 12: return R(0x60, static_cast<int>(rn(2)), a, rm, rg(), 0x53);
  case 13: return R(0x68, static_cast<int>(rn(2)), a, rm, rg(), 0x53);
  case 14: return R(0x70, 0, a, 1, rg(), 0x53);
  default: {
    static const uint32_t op[] = {0x43, 0x47, 0x4b, 0x4f};
    int c = rg();
    if (pct(20)) { // near cancellation of the product
      iss.s.x[c] = fp::arith(fp::MUL, iss.s.x[a], iss.s.x[b], 0) ^
                   (pct(50) ? 0x80000000u : 0) ^ (pct(40) ? 1u << rn(4) : 0);
      iss.s.x[0] = 0;
    }
    return R(static_cast<uint32_t>(c) << 2, b, a, rm, rg(), op[rn(4)]);
  }
  }
}
static const uint32_t CSRS[] = {0x305, 0x341, 0x342, 0x304, 0x344, 0x343, 0x340,
                                0x300, 0x303, 0x302, 0x141, 0x105, 0x142, 0x140,
                                0x143, 0x100, 0x104, 0x144, 0x180, 0xf14, 0x301};
static uint32_t gen_csr() {
  const uint32_t num = pct(3) ? (pct(50) ? 0xc01 : 0xc81) : CSRS[rn(21)];
  const int ix = csr_index(num);
  uint32_t v = value();
  const uint32_t cur = ix >= 0 ? iss.s.csr[ix] : 0;
  switch (ix) {
  case C_MSTATUS: v = legal_mstatus() | (cur & ~0x000e19aau); break;
  case C_SSTATUS: v = (cur & ~0x000c0122u) | (r32() & 0x000c0122u); break;
  case C_MIE: v = r32() & (0x888u | iss.s.csr[C_MIDELEG]); break;
  case C_SIE: v = r32() & iss.s.csr[C_MIDELEG] & 0x222; break;
  case C_MIP: v = r32() & 0xaaau; break;
  case C_SIP: v = (cur & ~2u) | (r32() & 2); break;
  case C_MTVEC: case C_STVEC: v = legal_vec(); break;
  case C_MEPC: case C_SEPC: v &= ~3u; break;
  case C_MEDELEG: v &= 0xb304u; break;
  case C_MIDELEG: v &= 0x222u; break;
  case C_SATP:
    v = pct(70) ? 0x80000000u | (r32() & 0x7fc00000u) | ((PT + 0x1000 * rn(2)) >> 12)
                : v & 0x7fffffffu;
    break;
  }
  uint32_t f3 = 1 + rn(3);
  int r1 = 1 + static_cast<int>(rn(31));
  if (pct(20)) { // immediate form
    f3 |= 4;
    r1 = static_cast<int>(rn(32));
  } else if (pct(20) && f3 != 1) {
    r1 = 0;
  } else {
    if (f3 == 3) v = cur & ~v;
    if (f3 == 2 && (ix == C_MSTATUS || ix == C_SSTATUS)) v &= ~0x1800u;
    iss.s.x[r1] = v;
  }
  return I(num, r1, f3, rg(), 0x73);
}
static uint32_t gen_sys() {
  switch (rn(7)) {
  case 0: return 0x30200073;
  case 1: return 0x10200073;
  case 2: case 3: return 0x73;
  case 4: return 0x10500073;
  case 5: return R(9, rg(), rg(), 0, 0, 0x73);
  default: return pct(50) ? 0x0ff0000f : 0x0000100f;
  }
}
static uint32_t gen_inst() {
  const uint32_t x = rn(100);
  if (mode == FPM) return x < 94 ? gen_fp() : gen_alu();
  if (mode == USER)
    return x < 50 ? gen_alu() : x < 68 ? gen_flow() : x < 86 ? gen_mem()
           : x < 98 ? gen_amo() : pct(50) ? 0x0ff0000f : 0x0000100f;
  return x < 10 ? gen_alu() : x < 16 ? gen_flow() : x < 45 ? gen_mem()
         : x < 52 ? gen_amo() : x < 55 ? gen_fp() : x < 82 ? gen_csr() : gen_sys();
}

// The reference decodes other reserved encodings as no-ops.
static bool may_be_illegal(uint32_t i) {
  switch (i & 0x7f) {
  case 0x73: case 0x53: case 0x43: case 0x47: case 0x4b: case 0x4f: return true;
  default: return false;
  }
}

// ---- comparison ----------------------------------------------------------
static std::string why;
static void diff(const char *f, ...) {
  char b[400];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  if (!why.empty()) why += "; ";
  why += b;
}
static void load_ref() {
  for (int k = 0; k < 32; k++) ref.state.gpr[k] = iss.s.x[k];
  for (int k = 0; k < C_NUM; k++) ref.state.csr[k] = iss.s.csr[k];
  ref.state.pc = iss.s.pc;
  ref.privilege = iss.s.priv;
  ref.state.reserve_valid = iss.s.res_valid;
  ref.state.reserve_addr = iss.s.res_addr;
}
static void set_timer(bool due) {
  const uint32_t save = ref.state.csr[C_MIP];
  ref.store_word(OPENSBI_TIMERCMP_HIGH_ADDR, due ? 0 : 0xffffffffu);
  ref.store_word(OPENSBI_TIMERCMP_LOW_ADDR, due ? 1 : 0xffffffffu);
  ref.state.csr[C_MIP] = save;
}

static std::map<std::string, uint64_t> n;
static std::map<std::string, std::map<std::string, uint64_t>> h;
static const char *kname(Kind k) {
  static const char *t[] = {"alu", "load", "store", "amo", "lr", "sc", "branch",
                            "jal", "jalr", "csr", "fence", "fencei", "sfence",
                            "ecall", "ebreak", "wfi", "mret", "sret", "fp",
                            "muldiv", "illegal", "fetch_fault"};
  return t[static_cast<int>(k)];
}

// A supervisor interrupt that is not delegated goes to machine mode.
static int probe(const char *out) {
  std::string bad;
  int tried = 0;
  for (int m = 0; m <= 1; m++)
    for (int c : {1, 5, 9}) {
      iss.s = Arch();
      iss.s.pc = CODE;
      iss.s.priv = static_cast<uint8_t>(m);
      iss.s.csr[C_MTVEC] = CODE + 0x100;
      iss.s.csr[C_STVEC] = CODE + 0x200;
      iss.s.csr[C_MSTATUS] = iss.s.csr[C_SSTATUS] = 2;
      iss.s.csr[C_MIE] = iss.s.csr[C_MIP] = iss.s.csr[C_SIE] = iss.s.csr[C_SIP] = 1u << c;
      poke(CODE, 0x13);
      load_ref();
      ref.exec();
      tried++;
      if (ref.privilege != 3 || ref.state.pc != CODE + 0x100)
        bad += " cause " + std::to_string(c) + " from mode " + std::to_string(m);
    }
  FILE *f = fopen(out, "w");
  if (!f) return 3;
  fprintf(f, "{\"status\":\"%s\",\"detail\":\"undelegated-supervisor-interrupt not taken in machine mode:%s\",\"probes\":%d}\n",
          bad.empty() ? "end" : "violation", bad.c_str(), tried);
  fclose(f);
  return bad.empty() ? 0 : 77;
}

int main(int argc, char **argv) {
  if (argc < 5) return 2;
  mode = argv[1] == std::string("user") ? USER : argv[1] == std::string("priv") ? PRIV : FPM;
  const uint64_t seed = strtoull(argv[2], nullptr, 0);
  const uint64_t steps = strtoull(argv[3], nullptr, 0);
  uint64_t from = argc > 5 ? strtoull(argv[5], nullptr, 0) : 0;
  rng_state = seed * 1000003 + 17;
  ref.init(0);
  ref.ref_only = false;
  ref.uart_print = false;
  ref.dut_pf_check_enable = false;
  iss.fma = true;
  iss.fp_illegal = true;
  if (argv[1] == std::string("probe")) return probe(argv[4]);
  for (uint32_t a = 0; a < DATA_N; a += 4) poke(DATA + a, value());
  for (uint32_t a = 0; a < CODE_N; a += 4) poke(CODE + a, r32() | 3);
  if (mode == PRIV) fill_tables();
  set_timer(false);
  bool due = false;
  uint64_t evals = 0, hash = 1469598103934665603ull, undef = 0, bad = 0, bad_step = 0;
  std::string detail;
  uint64_t k = 0;
  // `from` re-creates one block of 64 steps; memory contents that depend on
  // earlier blocks may differ, which only matters for loads of written data
  for (uint64_t blk = from / 64; k < steps && !bad && blk < from / 64 + steps; blk++) {
    rng_state = (seed << 32) ^ blk;
    rng_state = r64() ^ (r64() << 1);
    new_state();
    if (mode == PRIV && rn(40) == 0) fill_tables();
    if (mode == PRIV && pct(50)) {
      due = pct(30);
      set_timer(due);
    }
    load_ref();
    // registers of devices that no step here addresses
    uint32_t dev[2] = {rn(4) ? rn(12) : r32(), r32() & 0xffffff00u};
    ref.store_word(PLIC_CLAIM_ADDR, dev[0]);
    ref.store_word(UART_ADDR_BASE, dev[1]);
    for (int j = 0; j < 64 && k < steps; j++, k++) {
      // a fresh program counter when it left the arenas
      uint32_t pa = 0;
      iss.xlate_undef = nullptr;
      const bool fetch_ok = iss.translate(iss.s.pc, Iss::FETCH, pa);
      if (iss.xlate_undef || (iss.s.pc & 3) || (fetch_ok && !Iss::in_ram(pa)) ||
          (fetch_ok && pa >= PT && pa < PT + 0x6000)) {
        break;
      }
      if (mode == PRIV && pct(25)) {
        due = !due && pct(40);
        set_timer(due);
      }
      Adopt ad;
      ad.mip_dev = (due ? 0x80u : 0) | (iss.s.csr[C_MIP] & 0x800u);
      uint32_t inst = 0;
      const Arch save = iss.s;
      bool ok = false;
      for (int t = 0; t < 20 && !ok; t++) {
        iss.s = save;
        inst = gen_inst();
        iss.s.x[0] = 0;
        if (fetch_ok) poke(pa, inst);
        iss.step(ad);
        ok = !iss.e.undef && iss.e.kind != Kind::Ebreak &&
             !(iss.e.mmio && (iss.e.load || iss.e.store)) &&
             !(iss.e.kind == Kind::Illegal && !may_be_illegal(inst)) &&
             // supervisor interrupts that are enabled but not delegated: see
             // the probe below
             !(iss.n.csr[C_MIE] & 0x222 & ~iss.n.csr[C_MIDELEG]) &&
             !(iss.e.store && iss.e.st_pa >= PT && iss.e.st_pa < PT + 0x6000);
        if (!ok) undef++;
      }
      if (!ok) break;
      const Arch before = iss.s;
      load_ref();
      ref.state.csr[C_MIP] = (iss.s.csr[C_MIP] & ~0x80u) | (due ? 0x80u : 0);
      const Effect e = iss.e;
      uint32_t win = mode == PRIV && fetch_ok ? iss.irq_winners(ad.mip_dev, ad.mip_dev) : 0;
      const uint32_t ext = ref.state.csr[C_MIP] & 0x800u;
      ref.exec();
      sim_time++;
      evals++;
      why.clear();
      if (!(e.kind == Kind::Csr && csr_index(inst >> 20) == C_MIP) &&
          (ref.state.csr[C_MIP] & 0x800u) != ext)
        diff("external interrupt pending bit changed to %d", !ext);
      if (ref.load_word(PLIC_CLAIM_ADDR) != dev[0] || ref.load_word(UART_ADDR_BASE) != dev[1])
        diff("device registers changed");
      // ---- expected state
      Arch want;
      std::string what;
      // The interrupt may also be taken right after an environment call.
      if (win && e.kind == Kind::Ecall && ref.state.pc == iss.n.pc && ref.privilege == iss.n.priv &&
          ref.state.csr[iss.n.priv == 1 ? C_SCAUSE : C_MCAUSE] == e.cause)
        win = 0;
      if (win) {
        int c = 0;
        while (!(win >> c & 1)) c++;
        want = iss.after_interrupt(static_cast<uint32_t>(c));
        what = "irq" + std::to_string(c);
        n["interrupts"]++;
        h["interrupt_causes"][std::string(want.priv == 1 ? "s" : "m") + std::to_string(c)]++;
      } else {
        want = iss.n;
        what = kname(e.kind);
        h["kinds"][what]++;
        if (e.trap) {
          n["traps"]++;
          h["trap_causes"][std::string(want.priv == 1 ? "s" : "m") + std::to_string(e.cause) +
                           "_from_" + "us?m"[before.priv]]++;
        }
        if (e.kind == Kind::Csr) h["csrs"][csr_name(csr_index(inst >> 20))]++;
        if (e.kind == Kind::Fp) h["rounding"][std::to_string(inst >> 12 & 7)]++;
        if (e.kind == Kind::Mret || e.kind == Kind::Sret) n["returns"]++;
        if (iss.translated()) n["translated"]++;
        if (e.kind == Kind::Sc) h["sc"][e.sc_ok ? "ok" : "fail"]++;
      }
      for (int q = 0; q < 32; q++)
        if (ref.state.gpr[q] != want.x[q])
          diff("x%d expected %08x got %08x", q, want.x[q], ref.state.gpr[q]);
      if (ref.state.pc != want.pc) diff("next pc expected %08x got %08x", want.pc, ref.state.pc);
      if (ref.privilege != want.priv) diff("mode expected %d got %d", want.priv, ref.privilege);
      for (int q = 0; q < C_NUM; q++) {
        uint32_t a = want.csr[q], b = ref.state.csr[q];
        if (q == C_MIP) a &= ~MIP_DEV, b &= ~MIP_DEV;
        if (a != b) diff("%s expected %08x got %08x", csr_name(q), a, b);
      }
      const bool st = !win && e.store;
      if (ref.state.store != st) diff("store flag expected %d got %d", st, ref.state.store);
      if (!win) {
        if (e.pf_inst != ref.page_fault_inst || e.pf_load != ref.page_fault_load ||
            e.pf_store != ref.page_fault_store)
          diff("page fault kind expected %d%d%d got %d%d%d", e.pf_inst, e.pf_load, e.pf_store,
               ref.page_fault_inst, ref.page_fault_load, ref.page_fault_store);
        if (e.kind == Kind::Sc && !e.trap && ref.state.reserve_valid) diff("reservation survives sc");
        if (e.kind == Kind::Lr && !e.trap && (!ref.state.reserve_valid || ref.state.reserve_addr != e.ld_pa))
          diff("lr made no reservation");
      }
      const bool quiet = !win && !e.trap && e.kind != Kind::Sc && e.kind != Kind::Lr &&
                         !e.store && e.kind != Kind::Mret && e.kind != Kind::Sret;
      if (quiet && (ref.state.reserve_valid != before.res_valid ||
                    (before.res_valid && ref.state.reserve_addr != before.res_addr)))
        diff("reservation changed");
      if (st) {
        iss.wrN(e.st_pa, e.st_data, e.st_size);
        touched.insert(e.st_pa >> 12);
        if (ref.state.store_addr != e.st_pa) diff("store address expected %08x got %08x", e.st_pa, ref.state.store_addr);
        for (int q = -1; q <= 1; q++) {
          const uint32_t w = (e.st_pa & ~3u) + 4 * static_cast<uint32_t>(q);
          if (Iss::in_ram(w) && ref.memory[(w - RAM_LO) >> 2] != iss.rd32(w))
            diff("memory %08x expected %08x got %08x", w, iss.rd32(w), ref.memory[(w - RAM_LO) >> 2]);
        }
      }
      if (!why.empty()) {
        bad = 1;
        bad_step = blk * 64;
        char b[200];
        snprintf(b, sizeof b, "%s pc=%08x inst=%08x mode=%d rs1=%08x rs2=%08x: ", what.c_str(),
                 before.pc, fetch_ok ? inst : 0, before.priv, before.x[inst >> 15 & 31],
                 before.x[inst >> 20 & 31]);
        detail = b + why;
        break;
      }
      iss.s = want;
      // the reservation rule of the reference: a store to the word ends it
      iss.s.res_valid = ref.state.reserve_valid;
      iss.s.res_addr = ref.state.reserve_addr;
      iss.s.res_dirty = false;
      if (e.kind == Kind::FetchFault && (want.pc == before.pc || pct(60))) j = 64;
      hash = (hash ^ inst ^ (static_cast<uint64_t>(want.pc) << 32) ^ want.x[inst >> 7 & 31]) * 1099511628211ull;
      if (mode != PRIV && pct(20))
        for (int q = 0; q < 4; q++) {
          iss.s.x[1 + rn(31)] = mode == FPM ? fpval() : value();
        }
    }
  }
  // nothing else in memory was touched
  uint64_t scanned = 0;
  if (!bad) {
    for (uint32_t p = RAM_LO >> 12; p < RAM_HI >> 12; p++) {
      const uint8_t *a = iss.ram + (static_cast<uint64_t>(p) << 12) - RAM_LO;
      const uint8_t *b = reinterpret_cast<uint8_t *>(ref.memory) + (static_cast<uint64_t>(p) << 12) - RAM_LO;
      scanned++;
      if (std::memcmp(a, b, 4096)) {
        bad = 1;
        char t[100];
        snprintf(t, sizeof t, "memory page %08x differs at the end%s", p << 12,
                 touched.count(p) ? "" : " (never written)");
        detail = t;
        break;
      }
    }
  }
  FILE *f = fopen(argv[4], "w");
  if (!f) return 3;
  fprintf(f, "{\"status\":\"%s\",\"detail\":\"%s\",\"from\":%llu,\"steps\":%llu,\"rejected\":%llu,"
             "\"pages_compared\":%llu,\"hash\":\"%016llx\"",
          bad ? "violation" : "end", detail.c_str(), static_cast<unsigned long long>(bad_step),
          static_cast<unsigned long long>(evals), static_cast<unsigned long long>(undef),
          static_cast<unsigned long long>(scanned), static_cast<unsigned long long>(hash));
  for (auto &x : n) fprintf(f, ",\"%s\":%llu", x.first.c_str(), static_cast<unsigned long long>(x.second));
  for (auto &x : h) {
    fprintf(f, ",\"%s\":{", x.first.c_str());
    bool first = true;
    for (auto &y : x.second) {
      fprintf(f, "%s\"%s\":%llu", first ? "" : ",", y.first.c_str(), static_cast<unsigned long long>(y.second));
      first = false;
    }
    fprintf(f, "}");
  }
  fprintf(f, "}\n");
  fclose(f);
  return bad ? 77 : 0;
}
