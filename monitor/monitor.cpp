// The reference-CPU library interface implemented by the oracle, plus the run
// monitors. Controlled by the environment variable VP ("key=value,..."), writes
// one JSON object to the file named by `out`.
#include "../iss/iss.h"
#include "AXI_Interconnect.h"
#include "refrun.h"
#include "diff.h"
#include "refcpu_api.h"
#include "vp_monitor.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <map>
#include <string>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

extern long long sim_time;
VpAxiControl g_vp_axi;

namespace {

using vp::Kind;

std::map<std::string, std::string> opts;
std::string out_path;
bool active = false;
// The run is meant to diverge: the repository's own checker has to stop it.
bool lenient = false;
bool diverged = false;
bool in_child = false;
uint64_t warm_at = 0; // commits after which the report starts again
bool strict = false; // which commits are exempt from comparison

uint64_t opt_u(const char *k, uint64_t d) {
  auto it = opts.find(k);
  return it == opts.end() ? d : std::strtoull(it->second.c_str(), nullptr, 0);
}

struct Options {
  Options() {
    const char *e = std::getenv("VP");
    if (!e)
      return;
    std::string s(e), cur;
    for (size_t i = 0; i <= s.size(); i++) {
      if (i == s.size() || s[i] == ',') {
        const size_t q = cur.find('=');
        if (q != std::string::npos)
          opts[cur.substr(0, q)] = cur.substr(q + 1);
        cur.clear();
      } else {
        cur += s[i];
      }
    }
    out_path = opts.count("out") ? opts["out"] : "";
    g_vp_axi.seed = opt_u("axi_seed", 1);
    g_vp_axi.rd_lat_min = static_cast<uint32_t>(opt_u("rd_min", 1));
    g_vp_axi.rd_lat_max = static_cast<uint32_t>(opt_u("rd_max", 1));
    g_vp_axi.wr_lat_min = static_cast<uint32_t>(opt_u("wr_min", 1));
    g_vp_axi.wr_lat_max = static_cast<uint32_t>(opt_u("wr_max", 1));
    g_vp_axi.ready_pct = static_cast<uint32_t>(opt_u("ready", 100));
    g_vp_axi.spike_pct = static_cast<uint32_t>(opt_u("spike", 0));
    g_vp_axi.spike_lat = static_cast<uint32_t>(opt_u("spike_lat", 0));
    g_vp_axi.reorder = opt_u("reorder", 0) != 0;
    lenient = opt_u("lenient", 0) != 0;
    strict = opt_u("strict", 0) != 0;
    warm_at = opt_u("warm", 0);
    g_vp_axi.flip = opt_u("flip", 0);
    g_vp_axi.flip_bit = static_cast<uint32_t>(opt_u("flipbit", 0));
    g_vp_axi.llc_traffic = opt_u("llc", 0) != 0;
  }
};
Options options_at_start;

struct Counters {
  uint64_t commits = 0, synced = 0, loads = 0, stores = 0, branches = 0,
           jalr = 0, jal = 0, amo = 0, lr = 0, sc_ok = 0, sc_fail = 0,
           sc_free = 0, csr = 0, fence = 0, fencei = 0, sfence = 0, traps = 0,
           interrupts = 0, mret = 0, sret = 0, fp = 0, muldiv = 0, mmio_ld = 0,
           mmio_st = 0, bus_dev = 0, pf_i = 0, pf_l = 0, pf_s = 0, illegal = 0, ecall = 0,
           taken = 0, paged = 0, prv[4] = {}, wb_lines = 0, wb_bytes = 0,
           max_gap = 0, irq_wait_max = 0, irq_csr = 0,
           prefix = 0, restores = 0, console_pre = 0, inj = 0, inj_stop = 0, inj_pass = 0, inj_pos = 0;
  uint64_t causes[64] = {};
};
Counters c;

// What the final report should say. An instruction that traps may or may not
// count as committed, one that an interrupt replaced does not.
struct Stat {
  uint64_t cycles = 0, done = 0, trapped = 0, ld = 0, st = 0, trap_ld = 0,
           trap_st = 0, br = 0, jalr = 0, ret = 0, mis_br = 0, mis_jalr = 0,
           mis_ret = 0, rd_i = 0, rd_d = 0, ram_st = 0;
};
Stat stat_all, stat_warm;
// Set of line numbers; no library code, so that uninitialised-use reports stay
// few in instrumented builds.
struct Lines {
  uint32_t *slot = nullptr;
  size_t cap = 0, n = 0;
  void insert(uint32_t v) {
    if (2 * n >= cap)
      grow();
    put(v + 1);
  }
  size_t size() const { return n; }

private:
  void put(uint32_t v) {
    size_t i = (v * 2654435761u >> 8) & (cap - 1);
    while (slot[i] && slot[i] != v)
      i = (i + 1) & (cap - 1);
    n += slot[i] == 0;
    slot[i] = v;
  }
  void grow() {
    uint32_t *old = slot;
    const size_t m = cap;
    cap = cap ? 2 * cap : 1024;
    slot = static_cast<uint32_t *>(std::calloc(cap, sizeof *slot));
    n = 0;
    for (size_t i = 0; i < m; i++)
      if (old[i])
        put(old[i]);
    std::free(old);
  }
};
Lines code_lines, data_lines;

uint64_t bus_hash = 1469598103934665603ull;
uint64_t commit_hash = 1469598103934665603ull;
void mix(uint64_t &h, uint64_t v) {
  for (int i = 0; i < 8; i++) {
    h ^= (v >> (8 * i)) & 255;
    h *= 1099511628211ull;
  }
}

// Ring of the last commits, for reports.
struct Last {
  uint32_t pc, inst;
  long long t;
};
Last ring[64];

std::vector<std::pair<const char *, uint64_t>> extra;
std::map<std::string, uint64_t> inj_items; // faults tried per item
std::vector<uint8_t> console; // bytes the committed program wrote

void write_result(const char *status, const char *key, const char *detail) {
  if (out_path.empty())
    return;
  std::FILE *f = std::fopen(out_path.c_str(), "w");
  if (!f)
    return;
  std::fprintf(f, "{\"status\":\"%s\",\"key\":\"%s\",\"detail\":\"", status, key);
  for (const char *p = detail; *p; p++) {
    if (*p == '"' || *p == '\\')
      std::fputc('\\', f);
    if (*p == '\n')
      std::fputs("\\n", f);
    else
      std::fputc(*p, f);
  }
  std::fprintf(f, "\",\"sim_time\":%lld", sim_time);
#define F(n) std::fprintf(f, ",\"" #n "\":%llu", (unsigned long long)c.n)
  F(commits); F(synced); F(loads); F(stores); F(branches); F(jalr); F(jal);
  F(amo); F(lr); F(sc_ok); F(sc_fail); F(sc_free); F(csr); F(fence); F(fencei);
  F(sfence); F(traps); F(interrupts); F(mret); F(sret); F(fp); F(muldiv);
  F(mmio_ld); F(mmio_st); F(bus_dev); F(pf_i); F(pf_l); F(pf_s); F(illegal); F(ecall);
  F(taken); F(paged); F(wb_lines); F(wb_bytes); F(max_gap); F(irq_wait_max);
  F(irq_csr); F(prefix); F(restores); F(console_pre); F(inj); F(inj_stop); F(inj_pass); F(inj_pos);
#undef F
  for (int i = 0; i < 4; i++)
    std::fprintf(f, ",\"prv%d\":%llu", i, (unsigned long long)c.prv[i]);
  std::fprintf(f, ",\"causes\":{");
  bool first = true;
  for (int i = 0; i < 64; i++)
    if (c.causes[i]) {
      std::fprintf(f, "%s\"%s%d\":%llu", first ? "" : ",", i >= 32 ? "i" : "e",
                   i & 31, (unsigned long long)c.causes[i]);
      first = false;
    }
  std::fprintf(f, "}");
  std::fprintf(f,
               ",\"bus_reads\":%llu,\"bus_writes\":%llu,\"bus_rejected\":%llu,"
               "\"bus_reordered\":%llu,\"bus_id_reuse\":%llu,"
               "\"bus_hash\":\"%016llx\",\"commit_hash\":\"%016llx\"",
               (unsigned long long)g_vp_axi.reads,
               (unsigned long long)g_vp_axi.writes,
               (unsigned long long)g_vp_axi.rejected,
               (unsigned long long)g_vp_axi.reordered,
               (unsigned long long)g_vp_axi.id_reuse,
               (unsigned long long)bus_hash, (unsigned long long)commit_hash);
  for (auto &e : extra)
    std::fprintf(f, ",\"%s\":%llu", e.first, (unsigned long long)e.second);
  if (!inj_items.empty()) {
    std::fprintf(f, ",\"inj_items\":{");
    bool fst = true;
    for (auto &x : inj_items) {
      std::fprintf(f, "%s\"%s\":%llu", fst ? "" : ",", x.first.c_str(),
                   (unsigned long long)x.second);
      fst = false;
    }
    std::fprintf(f, "}");
  }
  if (g_vp_axi.flip)
    std::fprintf(f, ",\"flipped\":%llu,\"diverged\":%d",
                 (unsigned long long)g_vp_axi.flipped, diverged);
  if (!console.empty()) {
    std::fprintf(f, ",\"console\":\"");
    for (uint8_t b : console)
      std::fprintf(f, "%02x", b);
    std::fprintf(f, "\"");
  }
  const Stat &a = stat_all, &w = stat_warm;
  std::fprintf(f, ",\"stat\":{\"code_lines\":%zu,\"data_lines\":%zu",
               code_lines.size(), data_lines.size());
#define F(n) std::fprintf(f, ",\"" #n "\":%llu", (unsigned long long)(a.n - w.n))
  F(cycles); F(done); F(trapped); F(ld); F(st); F(trap_ld); F(trap_st); F(br);
  F(jalr); F(ret); F(mis_br); F(mis_jalr); F(mis_ret); F(rd_i); F(rd_d); F(ram_st);
#undef F
  std::fprintf(f, "}");
  vp_write_extra(f);
  std::fprintf(f, "}\n");
  std::fclose(f);
}

bool finished = false;
[[noreturn]] void stop(const char *status, const char *key, int code,
                       const char *fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  int n = std::vsnprintf(buf, sizeof buf - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1)
    n = sizeof buf - 1;
  std::string d(buf);
  char line[96];
  const uint64_t k = std::min<uint64_t>(c.commits, 48);
  for (uint64_t i = 0; i < k; i++) {
    const Last &l = ring[(c.commits - k + i) % 64];
    std::snprintf(line, sizeof line, "\n  t=%lld pc=%08x inst=%08x", l.t, l.pc,
                  l.inst);
    d += line;
  }
  finished = true;
  write_result(status, key, d.c_str());
  std::fflush(stdout);
  std::fprintf(stderr, "[VP] %s %s: %s\n", status, key, d.c_str());
  _exit(code);
}

// ---------------------------------------------------------------------------
// Byte history of memory lines: which values a byte had recently. A line that
// is written back may only hold committed values.
struct LineHist {
  struct Old {
    uint64_t commit;
    uint8_t off, val;
  };
  std::vector<Old> v;
  size_t pos = 0;
};
std::unordered_map<uint32_t, LineHist> hist;

} // namespace

struct RefCpuContext {
  vp::Iss iss;
  vp::DevModel dev;
  vp::BusDev bus_dev; // as the committed accesses leave it
  bool device_effects = true, ref_only = false, uart_print = false,
       sim_end = false;
  uint64_t now = 0;
  uint64_t irq_wait = 0;
  bool last_wfi = false;
  bool restored = false; // state was set from a checkpoint
  bool guide = false;    // second instance: feeds a front end without predictor
  bool verified = false;
  uint32_t last_ref_inst = 0;
  // what get_state/get_step_info report
  bool rep_store = false;
  uint32_t rep_st_addr = 0, rep_st_data = 0;
  RefCpuState inj{};
  bool inj_live = false;
  RefCpuStepInfo inj_info{};
  bool exp_i = false, exp_l = false, exp_s = false; // announced page faults
};

namespace {
RefCpuContext *ctx = nullptr;
uint64_t last_commit_time = 0;

// Accesses the bus device saw, against those that committed.
struct DevAcc {
  bool write;
  uint32_t addr, size, data;
};
std::deque<DevAcc> dev_want, dev_seen;
vp::BusDev bus_device;

void match_device() {
  while (!dev_want.empty() && !dev_seen.empty()) {
    const DevAcc &w = dev_want.front(), &g = dev_seen.front();
    if (w.write != g.write || w.addr != g.addr || w.size != g.size ||
        w.data != g.data)
      stop("violation", "device_access", 77,
           "bus device saw %s %08x size %u data %08x, committed %s %08x size "
           "%u data %08x",
           g.write ? "write" : "read", g.addr, g.size, g.data,
           w.write ? "write" : "read", w.addr, w.size, w.data);
    c.bus_dev++;
    dev_want.pop_front();
    dev_seen.pop_front();
  }
}

void remember_store(RefCpuContext *r) {
  const auto &e = r->iss.e;
  if (!e.store || !vp::Iss::in_ram(e.st_pa))
    return;
  LineHist &h = hist[e.st_pa & ~63u];
  for (int i = 0; i < e.st_size; i++) {
    const uint32_t a = e.st_pa + static_cast<uint32_t>(i);
    LineHist::Old o{c.commits, static_cast<uint8_t>(a & 63),
                    r->iss.ram[a - vp::RAM_LO]};
    if (h.v.size() < 256) {
      h.v.push_back(o);
    } else {
      h.v[h.pos] = o;
      h.pos = (h.pos + 1) % 256;
    }
  }
}

// ---- comparison ------------------------------------------------------------
struct Diff {
  bool bad = false;
  char what[32] = "";
  uint32_t want = 0, got = 0;
  void set(const char *w, uint32_t a, uint32_t b) {
    if (!bad) {
      bad = true;
      std::snprintf(what, sizeof what, "%s", w);
      want = a;
      got = b;
    }
  }
};

Diff compare(const vp::Arch &n, const CPU_state &d, uint32_t mask_mip) {
  Diff r;
  if (n.pc != d.pc)
    r.set("next_pc", n.pc, d.pc);
  for (int i = 0; i < 32; i++)
    if (n.x[i] != d.gpr[i]) {
      char w[16];
      std::snprintf(w, sizeof w, "x%d", i);
      r.set(w, n.x[i], d.gpr[i]);
    }
  for (int i = 0; i < vp::C_NUM; i++) {
    uint32_t m = ~0u;
    if (i == vp::C_MIP || i == vp::C_SIP)
      m = ~mask_mip;
    if ((n.csr[i] & m) != (d.csr[i] & m))
      r.set(vp::csr_name(i), n.csr[i], d.csr[i]);
  }
  return r;
}

void count(RefCpuContext *r) {
  const auto &e = r->iss.e;
  const auto &s = r->iss.s; // state before
  c.prv[s.priv & 3]++;
  if ((s.csr[vp::C_SATP] >> 31) && s.priv < 3)
    c.paged++;
  if (e.trap) {
    c.traps++;
    c.causes[e.cause & 31]++;
    if (e.pf_inst)
      c.pf_i++;
    if (e.pf_load)
      c.pf_l++;
    if (e.pf_store)
      c.pf_s++;
    if (e.kind == Kind::Illegal)
      c.illegal++;
    if (e.kind == Kind::Ecall)
      c.ecall++;
    return;
  }
  switch (e.kind) {
  case Kind::Load: c.loads++; break;
  case Kind::Store: c.stores++; break;
  case Kind::Amo: c.amo++; break;
  case Kind::Lr: c.lr++; break;
  case Kind::Sc:
    (e.sc_ok ? c.sc_ok : c.sc_fail)++;
    c.sc_free += e.sc_free;
    break;
  case Kind::Branch: c.branches++; c.taken += e.taken; break;
  case Kind::Jal: c.jal++; break;
  case Kind::Jalr: c.jalr++; break;
  case Kind::Csr: c.csr++; c.irq_csr += e.irq_csr; break;
  case Kind::Fence: c.fence++; break;
  case Kind::FenceI: c.fencei++; break;
  case Kind::Sfence: c.sfence++; break;
  case Kind::Mret: c.mret++; break;
  case Kind::Sret: c.sret++; break;
  case Kind::Fp: c.fp++; break;
  case Kind::MulDiv: c.muldiv++; break;
  default: break;
  }
  if (e.mmio && e.load)
    c.mmio_ld++;
  if (e.mmio && e.store)
    c.mmio_st++;
}

void count_stat(RefCpuContext *r) {
  const auto &e = r->iss.e;
  Stat &a = stat_all;
  const bool missed = vp_commit_hook(false);
  a.done++;
  const bool st = e.kind == Kind::Store || e.kind == Kind::Amo || e.kind == Kind::Sc;
  const bool ld = e.kind == Kind::Load || e.kind == Kind::Amo || e.kind == Kind::Lr;
  if (!e.pf_inst)
    code_lines.insert(e.pc >> 6);
  if (e.trap) {
    a.trapped++;
    a.trap_ld += ld;
    a.trap_st += st;
  } else {
    a.ld += ld;
    a.st += st;
    if (e.load && !e.mmio)
      data_lines.insert(e.ld_pa >> 6);
    if (e.store && !e.mmio) {
      data_lines.insert(e.st_pa >> 6);
      a.ram_st++;
    }
    if (e.kind == Kind::Branch) {
      a.br++;
      a.mis_br += missed;
    } else if (e.kind == Kind::Jalr) {
      const bool ret = e.inst == 0x8067;
      (ret ? a.ret : a.jalr)++;
      (ret ? a.mis_ret : a.mis_jalr) += missed;
    }
  }
  if (warm_at && a.done == warm_at)
    stat_warm = a;
}

void note_commit(RefCpuContext *r, uint32_t pc, uint32_t inst) {
  ring[c.commits % 64] = Last{pc, inst, sim_time};
  c.commits++;
  mix(commit_hash, (static_cast<uint64_t>(pc) << 32) | inst);
  const uint64_t gap = static_cast<uint64_t>(sim_time) - last_commit_time;
  c.max_gap = std::max(c.max_gap, gap);
  last_commit_time = static_cast<uint64_t>(sim_time);
  (void)r;
}

// One committed instruction, `sync` = the simulator asked the reference to
// take over its state instead of stepping.
void on_commit(RefCpuContext *r, const CPU_state &d, bool sync, int dut_priv) {
  vp::Iss &iss = r->iss;
  const uint64_t now = static_cast<uint64_t>(sim_time);
  r->dev.iss = &iss;
  r->dev.observe(now);
  if (sync)
    c.synced++;
  if (diverged)
    stop("violation", "missed", 77,
         "the run went on after a divergence: now at pc=%08x", d.commit_pc);
  if (d.commit_pc != iss.s.pc)
    stop("violation", "commit_pc", 77,
         "committed instruction address %08x, expected %08x", d.commit_pc,
         iss.s.pc);

  const uint32_t may = r->dev.may(now), must = r->dev.must(now);

  // Hypothesis 1: the instruction executed.
  vp::Adopt ad;
  iss.step();
  const bool is_dev = iss.e.mmio && !iss.e.trap;
  bool adopted_load = false;
  uint32_t mip_mask = vp::MIP_DEV;
  if (iss.e.undef)
    stop("undef", "undef", 78, "pc=%08x inst=%08x: %s", iss.e.pc, iss.e.inst,
         iss.e.undef);
  Diff df;
  bool bad_mip = false;
  uint32_t bad_want = 0, bad_got = 0;
  {
    const vp::Effect e0 = iss.e;
    if (is_dev && e0.load) {
      ad.use = true;
      const int rd = e0.inst >> 7 & 31;
      ad.rd = d.gpr[rd];
      adopted_load = rd != 0;
      iss.step(ad);
    } else if (e0.sc_free) {
      ad.use = true;
      const int rd = e0.inst >> 7 & 31;
      ad.sc_ok = rd ? d.gpr[rd] == 0 : d.store;
      iss.step(ad);
    } else if (e0.irq_csr && !e0.trap) {
      // adopt the device lines the core saw, within what the devices allow
      const int rd = e0.inst >> 7 & 31;
      uint32_t seen = must;
      if (rd && (e0.inst >> 20) == 0x344)
        seen = d.gpr[rd] & vp::MIP_DEV;
      const uint32_t may_l = r->dev.may(now, 200),
                     must_l = r->dev.must(now, 200);
      // (not final: an interrupt may have replaced the read)
      bad_mip = (seen & ~may_l) || (must_l & ~seen);
      bad_want = must_l;
      bad_got = seen;
      ad.mip_dev = seen;
      ad.use = true;
      iss.step(ad);
    }
    if (iss.e.undef)
      stop("undef", "undef", 78, "pc=%08x inst=%08x: %s", iss.e.pc, iss.e.inst,
           iss.e.undef);
    df = compare(iss.n, d, mip_mask);
    if (bad_mip)
      df.set("mip_read", bad_want, bad_got);
    const auto &e = iss.e;
    if (!df.bad) {
      if (!e.pf_inst && e.inst != d.instruction)
        df.set("instruction", e.inst, d.instruction);
      if (e.pf_inst != d.page_fault_inst)
        df.set("fetch_fault", e.pf_inst, d.page_fault_inst);
      if (e.pf_load != d.page_fault_load)
        df.set("load_fault", e.pf_load, d.page_fault_load);
      if (e.pf_store != d.page_fault_store)
        df.set("store_fault", e.pf_store, d.page_fault_store);
      const bool st_unknown = sync && !d.store;
      if (!st_unknown && e.store != d.store)
        df.set("store", e.store, d.store);
      if (e.store && d.store) {
        if (e.st_pa != d.store_addr)
          df.set("store_addr", e.st_pa, d.store_addr);
        const uint32_t sd = e.st_data << ((e.st_pa & 3) * 8);
        if (sd != d.store_data)
          df.set("store_data", sd, d.store_data);
      }
      if (sync && dut_priv >= 0 && iss.n.priv != dut_priv)
        df.set("privilege", iss.n.priv, static_cast<uint32_t>(dut_priv));
    }
  }

  // Hypothesis 2: an interrupt was taken instead. The core may only do so for
  // a pending and enabled cause.
  if (df.bad && sync) {
    const uint32_t set = iss.irq_winners(must, may);
    Diff d2;
    for (int code = 0; code < 16; code++) {
      if (!(set >> code & 1))
        continue;
      vp::Arch n = iss.after_interrupt(static_cast<uint32_t>(code));
      d2 = compare(n, d, vp::MIP_DEV);
      if (!d2.bad && dut_priv >= 0 && n.priv != dut_priv)
        d2.set("privilege", n.priv, static_cast<uint32_t>(dut_priv));
      if (!d2.bad) {
        note_commit(r, d.commit_pc, 0);
        vp_commit_hook(true);
        c.interrupts++;
        c.causes[32 + code]++;
        iss.s = n;
        r->irq_wait = 0;
        r->rep_store = false;
        iss.n = n;
        return;
      }
    }
    if ((d.csr[vp::C_MCAUSE] >> 31 &&
         d.csr[vp::C_MCAUSE] != iss.n.csr[vp::C_MCAUSE]) ||
        (d.csr[vp::C_SCAUSE] >> 31 &&
         d.csr[vp::C_SCAUSE] != iss.n.csr[vp::C_SCAUSE]))
      stop("violation", "interrupt", 77,
           "pc=%08x interrupt not allowed or wrong state: winners=%03x "
           "priv=%d mstatus=%08x mie=%03x mip=%03x mideleg=%03x; core: pc=%08x "
           "mcause=%08x scause=%08x mepc=%08x sepc=%08x mstatus=%08x "
           "mtval=%08x stval=%08x; %s expected %08x got %08x",
           d.commit_pc, set, iss.s.priv, iss.s.csr[vp::C_MSTATUS],
           iss.s.csr[vp::C_MIE], iss.s.csr[vp::C_MIP],
           iss.s.csr[vp::C_MIDELEG], d.pc, d.csr[vp::C_MCAUSE],
           d.csr[vp::C_SCAUSE], d.csr[vp::C_MEPC], d.csr[vp::C_SEPC],
           d.csr[vp::C_MSTATUS], d.csr[vp::C_MTVAL], d.csr[vp::C_STVAL],
           d2.bad ? d2.what : "-", d2.want, d2.got);
  }
  if (df.bad && lenient && !(sync && is_dev)) {
    // the reference goes on as it should; the checker has to stop the run
    if (sync)
      stop("violation", "unchecked", 77,
           "pc=%08x inst=%08x: a wrong commit was exempt from the comparison: "
           "%s expected %08x got %08x",
           iss.e.pc, iss.e.inst, df.what, df.want, df.got);
    diverged = true;
    char b[200];
    std::snprintf(b, sizeof b, "pc=%08x inst=%08x: %s expected %08x got %08x",
                  iss.e.pc, iss.e.inst, df.what, df.want, df.got);
    write_result("diverged", df.what, b);
    r->rep_store = iss.e.store;
    r->rep_st_addr = iss.e.st_pa;
    r->rep_st_data = iss.e.st_data << ((iss.e.st_pa & 3) * 8);
    iss.apply();
    return;
  }
  if (df.bad)
    stop("violation", df.what, 77,
         "pc=%08x inst=%08x priv=%d sync=%d: %s expected %08x got %08x",
         iss.e.pc, iss.e.inst, iss.s.priv, sync, df.what, df.want, df.got);

  const auto &e = iss.e;
  // The simulator declares which commits are exempt from its own comparison;
  // that set must not be wider than necessary.
  if (strict && sync && !is_dev && !e.irq_csr)
    stop("violation", "exempt", 77,
         "pc=%08x inst=%08x is exempt from the comparison without a device "
         "being involved",
         e.pc, e.inst);
  if (strict && !sync && (r->exp_i != e.pf_inst || r->exp_l != e.pf_load || r->exp_s != e.pf_store))
    stop("violation", "announced", 77,
         "pc=%08x announced page faults %d%d%d, taken %d%d%d", e.pc, r->exp_i,
         r->exp_l, r->exp_s, e.pf_inst, e.pf_load, e.pf_store);
  if (strict && r->now != now)
    stop("violation", "announced", 77, "announced time %llu at cycle %llu",
         (unsigned long long)r->now, (unsigned long long)now);
  const bool bus_dev = is_dev && vp::BusDev::in(e.load ? e.ld_pa : e.st_pa);
  if (bus_dev) {
    uint32_t v = e.st_data & vp::BusDev::mask(e.st_size);
    if (e.load) {
      v = r->bus_dev.read(e.ld_pa, e.ld_size);
      const bool sext = !(e.inst >> 14 & 1);
      uint32_t x = v;
      if (sext && e.ld_size == 1)
        x = static_cast<uint32_t>(static_cast<int8_t>(v));
      if (sext && e.ld_size == 2)
        x = static_cast<uint32_t>(static_cast<int16_t>(v));
      if (adopted_load && x != ad.rd)
        stop("violation", "device_load", 77,
             "pc=%08x bus device load from %08x size %d returned %08x, "
             "expected %08x (cycle %llu)",
             e.pc, e.ld_pa, e.ld_size, ad.rd, x, (unsigned long long)now);
      dev_want.push_back({false, e.ld_pa, static_cast<uint32_t>(e.ld_size), v});
    } else {
      r->bus_dev.write(e.st_pa, v, e.st_size);
      dev_want.push_back({true, e.st_pa, static_cast<uint32_t>(e.st_size), v});
    }
    match_device();
  }
  if (adopted_load && !bus_dev) {
    const uint32_t f3 = e.inst >> 12 & 7;
    if (vp::DevModel::modeled(e.ld_pa)) {
      uint32_t want = 0;
      if (!r->dev.check_load(e.ld_pa, e.ld_size, !(f3 & 4), ad.rd, now, want))
        stop("violation", "device_load", 77,
             "pc=%08x device load from %08x size %d returned %08x, expected "
             "%08x (cycle %llu)",
             e.pc, e.ld_pa, e.ld_size, ad.rd, want, (unsigned long long)now);
    } else {
      uint32_t v = iss.rdN(e.ld_pa, e.ld_size);
      if (!(f3 & 4) && e.ld_size == 1)
        v = static_cast<uint32_t>(static_cast<int8_t>(v));
      if (!(f3 & 4) && e.ld_size == 2)
        v = static_cast<uint32_t>(static_cast<int16_t>(v));
      if (v != ad.rd)
        stop("violation", "device_load", 77,
             "pc=%08x load from %08x returned %08x, expected %08x", e.pc,
             e.ld_pa, ad.rd, v);
    }
  }
  if (e.sc_free && !e.sc_ok && d.store)
    stop("violation", "sc", 77, "failed store-conditional reports a store");

  // A certain, enabled interrupt must be taken soon.
  if (iss.irq_takeable(must)) {
    r->irq_wait++;
    c.irq_wait_max = std::max(c.irq_wait_max, r->irq_wait);
    if (r->irq_wait > 200)
      stop("violation", "irq_lost", 77,
           "pc=%08x interrupt pending and enabled for %llu commits: %03x",
           e.pc, (unsigned long long)r->irq_wait, iss.irq_takeable(must));
  } else {
    r->irq_wait = 0;
  }

  note_commit(r, e.pc, e.inst);
  count(r);
  count_stat(r);
  if (e.kind == Kind::Wfi)
    r->last_wfi = true;
  remember_store(r);
  r->rep_store = e.store;
  if (e.store) {
    r->rep_st_addr = e.st_pa;
    r->rep_st_data = e.st_data << ((e.st_pa & 3) * 8);
  }
  if (e.store && e.mmio && vp::DevModel::modeled(e.st_pa)) {
    const vp::Effect sv = iss.e;
    iss.s = iss.n;
    if (sv.st_pa == vp::DevModel::UART)
      console.push_back(static_cast<uint8_t>(sv.st_data));
    r->dev.store(sv.st_pa, sv.st_data, sv.st_size, now);
  } else if (bus_dev && e.store) {
    iss.s = iss.n;
  } else {
    iss.apply();
  }
  if (iss.e.kind == Kind::Ebreak)
    r->sim_end = true;
}

// A checkpoint has to be restored to the state the program had after `ckpt_n`
// instructions; computed here from the image.
void verify_restore(RefCpuContext *r) {
  if (!r->restored || r->verified)
    return;
  r->verified = true;
  const auto it = opts.find("ckpt_img");
  if (it == opts.end())
    return;
  std::vector<uint8_t> img;
  if (std::FILE *f = std::fopen(it->second.c_str(), "rb")) {
    uint8_t b[4096];
    size_t k;
    while ((k = std::fread(b, 1, sizeof b, f)) > 0)
      img.insert(img.end(), b, b + k);
    std::fclose(f);
  }
  vp::Iss &t = *new vp::Iss();
  vp::DevModel td;
  vp::boot(t, td, img.data(), img.size());
  const uint64_t n = opt_u("ckpt_n", 0);
  for (uint64_t i = 0; i < n; i++) {
    int ch;
    vp::ref_step(t, td, 0, ch);
    mix(commit_hash, (static_cast<uint64_t>(t.e.pc) << 32) | t.e.inst);
    c.prefix++;
  }
  CPU_state d{};
  std::memcpy(d.gpr, r->iss.s.x, sizeof d.gpr);
  std::memcpy(d.csr, r->iss.s.csr, sizeof d.csr);
  d.pc = r->iss.s.pc;
  Diff df = compare(t.s, d, 0);
  if (t.s.priv != r->iss.s.priv)
    df.set("privilege", t.s.priv, r->iss.s.priv);
  if (t.s.res_valid != r->iss.s.res_valid)
    df.set("reservation", t.s.res_valid, r->iss.s.res_valid);
  if (t.s.res_valid && t.s.res_addr != r->iss.s.res_addr)
    df.set("reservation", t.s.res_addr, r->iss.s.res_addr);
  if (df.bad)
    stop("violation", "restore", 77,
         "restored state differs after %llu instructions: %s expected %08x got "
         "%08x", (unsigned long long)n, df.what, df.want, df.got);
  for (size_t o = 0; o < vp::RAM_HI - vp::RAM_LO; o += 4096)
    if (std::memcmp(t.ram + o, r->iss.ram + o, 4096) != 0)
      for (size_t k = o; k < o + 4096; k++)
        if (t.ram[k] != r->iss.ram[k])
          stop("violation", "restore", 77,
               "restored memory byte %08x is %02x, expected %02x",
               static_cast<uint32_t>(vp::RAM_LO + k), r->iss.ram[k], t.ram[k]);
  const uint32_t io[4][2] = {{0, 0x2000},
                             {vp::DevModel::UART, vp::DevModel::UART_SZ},
                             {vp::DevModel::PLIC, vp::DevModel::PLIC_SZ},
                             {vp::DevModel::TIMER, vp::DevModel::TIMER_SZ}};
  for (const auto &x : io)
    for (uint32_t a = x[0]; a < x[0] + x[1]; a += 4)
      if (td.word(a, 0) != r->dev.word(a, 0))
        stop("violation", "restore", 77,
             "restored device word %08x is %08x, expected %08x", a,
             r->dev.word(a, 0), td.word(a, 0));
  c.restores++;
  r->iss.s.res_dirty = t.s.res_dirty;
}

// load=<file>: before anything runs, memory holds the file and zeros. Both the
// core's memory and what the reference was given are compared.
const uint8_t *dut_ram = nullptr;
uint64_t loads_seen = 0;
void verify_load() {
  static bool done = false;
  if (done)
    return;
  done = true;
  const auto it = opts.find("load");
  if (it == opts.end())
    return;
  std::FILE *f = std::fopen(it->second.c_str(), "rb");
  if (!f || !dut_ram || !ctx)
    stop("violation", "load", 77, "memory was not set up before the run");
  static uint8_t b[1 << 16], zero[1 << 16];
  uint64_t at = 0, k;
  const uint64_t ram = vp::RAM_HI - vp::RAM_LO;
  do {
    k = std::fread(b, 1, sizeof b, f);
    std::memset(b + k, 0, sizeof b - k);
    for (const uint8_t *m : {dut_ram, static_cast<const uint8_t *>(ctx->iss.ram)})
      if (std::memcmp(m + at, k ? b : zero, sizeof b) != 0)
        for (size_t i = 0; i < sizeof b; i++)
          if (m[at + i] != b[i])
            stop("violation", "load", 77, "%s holds %02x at %08llx, the image has %02x",
                 m == dut_ram ? "memory" : "reference memory", m[at + i],
                 (unsigned long long)(at + i + vp::RAM_LO), b[i]);
    loads_seen += k;
    at += sizeof b;
  } while (at < ram);
  std::fclose(f);
  extra.emplace_back("loaded_bytes", loads_seen);
  extra.emplace_back("memory_compared", at);
}

// Stand-alone execution (fast-forward, checkpoint pre-warm, ref mode).
void ref_exec(RefCpuContext *r) {
  vp::Iss &iss = r->iss;
  int ch;
  const bool ran = vp::ref_step(iss, r->dev, static_cast<uint64_t>(sim_time), ch);
  r->last_ref_inst = ran ? iss.e.inst : 0;
  c.prefix++;
  mix(commit_hash, (static_cast<uint64_t>(iss.e.pc) << 32) | iss.e.inst);
  if (ran && iss.e.undef)
    stop("undef", "undef", 78, "pc=%08x inst=%08x: %s", iss.e.pc, iss.e.inst,
         iss.e.undef);
  if (ch >= 0 && r->uart_print) {
    console.push_back(static_cast<uint8_t>(ch));
    c.console_pre++;
    std::putchar(ch);
    std::fflush(stdout);
  }
  if (ran && (iss.e.kind == Kind::Ebreak ||
              (iss.e.kind == Kind::Wfi && r->ref_only)))
    r->sim_end = true;
}

void at_exit() {
  if (finished || !active || diverged)
    return;
  finished = true;
  write_result("end", "", "");
}

struct AtEnd {
  ~AtEnd() { at_exit(); }
};
AtEnd at_end;

// ---- fault injection for the checker property ------------------------------
// inj=<seed>: at random commits the process forks and the copy reports, for
// this one comparison, a reference state that differs in one item. The copy has
// to end with a failing status before the next commit, or has to go on if the
// item is one the core may see differently.
struct Fault {
  enum Item { PC, INST, PFI, PFL, PFS, GPR, CSR, STADDR, STDATA, STLOST, STNEW } item;
  int idx, bit;
};
const char *const fault_names[] = {"pc", "inst", "fetch_fault", "load_fault", "store_fault",
                                   "gpr", "csr", "store_addr", "store_data",
                                   "store_by_core_only", "store_by_ref_only"};
uint64_t inj_rng = 0;
uint64_t inj_next() {
  inj_rng = inj_rng * 6364136223846793005ull + 1442695040888963407ull;
  return inj_rng >> 33;
}
std::vector<Fault> plan_any, plan_store, plan_nostore;
void refill(std::vector<Fault> &v, int which) {
  auto put = [&](Fault::Item i, int n, int bits) {
    for (int a = 0; a < n; a++)
      for (int b = 0; b < bits; b++)
        v.push_back(Fault{i, a, b});
  };
  if (which == 0) {
    put(Fault::PC, 1, 32);
    put(Fault::INST, 1, 32);
    put(Fault::PFI, 12, 1);
    put(Fault::PFL, 12, 1);
    put(Fault::PFS, 12, 1);
    put(Fault::GPR, 32, 32);
    put(Fault::CSR, 21, 32);
  } else if (which == 1) {
    put(Fault::STADDR, 1, 32);
    put(Fault::STDATA, 1, 32);
    put(Fault::STLOST, 12, 1);
  } else {
    put(Fault::STNEW, 1, 1);
  }
  for (size_t i = v.size(); i > 1; i--)
    std::swap(v[i - 1], v[inj_next() % i]);
}

void inject_one(RefCpuContext *r, const Fault &f) {
  RefCpuState s;
  RefCpuStepInfo i;
  refcpu_get_state(r, &s);
  refcpu_get_step_info(r, &i);
  bool must_stop = true;
  const uint32_t bit = 1u << f.bit;
  switch (f.item) {
  case Fault::PC: s.pc ^= bit; break;
  case Fault::INST:
    if (i.page_fault_inst)
      return;
    i.instruction ^= bit;
    // the flip must not turn the instruction into or out of one whose
    // interrupt-pending bits count
    break;
  case Fault::PFI: i.page_fault_inst = !i.page_fault_inst; break;
  case Fault::PFL: i.page_fault_load = !i.page_fault_load; break;
  case Fault::PFS: i.page_fault_store = !i.page_fault_store; break;
  case Fault::GPR: s.gpr[f.idx] ^= bit; break;
  case Fault::CSR:
    // the supervisor view of pending bits follows from the machine view
    if (f.idx == vp::C_SIP)
      return;
    if (f.idx == vp::C_MIP) {
      if (r->iss.e.irq_csr)
        return;
      must_stop = !(bit & vp::MIP_DEV);
    }
    s.csr[f.idx] ^= bit;
    break;
  case Fault::STADDR: s.store_addr ^= bit; break;
  case Fault::STDATA: s.store_data ^= bit; break;
  case Fault::STLOST: s.store = false; break;
  case Fault::STNEW: s.store = true; break;
  }
  std::fflush(stdout);
  std::fflush(stderr);
  const pid_t pid = fork();
  if (pid < 0)
    stop("error", "fork", 76, "fork failed");
  if (pid == 0) {
    in_child = true;
    finished = true;
    if (!std::freopen("/dev/null", "w", stdout))
      _exit(96);
    r->inj = s;
    r->inj_info = i;
    r->inj_live = true;
    return;
  }
  int st = 0;
  if (waitpid(pid, &st, 0) != pid)
    stop("error", "fork", 76, "wait failed");
  const bool passed = WIFEXITED(st) && WEXITSTATUS(st) == 99;
  const bool stopped = WIFSIGNALED(st) ? WTERMSIG(st) == SIGABRT
                                       : WEXITSTATUS(st) != 0 && !passed;
  c.inj++;
  inj_items[fault_names[f.item]]++;
  if (passed)
    c.inj_pass++;
  if (stopped)
    c.inj_stop++;
  if (must_stop ? !stopped : !passed)
    stop("violation", "checker", 77,
         "commit %llu pc=%08x inst=%08x: reference differs in %s %d bit %d, the run %s",
         (unsigned long long)c.commits, r->iss.e.pc, r->iss.e.inst,
         fault_names[f.item], f.idx, f.bit,
         passed      ? "went on"
         : !stopped  ? "did not end with a failing status"
                     : "stopped although only a device-dependent value differs");
}

void maybe_inject(RefCpuContext *r) {
  static const uint64_t seed = opt_u("inj", 0), gap = opt_u("inj_gap", 200),
                        each = opt_u("inj_each", 20), max = opt_u("inj_max", 2000);
  static uint64_t at = 0;
  if (!seed || in_child || diverged)
    return;
  if (!at) {
    inj_rng = seed * 2654435761u + 12345;
    at = 1 + inj_next() % gap;
  }
  const bool pf = r->iss.e.pf_inst || r->iss.e.pf_load || r->iss.e.pf_store;
  if (c.inj < max && pf && inj_next() % 8 == 0) {
    for (auto k : {Fault::PFI, Fault::PFL, Fault::PFS})
      if (!in_child)
        inject_one(r, Fault{k, 0, 0});
    if (in_child)
      return;
    inj_items["at_page_fault"]++;
  }
  if (c.commits < at || c.inj >= max)
    return;
  at = c.commits + 1 + inj_next() % gap;
  c.inj_pos++;
  for (uint64_t k = 0; k < each && !in_child; k++) {
    const int which = r->rep_store ? (k & 1 ? 1 : 0) : (k == 0 ? 2 : 0);
    auto &v = which == 0 ? plan_any : which == 1 ? plan_store : plan_nostore;
    if (v.empty())
      refill(v, which);
    const Fault f = v.back();
    v.pop_back();
    inject_one(r, f);
  }
}

} // namespace

// ---- reference-CPU interface -----------------------------------------------
RefCpuContext *refcpu_init(uint32_t pc, uint32_t) {
  auto *r = new RefCpuContext();
  r->iss.reset(pc);
  r->iss.fma = false;
  r->dev.iss = &r->iss;
  if (ctx) {
    r->guide = true;
    return r;
  }
  ctx = r;
  active = true;
  last_commit_time = static_cast<uint64_t>(sim_time);
  return r;
}
void refcpu_destroy(RefCpuContext *r) {
  if (ctx == r)
    ctx = nullptr;
  delete r;
}
void refcpu_get_state(RefCpuContext *r, RefCpuState *s) {
  verify_restore(r);
  if (r->inj_live) {
    *s = r->inj;
    return;
  }
  *s = RefCpuState{};
  std::memcpy(s->gpr, r->iss.s.x, sizeof r->iss.s.x);
  std::memcpy(s->csr, r->iss.s.csr, sizeof s->csr);
  s->pc = r->iss.s.pc;
  s->store = r->rep_store;
  s->store_addr = r->rep_st_addr;
  s->store_data = r->rep_st_data;
  s->instruction = r->iss.e.inst;
  s->page_fault_inst = r->iss.e.pf_inst;
  s->page_fault_load = r->iss.e.pf_load;
  s->page_fault_store = r->iss.e.pf_store;
  s->reserve_valid = r->iss.s.res_valid;
  s->reserve_addr = r->iss.s.res_addr;
  s->privilege = r->iss.s.priv;
}
void refcpu_set_state(RefCpuContext *r, const RefCpuState *s) {
  if (in_child)
    _exit(99);
  if (r->guide || (!r->restored && opt_u("ckpt", 0))) {
    r->restored = !r->guide;
    std::memcpy(r->iss.s.x, s->gpr, sizeof r->iss.s.x);
    std::memcpy(r->iss.s.csr, s->csr, sizeof s->csr);
    r->iss.s.x[0] = 0;
    r->iss.s.pc = s->pc;
    r->iss.s.priv = s->privilege;
    r->iss.s.res_valid = s->reserve_valid;
    r->iss.s.res_dirty = true;
    r->iss.s.res_addr = s->reserve_addr;
    return;
  }
  CPU_state d = dut_cpu;
  std::memcpy(d.gpr, s->gpr, sizeof d.gpr);
  std::memcpy(d.csr, s->csr, sizeof d.csr);
  d.pc = s->pc;
  on_commit(r, d, true, s->privilege);
}
void refcpu_get_step_info(RefCpuContext *r, RefCpuStepInfo *i) {
  if (r->inj_live) {
    *i = r->inj_info;
    return;
  }
  *i = RefCpuStepInfo{};
  const auto &e = r->iss.e;
  i->instruction = r->ref_only ? r->last_ref_inst : e.inst;
  i->page_fault_inst = e.pf_inst;
  i->page_fault_load = e.pf_load;
  i->page_fault_store = e.pf_store;
  i->sim_end = r->sim_end;
  i->is_exception = e.trap || e.kind == Kind::Mret || e.kind == Kind::Sret;
  i->is_csr = e.kind == Kind::Csr;
  i->is_io = e.mmio;
  i->is_br = e.kind == Kind::Branch || e.kind == Kind::Jal ||
             e.kind == Kind::Jalr;
  i->br_taken = e.taken;
}
void refcpu_clear_io_words(RefCpuContext *r) { r->iss.io.clear(); }
void refcpu_set_io_word(RefCpuContext *r, uint32_t a, uint32_t d) {
  r->dev.iss = &r->iss;
  r->dev.set_word(a, d, static_cast<uint64_t>(sim_time));
}
uint32_t refcpu_get_io_word(RefCpuContext *r, uint32_t a) {
  return r->dev.word(a, static_cast<uint64_t>(sim_time));
}
uint32_t refcpu_load_word(RefCpuContext *r, uint32_t a) {
  return r->iss.rd32(a);
}
void refcpu_set_device_effects(RefCpuContext *r, bool e) {
  r->device_effects = e;
}
void refcpu_sync_ram_from_dut(RefCpuContext *r, const uint32_t *ram, size_t n) {
  // Only copy pages that are not zero, to keep the footprint small.
  const uint8_t *src = reinterpret_cast<const uint8_t *>(ram);
  dut_ram = src;
  static const uint8_t zero[4096] = {};
  for (size_t o = 0; o < n; o += 4096) {
    const size_t k = std::min<size_t>(4096, n - o);
    if (std::memcmp(src + o, zero, k) != 0)
      std::memcpy(r->iss.ram + o, src + o, k);
  }
}
void refcpu_sync_ram_range_from_dut(RefCpuContext *r, uint32_t pa,
                                    const uint8_t *d, size_t n) {
  // Copy engine: source content must be what the program put there.
  if (opt_u("free", 0))
    return;
  r->dev.dma_seen++;
  if (pa < vp::RAM_LO || static_cast<uint64_t>(pa) + n > vp::RAM_HI)
    stop("violation", "dma_range", 77, "copy outside memory");
  const uint32_t src = r->dev.dsrc;
  if (pa != r->dev.ddst || n != r->dev.dlen)
    stop("violation", "dma_range", 77,
         "copy engine wrote %08x+%zu, programmed %08x+%u", pa, n, r->dev.ddst,
         r->dev.dlen);
  if (std::memcmp(d, r->iss.ram + (src - vp::RAM_LO), n) != 0)
    stop("violation", "dma_data", 77,
         "copy engine data differs from source %08x+%zu", src, n);
}
bool refcpu_probe_pc_translation(RefCpuContext *) { return true; }
uint32_t *refcpu_get_ram_ptr(RefCpuContext *r) {
  return reinterpret_cast<uint32_t *>(r->iss.ram);
}
void refcpu_set_dut_expected_faults(RefCpuContext *r, bool i, bool l, bool s) {
  r->exp_i = i;
  r->exp_l = l;
  r->exp_s = s;
}
void refcpu_set_sim_time(RefCpuContext *r, uint64_t t) { r->now = t; }
void refcpu_step(RefCpuContext *r, uint64_t n) {
  if (in_child)
    _exit(99);
  if (r->guide) {
    // May run ahead of the core, so it takes no interrupt and judges nothing.
    int ch;
    while (n--)
      vp::ref_step(r->iss, r->dev, static_cast<uint64_t>(sim_time), ch, false);
    r->sim_end = r->sim_end || r->iss.e.kind == Kind::Ebreak;
    return;
  }
  verify_load();
  verify_restore(r);
  while (n--) {
    if (r->device_effects || r->ref_only)
      ref_exec(r);
    else
      on_commit(r, dut_cpu, false, -1);
  }
  if (!r->device_effects)
    maybe_inject(r);
}
void refcpu_set_uart_print(RefCpuContext *r, bool e) { r->uart_print = e; }
void refcpu_set_ref_only(RefCpuContext *r, bool e) { r->ref_only = e; }
void refcpu_set_sim_end(RefCpuContext *r, bool e) { r->sim_end = e; }

// ---- bus callbacks ----------------------------------------------------------
void vp_on_read(int m, uint32_t addr, uint32_t size, uint32_t id) {
  stat_all.rd_i += m == axi_interconnect::MASTER_ICACHE;
  stat_all.rd_d += m == axi_interconnect::MASTER_DCACHE_R;
  mix(bus_hash, static_cast<uint64_t>(sim_time));
  mix(bus_hash, (static_cast<uint64_t>(addr) << 32) | (size << 16) |
                    static_cast<uint32_t>(m << 8) | id);
}
void vp_on_read_data(int, uint32_t, uint32_t, const uint32_t *) {}

void vp_on_write(int m, uint32_t addr, uint32_t size, uint64_t strb,
                 const uint32_t *w) {
  mix(bus_hash, static_cast<uint64_t>(sim_time) + 7);
  mix(bus_hash, (static_cast<uint64_t>(addr) << 32) | size);
  mix(bus_hash, strb);
  for (uint32_t i = 0; i * 4 < size; i++)
    mix(bus_hash, w[i]);
  if (m != axi_interconnect::MASTER_DCACHE_W || !ctx || c.commits == 0 ||
      opt_u("nowb", 0) || opt_u("free", 0))
    return;
  // A written-back line holds only values committed stores put there.
  c.wb_lines++;
  if (!vp::Iss::in_ram(addr))
    stop("violation", "wb_addr", 77, "cache line written back to %08x", addr);
  const uint8_t *b = reinterpret_cast<const uint8_t *>(w);
  for (uint32_t i = 0; i < size && i < 64; i++) {
    if (!(strb >> i & 1))
      continue;
    const uint32_t a = (addr & ~3u) + i;
    c.wb_bytes++;
    if (b[i] == ctx->iss.ram[a - vp::RAM_LO])
      continue;
    bool ok = false;
    auto it = hist.find(a & ~63u);
    if (it != hist.end())
      for (const auto &o : it->second.v)
        if (o.off == (a & 63) && o.val == b[i])
          ok = true;
    if (!ok)
      stop("violation", "wb_data", 77,
           "line %08x written back with byte %08x=%02x, committed value %02x",
           addr, a, b[i], ctx->iss.ram[a - vp::RAM_LO]);
  }
}

void vp_violation(const char *key, const char *detail) {
  stop("violation", key, 77, "%s", detail);
}

uint32_t vp_device_read(uint32_t addr, uint32_t size) {
  const uint32_t v = bus_device.read(addr, static_cast<int>(size));
  dev_seen.push_back({false, addr, size, v});
  match_device();
  return v;
}
void vp_device_write(uint32_t addr, uint32_t size, uint64_t strb,
                     uint32_t data) {
  if (strb != (1ull << size) - 1)
    stop("violation", "device_access", 77,
         "bus device write to %08x size %u with byte enables %llx", addr, size,
         (unsigned long long)strb);
  data &= vp::BusDev::mask(static_cast<int>(size));
  bus_device.write(addr, data, static_cast<int>(size));
  dev_seen.push_back({true, addr, size, data});
  match_device();
}

// A simulator that never comes back from one cycle is stuck as well. Measured
// in processor time, so that a busy machine cannot cause it.
namespace {
volatile uint64_t ticks = 0;
void same_cycle(int) {
  static uint64_t seen = 0;
  static int times = 0;
  times = ticks == seen ? times + 1 : 0;
  seen = ticks;
  if (times == 8 && !finished)
    stop("violation", "hang", 79,
         "the simulator computes cycle %lld for ever", sim_time);
}
void watch_cycles() {
  std::signal(SIGVTALRM, same_cycle);
  itimerval t = {{3, 0}, {3, 0}};
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
} // namespace

void vp_on_tick() {
  if (in_child)
    _exit(99);
  if (!ticks)
    watch_cycles();
  ticks = ticks + 1;
  static uint64_t hang = opt_u("hang", 30000);
  verify_load();
  static bool mark = opt_u("mark", 0) != 0;
  if (mark) {
    mark = false;
    std::fprintf(stderr, "\n[VP] first cycle\n");
  }
  static uint64_t most = opt_u("max_cycles", 0);
  if (most && static_cast<uint64_t>(sim_time) > most) {
    // the program may run for ever; end it the way an interrupted run ends
    most = 0;
    std::raise(SIGINT);
  }
  if (ctx && active &&
      static_cast<uint64_t>(sim_time) > last_commit_time + hang &&
      !ctx->device_effects)
    stop("violation", "hang", 79, "no commit for %llu cycles at cycle %lld",
         (unsigned long long)hang, sim_time);
  static long long at = -1;
  if (sim_time != at) {
    at = sim_time;
    stat_all.cycles++;
  }
  vp_cycle_hook();
}
