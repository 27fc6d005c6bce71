// refcpu_api implemented over the in-tree RefCpu (diff/ref.cpp).
#include "refcpu_api.h"
#include "Csr.h"
#include "ref.h"
#include <cstdlib>
#include <cstring>

extern long long sim_time;

struct RefCpuContext {
  RefCpu cpu;
  bool device_effects = true;
};

RefCpuContext *refcpu_init(uint32_t pc, uint32_t) {
  auto *c = new RefCpuContext();
  c->cpu.init(pc);
  return c;
}
void refcpu_destroy(RefCpuContext *c) {
  std::free(c->cpu.memory);
  delete c;
}
void refcpu_get_state(RefCpuContext *c, RefCpuState *s) {
  const CPU_state &st = c->cpu.state;
  *s = RefCpuState{};
  std::memcpy(s->gpr, st.gpr, sizeof(s->gpr));
  std::memcpy(s->csr, st.csr, sizeof(s->csr));
  s->pc = st.pc;
  s->store_addr = st.store_addr;
  s->store_data = st.store_data;
  s->store_strb = st.store_strb;
  s->store = st.store;
  s->instruction = c->cpu.Instruction;
  s->page_fault_inst = c->cpu.page_fault_inst;
  s->page_fault_load = c->cpu.page_fault_load;
  s->page_fault_store = c->cpu.page_fault_store;
  s->reserve_valid = st.reserve_valid;
  s->reserve_addr = st.reserve_addr;
  s->privilege = c->cpu.privilege;
}
void refcpu_set_state(RefCpuContext *c, const RefCpuState *s) {
  CPU_state &st = c->cpu.state;
  std::memcpy(st.gpr, s->gpr, sizeof(s->gpr));
  std::memcpy(st.csr, s->csr, sizeof(s->csr));
  st.pc = s->pc;
  st.reserve_valid = s->reserve_valid;
  st.reserve_addr = s->reserve_addr;
  c->cpu.privilege = s->privilege;
  if (s->store && s->store_addr >= 0x80000000u && s->store_addr < 0xC0000000u) {
    // nothing: RAM stores that are synced are replayed by the DUT itself
  }
}
void refcpu_get_step_info(RefCpuContext *c, RefCpuStepInfo *i) {
  *i = RefCpuStepInfo{};
  i->instruction = c->cpu.Instruction;
  i->page_fault_inst = c->cpu.page_fault_inst;
  i->page_fault_load = c->cpu.page_fault_load;
  i->page_fault_store = c->cpu.page_fault_store;
  i->sim_end = c->cpu.sim_end;
  i->is_exception = c->cpu.is_exception;
  i->is_csr = c->cpu.is_csr;
  i->is_io = c->cpu.is_mmio_load || c->cpu.is_mmio_store;
  i->is_br = c->cpu.is_br;
  i->br_taken = c->cpu.br_taken;
}
void refcpu_clear_io_words(RefCpuContext *c) { c->cpu.io_words.clear(); }
void refcpu_set_io_word(RefCpuContext *c, uint32_t a, uint32_t d) {
  c->cpu.store_word(a, d);
}
uint32_t refcpu_get_io_word(RefCpuContext *c, uint32_t a) {
  return c->cpu.load_word(a);
}
uint32_t refcpu_load_word(RefCpuContext *c, uint32_t a) {
  return c->cpu.load_word(a & ~3u);
}
void refcpu_set_device_effects(RefCpuContext *c, bool e) {
  c->device_effects = e;
}
void refcpu_sync_ram_from_dut(RefCpuContext *c, const uint32_t *r, size_t n) {
  std::memcpy(c->cpu.memory, r, n);
}
void refcpu_sync_ram_range_from_dut(RefCpuContext *c, uint32_t p,
                                    const uint8_t *d, size_t n) {
  std::memcpy(reinterpret_cast<uint8_t *>(c->cpu.memory) + (p - 0x80000000u), d,
              n);
}
bool refcpu_probe_pc_translation(RefCpuContext *) { return true; }
uint32_t *refcpu_get_ram_ptr(RefCpuContext *c) { return c->cpu.memory; }
void refcpu_set_dut_expected_faults(RefCpuContext *c, bool i, bool l, bool s) {
  c->cpu.dut_expect_pf_inst = i;
  c->cpu.dut_expect_pf_load = l;
  c->cpu.dut_expect_pf_store = s;
}
void refcpu_set_sim_time(RefCpuContext *, uint64_t) {}
void refcpu_step(RefCpuContext *c, uint64_t n) {
  while (n--) {
    c->cpu.exec();
  }
}
void refcpu_set_uart_print(RefCpuContext *c, bool e) { c->cpu.uart_print = e; }
void refcpu_set_ref_only(RefCpuContext *c, bool e) { c->cpu.ref_only = e; }
void refcpu_set_sim_end(RefCpuContext *c, bool e) { c->cpu.sim_end = e; }
