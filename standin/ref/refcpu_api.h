#pragma once
// Stand-in for the GenSimpoint reference-CPU library interface (the submodule
// is empty in this checkout).
#include "config.h"
#include <cstddef>
#include <cstdint>

struct RefCpuContext;

struct RefCpuState {
  uint32_t gpr[ARF_NUM];
  uint32_t csr[21];
  uint32_t pc;
  uint32_t store_addr;
  uint32_t store_data;
  uint32_t store_strb;
  bool store;
  uint32_t instruction;
  bool page_fault_inst;
  bool page_fault_load;
  bool page_fault_store;
  uint32_t inst_idx;
  uint32_t commit_pc;
  bool reserve_valid;
  uint32_t reserve_addr;
  uint8_t privilege;
};

struct RefCpuStepInfo {
  uint32_t instruction;
  bool page_fault_inst;
  bool page_fault_load;
  bool page_fault_store;
  bool sim_end;
  bool is_exception;
  bool is_csr;
  bool is_io;
  bool is_br;
  bool br_taken;
};

RefCpuContext *refcpu_init(uint32_t pc, uint32_t ram_size);
void refcpu_destroy(RefCpuContext *);
void refcpu_get_state(RefCpuContext *, RefCpuState *);
void refcpu_set_state(RefCpuContext *, const RefCpuState *);
void refcpu_get_step_info(RefCpuContext *, RefCpuStepInfo *);
void refcpu_clear_io_words(RefCpuContext *);
void refcpu_set_io_word(RefCpuContext *, uint32_t addr, uint32_t data);
uint32_t refcpu_get_io_word(RefCpuContext *, uint32_t addr);
uint32_t refcpu_load_word(RefCpuContext *, uint32_t addr);
void refcpu_set_device_effects(RefCpuContext *, bool);
void refcpu_sync_ram_from_dut(RefCpuContext *, const uint32_t *ram, size_t n);
void refcpu_sync_ram_range_from_dut(RefCpuContext *, uint32_t paddr,
                                    const uint8_t *data, size_t n);
bool refcpu_probe_pc_translation(RefCpuContext *);
uint32_t *refcpu_get_ram_ptr(RefCpuContext *);
void refcpu_set_dut_expected_faults(RefCpuContext *, bool inst, bool load,
                                    bool store);
void refcpu_set_sim_time(RefCpuContext *, uint64_t);
void refcpu_step(RefCpuContext *, uint64_t n);
void refcpu_set_uart_print(RefCpuContext *, bool);
void refcpu_set_ref_only(RefCpuContext *, bool);
void refcpu_set_sim_end(RefCpuContext *, bool);
