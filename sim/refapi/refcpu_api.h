#pragma once
// Stand-in for the reference-CPU library the simulator links against
// (GenSimpoint submodule, absent here). Same call surface; the implementation
// is the independent architectural model in ../src/model.*.
#include <cstddef>
#include <cstdint>

struct RefCpuContext;

struct RefCpuState {
  uint32_t gpr[32];
  uint32_t csr[21];
  uint32_t pc;
  uint32_t store_addr;
  uint32_t store_data;
  uint32_t store_strb;
  bool store;
  uint32_t instruction;
  bool page_fault_inst;
  bool page_fault_load;
  bool page_fault_store;
  uint32_t inst_idx;
  uint32_t commit_pc;
  bool reserve_valid;
  uint32_t reserve_addr;
  uint8_t privilege;
};

struct RefCpuStepInfo {
  uint32_t instruction;
  bool page_fault_inst;
  bool page_fault_load;
  bool page_fault_store;
  bool sim_end;
  bool is_exception;
  bool is_csr;
  bool is_io;
  bool is_br;
  bool br_taken;
};

RefCpuContext *refcpu_init(uint32_t reset_pc, uint32_t ram_size);
void refcpu_destroy(RefCpuContext *ctx);
void refcpu_get_state(RefCpuContext *ctx, RefCpuState *out);
void refcpu_set_state(RefCpuContext *ctx, const RefCpuState *in);
void refcpu_get_step_info(RefCpuContext *ctx, RefCpuStepInfo *out);
void refcpu_clear_io_words(RefCpuContext *ctx);
void refcpu_set_io_word(RefCpuContext *ctx, uint32_t addr, uint32_t data);
uint32_t refcpu_get_io_word(RefCpuContext *ctx, uint32_t addr);
uint32_t refcpu_load_word(RefCpuContext *ctx, uint32_t addr);
void refcpu_set_device_effects(RefCpuContext *ctx, bool enable);
void refcpu_sync_ram_from_dut(RefCpuContext *ctx, const uint32_t *ram,
                              size_t bytes);
void refcpu_sync_ram_range_from_dut(RefCpuContext *ctx, uint32_t paddr,
                                    const uint8_t *src, size_t bytes);
bool refcpu_probe_pc_translation(RefCpuContext *ctx);
uint32_t *refcpu_get_ram_ptr(RefCpuContext *ctx);
void refcpu_set_dut_expected_faults(RefCpuContext *ctx, bool inst, bool load,
                                    bool store);
void refcpu_set_sim_time(RefCpuContext *ctx, uint64_t t);
void refcpu_step(RefCpuContext *ctx, uint64_t n);
void refcpu_set_uart_print(RefCpuContext *ctx, bool enable);
void refcpu_set_ref_only(RefCpuContext *ctx, bool enable);
void refcpu_set_sim_end(RefCpuContext *ctx, bool end);
