#include "refcpu_api.h"
#include "model.h"
#include "monitor.h"
#include <cstdlib>

using namespace vsim;

struct RefCpuContext {
  Model m;
  RefCpuStepInfo info{};
  bool ref_only = false, fresh = true, sim_end = false, print = false;
  uint64_t time = 0;
  bool store = false;
  uint32_t store_addr = 0, store_data = 0, instruction = 0;
  bool pf_i = false, pf_l = false, pf_s = false, irq_csr = false;
};

RefCpuContext *refcpu_init(uint32_t reset_pc, uint32_t) {
  auto *c = new RefCpuContext;
  c->m.alloc();
  c->m.reset(reset_pc);
  mon.active = true;
  mon.model = &c->m;
  return c;
}
void refcpu_destroy(RefCpuContext *c) {
  if (!c) return;
  munmap(c->m.ram, RAM_BYTES);
  delete c;
}
void refcpu_get_state(RefCpuContext *c, RefCpuState *s) {
  *s = RefCpuState{};
  memcpy(s->gpr, c->m.gpr, sizeof s->gpr);
  memcpy(s->csr, c->m.csr, sizeof s->csr);
  if (!c->ref_only && !c->fresh && !c->irq_csr) {
    // The reference keeps its own idea of the device lines.
    s->csr[C_MIP] |= mon.lines();
    s->csr[C_SIP] = s->csr[C_MIP] & 0x333;
  }
  s->pc = c->m.pc;
  s->store = c->store;
  s->store_addr = c->store_addr;
  s->store_data = c->store_data;
  s->instruction = c->instruction;
  s->page_fault_inst = c->pf_i;
  s->page_fault_load = c->pf_l;
  s->page_fault_store = c->pf_s;
  s->reserve_valid = c->m.res_v;
  s->reserve_addr = c->m.res_a;
  s->privilege = c->m.priv;
}
static void fill(RefCpuContext *c, const StepOut &o) {
  c->info = {};
  c->info.instruction = c->instruction = o.inst;
  c->info.page_fault_inst = c->pf_i = o.pf_i;
  c->info.page_fault_load = c->pf_l = o.pf_l;
  c->info.page_fault_store = c->pf_s = o.pf_s;
  c->info.is_exception = o.trap;
  c->info.is_csr = o.is_csr;
  c->irq_csr = o.irq_csr;
  c->info.is_io = o.mmio_load || o.mmio_store;
  c->info.is_br = o.is_branch;
  c->info.br_taken = o.taken;
  if (o.ebreak || (o.wfi && c->ref_only)) c->sim_end = true;
  c->info.sim_end = c->sim_end;
  c->store = o.store && !o.mmio_store;
  if (c->store) {
    c->store_addr = o.st_addr;
    c->store_data = o.st_data << ((o.st_addr & 3) * 8);
  }
}
void refcpu_set_state(RefCpuContext *c, const RefCpuState *s) {
  if (c->fresh || c->ref_only) {
    memcpy(c->m.gpr, s->gpr, sizeof s->gpr);
    memcpy(c->m.csr, s->csr, sizeof s->csr);
    c->m.pc = s->pc;
    c->m.priv = s->privilege;
    c->m.res_v = s->reserve_valid;
    c->m.res_a = s->reserve_addr;
    mon.restored(c->m);
    if (mon.truth) c->m.res_open = mon.truth->res_open;
    return;
  }
  mon.sync_checked(c->m, *s);
}
void refcpu_get_step_info(RefCpuContext *c, RefCpuStepInfo *o) {
  *o = c->info;
  o->sim_end = c->sim_end;
}
void refcpu_clear_io_words(RefCpuContext *c) { c->m.io.clear(); }
void refcpu_set_io_word(RefCpuContext *c, uint32_t a, uint32_t d) {
  if (d) c->m.io[a & ~3u] = d;
  else c->m.io.erase(a & ~3u);
}
uint32_t refcpu_get_io_word(RefCpuContext *c, uint32_t a) {
  auto it = c->m.io.find(a & ~3u);
  return it == c->m.io.end() ? 0 : it->second;
}
uint32_t refcpu_load_word(RefCpuContext *c, uint32_t a) { return c->m.rd_word(a); }
void refcpu_set_device_effects(RefCpuContext *, bool) {}
void refcpu_sync_ram_from_dut(RefCpuContext *c, const uint32_t *ram, size_t n) {
  // Skip all-zero pages so that restoring a mostly empty snapshot stays cheap.
  c->fresh = false;
  if (mon.truth) { mon.ram_restored(c->m, ram, n); return; }
  static const char zero[4096] = {};
  for (size_t o = 0; o < n; o += 4096) {
    size_t k = n - o < 4096 ? n - o : 4096;
    const char *p = (const char *)ram + o;
    if (memcmp(p, zero, k)) memcpy((char *)c->m.ram + o, p, k);
  }
}
void refcpu_sync_ram_range_from_dut(RefCpuContext *, uint32_t, const uint8_t *, size_t) {
  // Device copies are replayed by the model itself (see Monitor::dev_store).
}
bool refcpu_probe_pc_translation(RefCpuContext *c) {
  uint32_t pa;
  return c->m.translate(c->m.pc, 0, pa);
}
uint32_t *refcpu_get_ram_ptr(RefCpuContext *c) { return c->m.ram; }
void refcpu_set_dut_expected_faults(RefCpuContext *, bool, bool, bool) {}
void refcpu_set_sim_time(RefCpuContext *c, uint64_t t) { c->time = t; }
void refcpu_step(RefCpuContext *c, uint64_t n) {
  while (n--) {
    StepOut o;
    if (mon.truth && !mon.cnt["io_restored"]) {
      mon.cnt["io_restored"] = 1;
      for (auto &e : mon.truth->io)
        if (c->m.rd_word(e.first) != e.second)
          mon.fail("restore", "device word %08x restored as %08x, checkpoint holds %08x", e.first, c->m.rd_word(e.first), e.second);
      for (auto &e : c->m.io)
        if (mon.truth->rd_word(e.first) != e.second)
          mon.fail("restore", "device word %08x restored as %08x, checkpoint holds %08x", e.first, e.second, mon.truth->rd_word(e.first));
    }
    if (c->ref_only) {
      mon.ref_step(c->m, o, c->print);
      mon.cnt["ref_steps"]++;
      if (o.store && !o.mmio_store) mon.truth_pages.insert((o.st_addr - RAM_LO) >> 12);
      if (o.ebreak || o.wfi) mon.ended = true;
    } else {
      mon.step_checked(c->m, o);
    }
    fill(c, o);
  }
}
void refcpu_set_uart_print(RefCpuContext *c, bool e) { c->print = e; }
void refcpu_set_ref_only(RefCpuContext *c, bool e) { c->ref_only = e; }
void refcpu_set_sim_end(RefCpuContext *c, bool e) { c->sim_end = e; }
