#include "monitor.h"
#include "refcpu_api.h"
#include "PhysMemory.h"
#include "diff.h" // dut_cpu: the retired-state record the simulator publishes
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <unistd.h>

extern long long sim_time;

namespace vsim {
Monitor mon;

static const char *kCsr[] = {"mtvec", "mepc", "mcause", "mie", "mip", "mtval",
  "mscratch", "mstatus", "mideleg", "medeleg", "sepc", "stvec", "scause",
  "sscratch", "stval", "sstatus", "sie", "sip", "satp", "mhartid", "misa"};

constexpr uint32_t LINE_BITS = 0x880; // externally driven pending bits
constexpr uint64_t IRQ_SLACK = 64;    // cycles a dropped line may linger
constexpr uint32_t READ_AHEAD = 8;
constexpr uint32_t A_UART = 0x10000000, A_PLIC = 0x0c000000, A_CLAIM = 0x0c201004,
                   A_TIM = 0x1fd0e000, A_DMA = 0x1fd0f000;

static bool modelled(uint32_t a) {
  return a - A_UART < 0x100 || a - A_PLIC < 0x210000 || a - A_TIM < 0x100 || a - A_DMA < 0x100;
}

void Monitor::fail(const char *kind, const char *fmt, ...) {
  if (strict_off) { cnt[std::string("would_fail_") + kind]++; return; }
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  emit("violation", kind, buf);
  _exit(3);
}

// Geometry of the first-level caches of the committed configuration.
void Monitor::on_line(bool code, uint32_t addr) {
  const uint32_t sets = code ? 64 : 256, ways = code ? 8 : 4;
  uint32_t line = addr >> 6, set = line % sets, n = ++line_reads[code][line];
  if (n == 1) set_lines[code][set]++;
  cnt[code ? "code_lines" : "data_lines"]++;
  if (set_lines[code][set] > ways) { cnt["lines_of_full_sets"]++; return; }
  // A code line may be asked for again as long as the fetch was given up, so
  // it counts from the first instruction retired from it.
  if (code ? !ran_lines.count(line) : n == 1) return;
  uint32_t again = code ? ++ran_lines[line] : n;
  cnt[code ? "code_refetched" : "data_refetched"]++;
  std::string mx = code ? "max_code_fetches" : "max_data_fetches";
  cnt[mx] = std::max<uint64_t>(cnt[mx], again);
  if (keep && again > (code ? 2 : 1))
    fail("refetch", "%s line %08x was read from memory again (%u) although no more than %u lines of its set were ever used",
         code ? "code" : "data", line << 6, n, set_lines[code][set]);
}

void Monitor::note_commit(uint32_t pc, uint32_t inst) {
  uint64_t now = (uint64_t)sim_time;
  if (!commits && cnt["ref_steps"] != prerun)
    fail("prerun", "the detailed machine starts after %llu instructions of the sequential executor, asked for %llu",
         (unsigned long long)cnt["ref_steps"], (unsigned long long)prerun);
  if (!commits && handed_over)
    for (uint32_t p : truth_pages)
      for (uint32_t a = RAM_LO + (p << 12), i = 0; i < 1024; i++, a += 4)
        if (pmem_read(a) != model->rd_word(a))
          fail("handoff", "at the first instruction of the detailed machine RAM word %08x holds %08x, the sequential executor left %08x",
               a, pmem_read(a), model->rd_word(a));
  if (!commits && handed_over) {
    // A device store retiring first has already reached its word.
    uint32_t own = (inst & 0x7f) == 0x23 ? (model->gpr[inst >> 15 & 31] + (uint32_t)((int32_t)(inst & 0xfe000000) >> 20 | (int32_t)(inst >> 7 & 31))) & ~3u : ~0u;
    for (auto &e : truth ? truth->io : model->io)
      if (((e.first ^ own) & 0xfff) && (truth || (modelled(e.first) && e.first != A_CLAIM)) && pmem_read(e.first) != model->rd_word(e.first))
        fail("handoff", "at the first instruction of the detailed machine device word %08x holds %08x, the sequential executor left %08x",
             e.first, pmem_read(e.first), model->rd_word(e.first));
  }
  if (!ext_done.empty() && commits > ext_done[0].at + READ_AHEAD)
    fail("mmio_spurious", "bus read of device %08x: none of the next %u retired instructions is its load", ext_done[0].addr, READ_AHEAD + 0);
  if (keep) ran_lines.emplace(pc >> 6, 0);
  if (!pass_ends.empty()) {
    auto it = pass_ends.find(pc);
    if (it != pass_ends.end()) it->second.push_back(now);
  }
  if (now != last_commit_cycle || !commits) commits_before = commits;
  recent[commits % 24] = now;
  commits++;
  hash = mix64(hash ^ pc ^ ((uint64_t)inst << 32));
  timed_hash = mix64(timed_hash ^ pc ^ (now << 32));
  last_commit_cycle = now;
  char b[64];
  snprintf(b, sizeof b, "c%llu pc=%08x inst=%08x", (unsigned long long)now, pc, inst);
  tail.push_back(b);
  if (tail.size() > tail_max) tail.pop_front();
}
void Monitor::note_effect(const Model &m, const StepOut &o) {
  char b[64];
  uint32_t rd = o.inst >> 7 & 31;
  auto &t = tail.back();
  if (o.trap) { snprintf(b, sizeof b, " trap %u", o.cause); t += b; return; }
  uint32_t op = o.inst & 0x7f;
  if (op != 0x23 && op != 0x63 && rd) { snprintf(b, sizeof b, " x%u=%08x", rd, m.gpr[rd]); t += b; }
  if (o.load) { snprintf(b, sizeof b, " ld[%08x]", o.ld_addr); t += b; }
  if (o.store) { snprintf(b, sizeof b, " st[%08x]/%u=%08x", o.st_addr, o.st_bytes, o.st_data); t += b; }
}

static std::string diff_state(const Model &m, const uint32_t *g, const uint32_t *c,
                              uint32_t pc, const char *&kind, uint32_t wild_mip = LINE_BITS) {
  char b[160];
  for (int i = 0; i < 32; i++)
    if (m.gpr[i] != g[i]) {
      kind = "gpr";
      snprintf(b, sizeof b, "x%d: machine %08x, model %08x", i, g[i], m.gpr[i]);
      return b;
    }
  for (int i = 0; i < C_NUM; i++) {
    uint32_t k = i == C_MIP ? ~wild_mip : ~0u;
    if ((m.csr[i] ^ c[i]) & k) {
      kind = "csr";
      snprintf(b, sizeof b, "%s: machine %08x, model %08x", kCsr[i], c[i], m.csr[i]);
      return b;
    }
  }
  if (m.pc != pc) {
    kind = "pc";
    snprintf(b, sizeof b, "next pc: machine %08x, model %08x", pc, m.pc);
    return b;
  }
  return "";
}

void Monitor::record_store(Model &m, const StepOut &o) {
  uint32_t a = o.st_addr & ~3u;
  auto &h = hist[a];
  if (h.empty()) h.push_back(o.st_old);
  h.push_back(m.rd_word(a));
}

void Monitor::restored(Model &m) {
  cnt["restores"]++;
  if (!truth) return;
  const char *k = "";
  std::string d = diff_state(m, truth->gpr, truth->csr, truth->pc, k, 0);
  if (!d.empty()) fail("restore", "checkpoint file (as machine) and restored state (as model) differ in %s", d.c_str());
  if (m.priv != truth->priv) fail("restore", "checkpoint holds privilege %d, restored %d", truth->priv, m.priv);
  if (m.res_v != truth->res_v || (m.res_v && m.res_a != truth->res_a))
    fail("restore", "checkpoint holds reservation %d/%08x, restored %d/%08x", truth->res_v, truth->res_a, m.res_v, m.res_a);
}
void Monitor::ram_restored(Model &m, const uint32_t *ram, size_t bytes) {
  static const uint32_t zero[1024] = {};
  for (uint32_t p = 0; p < bytes >> 12; p++) {
    const uint32_t *want = truth_pages.count(p) ? truth->ram + p * 1024 : zero, *got = ram + p * 1024;
    if (!memcmp(got, want, 4096)) continue;
    for (int i = 0; i < 1024; i++)
      if (got[i] != want[i])
        fail("restore", "RAM word %08x restored as %08x, checkpoint holds %08x", RAM_LO + (p << 12) + i * 4, got[i], want[i]);
  }
  if (bytes != RAM_BYTES) fail("restore", "%zu bytes of RAM restored", bytes);
  for (uint32_t p : truth_pages) memcpy(m.ram + p * 1024, truth->ram + p * 1024, 4096);
}

void Monitor::ref_step(Model &m, StepOut &o, bool print) {
  o = StepOut{};
  // Only software-set pending bits: no device runs beside the sequential executor.
  uint32_t mm, ss;
  m.takeable(m.csr[C_MIP] & ~LINE_BITS, mm, ss);
  if (mm | ss) {
    uint32_t w = mm ? mm : ss;
    m.take_interrupt(!mm, w & 0xa00 ? (w & 0x800 ? 11 : 9) : w & 0xa ? (w & 8 ? 3 : 1) : w & 0x80 ? 7 : 5);
    cnt["ref_irqs"]++;
    return;
  }
  uint32_t pa, inst = m.translate(m.pc, 0, pa) ? m.rd_word(pa) : 0;
  if ((inst & 0x7f) == 0x03) {
    uint32_t f3 = inst >> 12 & 7;
    if (m.translate(m.gpr[inst >> 15 & 31] + (uint32_t)((int32_t)inst >> 20), 1, pa) && !in_ram(pa)) {
      uint32_t v = m.rd_mem(pa, f3 & 3 ? (f3 & 3) == 1 ? 2 : 4 : 1);
      m.mmio_value = f3 == 0 ? (uint32_t)(int32_t)(int8_t)v : f3 == 1 ? (uint32_t)(int32_t)(int16_t)v : v;
    }
  }
  o = m.step();
  if (o.mmio_store) {
    m.wr_mem(o.st_addr, o.st_data, o.st_bytes);
    if (o.st_addr == A_UART) {
      m.wr_word(A_UART, m.rd_word(A_UART) & 0xffffff00u);
      if (print) std::cout << (char)o.st_data << std::flush;
      if (!truth) uart_expect.push_back((char)o.st_data); // a checkpoint's pre-run is silent
    }
  }
}

void Monitor::count(uint32_t inst, bool fuzzy) {
  uint32_t op = inst & 0x7f, fn = inst >> 27;
  Tally &t = tally;
  t.total++;
  if (fuzzy) t.fuzzy++;
  else {
    if (op == 0x03 || (op == 0x2f && fn != 3)) t.loads++;
    if (op == 0x23 || (op == 0x2f && fn != 2)) t.stores++;
    if (op == 0x63) t.cond++;
    if (op == 0x67) {
      uint32_t rd = inst >> 7 & 31, rs = inst >> 15 & 31;
      if (rd == 0 && rs == 1 && inst >> 20 == 0) t.ret++;
      else t.jalr++, t.odd += rs == 1 || rs == 5; // may be called a return or not
    }
  }
  if (t.total == mark_at) { mark = t; mark.cycle = (uint64_t)sim_time; mark.devld = cnt["mmio_loads"]; mark.devst = cnt["mmio_stores"]; mark.lines = axi_env().txns[1]; mark.wbs = axi_env().txns[3]; }
}

void Monitor::post_state(Model &m, const StepOut &o) {
  if (o.trap) cnt["trap_" + std::to_string(o.cause)]++;
  if (o.load) cnt["loads"]++;
  if (o.store) cnt["stores"]++;
  if (o.is_branch) cnt["branches"]++;
  if (o.is_amo) cnt["amos"]++;
  if (o.is_fp) cnt["fp_ops"]++;
  if (o.sc) cnt[o.sc_ok ? "sc_ok" : "sc_fail"]++;
  if (o.sfence) cnt["sfences"]++;
  if (o.fencei) { cnt["fenceis"]++; line_reads[1].clear(); set_lines[1].clear(); ran_lines.clear(); }
  if (o.is_csr) cnt["csrs"]++;
  if (o.xret) cnt["xrets"]++;
  if (m.priv == 0) cnt["commits_u"]++;
  else if (m.priv == 1) cnt["commits_s"]++;
  if (m.priv != 3 && (m.csr[C_SATP] >> 31)) cnt["commits_paged"]++;
  // Interrupt progress: something takeable must not be ignored for ever.
  uint32_t pend = (m.csr[C_MIP] & ~LINE_BITS) | (mtip_now ? 0x80 : 0) | (meip_now ? 0x800 : 0);
  uint32_t mm, ss;
  m.takeable(pend, mm, ss);
  if (mm | ss) {
    if (++irq_wait_commits > irq_commit_limit)
      fail("irq_lost", "interrupt pending and enabled (M %03x S %03x) for %llu retired instructions, pc=%08x",
           mm, ss, (unsigned long long)irq_wait_commits, m.pc);
  } else irq_wait_commits = 0;
  if (o.ebreak || o.wfi) { ended = true; end_commits = commits; }
}

void Monitor::step_checked(Model &m, StepOut &o) {
  if (ended) fail("after_end", "instruction retired after the program ended, pc=%08x", dut_cpu.commit_pc);
  if (injected) fail("missed", "a divergence of kind %s injected at retired instruction %llu was not reported",
                     inject_kind.c_str(), (unsigned long long)inject_at);
  note_commit(dut_cpu.commit_pc, dut_cpu.instruction);
  if (m.pc != dut_cpu.commit_pc)
    fail("order", "retired pc=%08x but program order requires pc=%08x", dut_cpu.commit_pc, m.pc);
  m.sc_hint = dut_cpu.store ? 1 : 0;
  o = m.step();
  m.sc_hint = -1;
  note_effect(m, o);
  count(o.inst, o.pf_i);
  if (!o.pf_i && !dut_cpu.page_fault_inst && o.inst != dut_cpu.instruction)
    fail("inst", "pc=%08x executed %08x, memory holds %08x", dut_cpu.commit_pc, dut_cpu.instruction, o.inst);
  if (o.sc && dut_cpu.store && !o.sc_may)
    fail("sc", "pc=%08x store-conditional succeeded without a reservation of that word", dut_cpu.commit_pc);
  if (o.sc && !dut_cpu.store && o.sc_must)
    fail("sc", "pc=%08x store-conditional failed right after its load-reserved", dut_cpu.commit_pc);
  if (o.sc && o.sc_may && !o.sc_must) cnt[o.sc_ok ? "sc_open_ok" : "sc_open_fail"]++;
  if (o.mmio_load || o.mmio_store)
    fail("mmio_missed", "device access at %08x retired as an ordinary memory access, pc=%08x",
         o.mmio_load ? o.ld_addr : o.st_addr, dut_cpu.commit_pc);
  if (o.pf_i != dut_cpu.page_fault_inst || o.pf_l != dut_cpu.page_fault_load || o.pf_s != dut_cpu.page_fault_store)
    fail("fault_flag", "pc=%08x page faults (fetch,load,store): machine %d%d%d, model %d%d%d",
         dut_cpu.commit_pc, dut_cpu.page_fault_inst, dut_cpu.page_fault_load,
         dut_cpu.page_fault_store, o.pf_i, o.pf_l, o.pf_s);
  bool st = o.store;
  if (st != dut_cpu.store)
    fail("store", "pc=%08x store performed: machine %d, model %d", dut_cpu.commit_pc, (int)dut_cpu.store, (int)st);
  if (st) {
    uint32_t d = o.st_data << ((o.st_addr & 3) * 8);
    if (dut_cpu.store_addr != o.st_addr || dut_cpu.store_data != d)
      fail("store", "pc=%08x store machine [%08x]=%08x, model [%08x]=%08x", dut_cpu.commit_pc,
           dut_cpu.store_addr, dut_cpu.store_data, o.st_addr, d);
    record_store(m, o);
  }
  if (o.ebreak || o.wfi) {
    // Execution stops here; where the machine would go next is unspecified.
    const char *k = "";
    std::string d = diff_state(m, dut_cpu.gpr, dut_cpu.csr, m.pc, k);
    if (!d.empty()) fail(k, "at end, pc=%08x %s", dut_cpu.commit_pc, d.c_str());
  } else {
    const char *k = "";
    std::string d = diff_state(m, dut_cpu.gpr, dut_cpu.csr, dut_cpu.pc, k);
    if (!d.empty())
      fail(k, "pc=%08x inst=%08x %s%s", dut_cpu.commit_pc, o.inst, o.trap ? "(trap) " : "", d.c_str());
  }
  post_state(m, o);
  if (inject && !injected && commits >= inject_at && !o.ebreak && !o.wfi) {
    bool done = true;
    uint32_t rd = o.inst >> 7 & 31, op = o.inst & 0x7f;
    if (inject_kind == "gpr") m.gpr[1 + inject_a % 31] ^= 1u << (inject_b & 31);
    else if (inject_kind == "rd") { // the result of an instruction of one class
      static const uint8_t ops[] = {0x03, 0x2f, 0x73, 0x53, 0x6f, 0x67, 0x33, 0x13, 0x37, 0x17};
      if (op == ops[inject_a % 10] && rd && !o.trap) m.gpr[rd] ^= 1u << (inject_b & 31);
      else done = false;
    } else if (inject_kind == "trap") { // what entering or leaving a trap changes
      static const int slots[] = {C_MEPC, C_MCAUSE, C_MTVAL, C_MSTATUS, C_SEPC, C_SCAUSE, C_STVAL, C_SSTATUS};
      if (!o.trap && !o.xret) done = false;
      else if (inject_a % 9 == 8) m.pc ^= 4u << (inject_b % 29);
      else m.csr[slots[inject_a % 9]] ^= 1u << (inject_b & 31);
    } else if (inject_kind == "brpc") {
      if (o.is_branch) m.pc ^= 4u << (inject_b % 29);
      else done = false;
    } else if (inject_kind == "csr") {
      static const int slots[] = {C_MTVEC, C_MEPC, C_MCAUSE, C_MIE, C_MTVAL, C_MSCRATCH, C_MSTATUS,
        C_MIDELEG, C_MEDELEG, C_SEPC, C_STVEC, C_SCAUSE, C_SSCRATCH, C_STVAL, C_SATP, C_SSTATUS, C_SIE, C_MHARTID, C_MISA, C_MIP};
      int k = slots[inject_a % 20];
      static const uint8_t soft[] = {1, 3, 5, 9}; // the rest follow the device lines
      m.csr[k] ^= 1u << (k == C_MIP ? soft[inject_b & 3] : inject_b & 31);
    } else if (inject_kind == "pc") m.pc ^= 4u << (inject_b % 29);
    else if (inject_kind == "inst") o.inst ^= 1u << (inject_b & 31);
    else if (inject_kind == "sdata") { if (o.store) o.st_data ^= 1u << (inject_b % 8); else done = false; }
    else if (inject_kind == "saddr") { if (o.store) o.st_addr ^= 4u << (inject_b % 20); else done = false; }
    else if (inject_kind == "nostore") { if (!o.store && (o.inst & 0x7f) != 0x23) { o.store = true; o.st_addr = 0x80000000u; } else done = false; }
    else if (inject_kind == "pf_l") o.pf_l = !o.pf_l;
    else if (inject_kind == "pf_s") o.pf_s = !o.pf_s;
    else if (inject_kind == "pf_i") o.pf_i = !o.pf_i;
    if (o.pf_i && inject_kind == "inst") done = false;
    if (done) { injected = true; cnt["injected"]++; }
  }
}

uint32_t Monitor::dev_load(uint32_t pa, uint32_t bytes, uint32_t f3, uint32_t got, bool &wild, std::string &why) {
  wild = false;
  uint64_t now = (uint64_t)sim_time;
  if (pa == A_TIM || pa == A_TIM + 4) {
    // The read happens once everything older is certain to retire: when at
    // most one retirement group is before it, and not after its own.
    uint64_t from = dev.off + (commits > COMMIT_WIDTH + 1 ? recent[(commits - 2 - COMMIT_WIDTH) % 24] : 0) - 4;
    const int sh = pa == A_TIM ? 0 : 32;
    uint32_t lo = (uint32_t)(from >> sh), hi = (uint32_t)((dev.off + now) >> sh);
    wild = true;
    if (got - lo > hi - lo) {
      char b[128];
      snprintf(b, sizeof b, "timer read %08x outside [%08x,%08x]", got, lo, hi);
      why = b;
    }
    return got;
  }
  if (pa == A_TIM + 8) return (uint32_t)dev.cmp;
  if (pa == A_TIM + 12) return (uint32_t)(dev.cmp >> 32);
  if (pa == A_DMA) return dev.dsrc;
  if (pa == A_DMA + 4) return dev.ddst;
  if (pa == A_DMA + 8) return dev.dlen;
  if (pa == A_DMA + 12) return dev.dctrl;
  if (pa == A_DMA + 16) {
    // A completed copy is in memory (the engine is not coherent with the data
    // cache, so loads of the program cannot tell).
    if (dev.dstat & 2)
      for (uint64_t a = (dev.ddst & ~3u) - 16; a < (uint64_t)dev.ddst + dev.dlen + 16; a += 4)
        if (a - RAM_LO < RAM_BYTES && pmem_read(a) != model->rd_word(a))
          fail("dma", "after the copy of %u bytes from %08x to %08x memory word %08x holds %08x instead of %08x", dev.dlen, dev.dsrc, dev.ddst, (uint32_t)a, pmem_read(a), model->rd_word(a));
    return dev.dstat;
  }
  (void)bytes; (void)f3;
  wild = true; // caller resolves from the device word
  why = "word";
  return 0;
}

void Monitor::dev_store(Model &m, uint32_t pa, uint32_t data, uint32_t bytes) {
  uint64_t now = (uint64_t)sim_time;
  cnt["mmio_stores"]++;
  auto claim = [&] { m.wr_word(A_CLAIM, dev.dma_irq ? 11 : dev.uart_irq ? 10 : 0); };
  if (pa == A_TIM || pa == A_TIM + 4) {
    uint64_t t = now + dev.off;
    t = pa == A_TIM ? (t & ~0xffffffffull) | data : (t & 0xffffffffull) | (uint64_t)data << 32;
    dev.off = t - now;
    return;
  }
  if (pa == A_TIM + 8) { dev.cmp = (dev.cmp & ~0xffffffffull) | data; return; }
  if (pa == A_TIM + 12) { dev.cmp = (dev.cmp & 0xffffffffull) | (uint64_t)data << 32; return; }
  if (pa == A_DMA) { dev.dsrc = data; return; }
  if (pa == A_DMA + 4) { dev.ddst = data; return; }
  if (pa == A_DMA + 8) { dev.dlen = data; return; }
  if (pa == A_DMA + 12) {
    dev.dctrl = data & 2;
    if (data & 1) {
      cnt["dma_starts"]++;
      auto ok = [&](uint32_t a) { return a >= RAM_LO && (uint64_t)a + dev.dlen <= (uint64_t)RAM_LO + RAM_BYTES; };
      if (!dev.dlen || !ok(dev.dsrc) || !ok(dev.ddst)) dev.dstat = 4;
      else {
        memmove((char *)m.ram + (dev.ddst - RAM_LO), (char *)m.ram + (dev.dsrc - RAM_LO), dev.dlen);
        dev.dstat = 2;
        if (dev.dctrl & 2) dev.dma_irq = true;
        claim();
      }
    }
    return;
  }
  if (pa == A_DMA + 16) { dev.dstat &= ~data; return; }
  m.wr_mem(pa, data, bytes);
  if (pa == A_UART) {
    m.wr_word(A_UART, m.rd_word(A_UART) & 0xffffff00u);
    uart_expect.push_back((char)data);
    return;
  }
  if (pa == A_UART + 1) {
    if ((data & 0xff) == 7) { m.wr_word(A_UART, m.rd_word(A_UART) & 0xfff0ffffu); dev.uart_irq = true; }
    else if ((data & 0xff) == 5) m.wr_word(A_UART, (m.rd_word(A_UART) & 0xfff0ffffu) | 0x30000);
  }
  if (pa == A_CLAIM) {
    if ((data & 0xff) == 10) dev.uart_irq = false;
    else if ((data & 0xff) == 11) dev.dma_irq = false;
  }
  claim();
  if (!modelled(pa)) { ext_owed.push_back({true, pa, bytes, data}); cnt["ext_stores"]++; }
}

void Monitor::sync_checked(Model &m, const RefCpuState &st) {
  if (ended) fail("after_end", "instruction retired after the program ended, pc=%08x", st.commit_pc);
  if (injected) fail("missed", "a divergence of kind %s injected at retired instruction %llu was not reported",
                     inject_kind.c_str(), (unsigned long long)inject_at);
  note_commit(st.commit_pc, st.instruction);
  if (m.pc != st.commit_pc)
    fail("order", "retired pc=%08x but program order requires pc=%08x", st.commit_pc, m.pc);
  // Was an interrupt taken here?
  uint64_t now = (uint64_t)sim_time;
  bool t_ok = mtip_last != ~0ull && now - mtip_last <= IRQ_SLACK;
  bool e_ok = meip_last != ~0ull && now - meip_last <= IRQ_SLACK;
  for (int s = 0; s < 2; s++) {
    uint32_t c = st.csr[s ? C_SCAUSE : C_MCAUSE];
    if (!(c >> 31) || (c & 0x7fffffff) > 11) continue;
    if (st.csr[s ? C_SEPC : C_MEPC] != m.pc) continue;
    if (st.privilege != (s ? 1 : 3)) continue;
    Model t = m;
    t.take_interrupt(s, c & 31);
    if (t.pc != st.pc && !(st.pc - (t.pc & ~0x7fu) < 0x80)) continue;
    // The instruction at this pc, had it executed, would not look like this.
    const char *k = "";
    std::string d = diff_state(t, st.gpr, st.csr, st.pc, k);
    if (!d.empty()) {
      if (st.pc == t.pc) fail("irq_state", "interrupt %u at pc=%08x: %s", c & 31, st.commit_pc, d.c_str());
      continue;
    }
    uint32_t pend = (m.csr[C_MIP] & ~LINE_BITS) | (t_ok ? 0x80 : 0) | (e_ok ? 0x800 : 0);
    uint32_t mm, ss;
    m.takeable(pend, mm, ss);
    if (!((s ? ss : mm) >> (c & 31) & 1))
      fail("irq_illegal", "interrupt %u to %c taken at pc=%08x while not pending and enabled (takeable M %03x S %03x, priv %d)",
           c & 31, s ? 'S' : 'M', st.commit_pc, mm, ss, m.priv);
    // Requests there for long enough that the machine has seen them.
    m.takeable((m.csr[C_MIP] & ~LINE_BITS) | (now - mtip_low > IRQ_SLACK ? 0x80 : 0) | (now - meip_low > IRQ_SLACK ? 0x800 : 0), mm, ss);
    if (s && mm) fail("irq_order", "interrupt %u to S taken at pc=%08x although M %03x is pending and enabled", c & 31, st.commit_pc, mm);
    uint32_t at_once = (s ? ss : mm) | 1u << (c & 31);
    if (at_once & (at_once - 1)) cnt["irqs_at_once"]++;
    if (Model::first(at_once) != (c & 31))
      fail("irq_order", "interrupt %u to %c taken at pc=%08x although %u comes first (pending %03x)", c & 31, s ? 'S' : 'M', st.commit_pc, Model::first(at_once), at_once);
    if (!ext_done.empty())
      fail("mmio_spurious", "interrupt %u taken at pc=%08x after the bus read of device %08x, which no load retired",
           c & 31, st.commit_pc, ext_done[0].addr);
    m.take_interrupt(s, c & 31);
    cnt[std::string("irq_") + (s ? "s" : "m") + std::to_string(c & 31)]++;
    irq_wait_commits = 0;
    count(0, true);
    hash = mix64(hash ^ 0x1111 ^ c);
    return;
  }
  // Otherwise the instruction executed; work out what a device returned.
  uint32_t ipa;
  StepOut o;
  uint32_t inst = 0;
  if (m.translate(m.pc, 0, ipa)) inst = m.rd_word(ipa);
  uint32_t rd = inst >> 7 & 31;
  m.mmio_value = rd ? st.gpr[rd] : 0;
  o = m.step();
  note_effect(m, o);
  count(o.inst, o.pf_i);
  if (!o.pf_i && o.inst != st.instruction)
    fail("inst", "pc=%08x executed %08x, memory holds %08x", st.commit_pc, st.instruction, o.inst);
  if (o.pf_i != st.page_fault_inst || o.pf_l != st.page_fault_load || o.pf_s != st.page_fault_store)
    fail("fault_flag", "pc=%08x page faults (fetch,load,store): machine %d%d%d, model %d%d%d",
         st.commit_pc, st.page_fault_inst, st.page_fault_load, st.page_fault_store, o.pf_i, o.pf_l, o.pf_s);
  if (o.irq_csr && rd) {
    // Device-driven pending bits are whatever the lines were; keep the rest.
    uint32_t got = st.gpr[rd];
    uint32_t bad = (got ^ m.gpr[rd]) & ~LINE_BITS;
    if (bad) fail("csr", "pc=%08x pending-interrupt read returned %08x, model %08x", st.commit_pc, got, m.gpr[rd]);
    if ((got & 0x80) && !t_ok) fail("irq_line", "pc=%08x timer-pending bit read as 1 while the timer is not expired", st.commit_pc);
    if ((got & 0x800) && !e_ok) fail("irq_line", "pc=%08x external-pending bit read as 1 while no device asks", st.commit_pc);
    m.gpr[rd] = got;
    cnt["irq_csr_reads"]++;
  }
  if (o.irq_csr) { m.csr[C_MIP] &= ~LINE_BITS; m.sync_views(); }
  if (o.mmio_load) {
    cnt["mmio_loads"]++;
    uint32_t f3 = inst >> 12 & 7;
    bool wild = false;
    std::string why;
    uint32_t want = dev_load(o.ld_addr, o.ld_bytes, f3, m.mmio_value, wild, why);
    if (why == "word") {
      want = m.rd_mem(o.ld_addr, o.ld_bytes);
      if (f3 == 0) want = (uint32_t)(int32_t)(int8_t)want;
      if (f3 == 1) want = (uint32_t)(int32_t)(int16_t)want;
    } else if (!why.empty())
      fail("mmio_value", "pc=%08x load from device %08x: %s", st.commit_pc, o.ld_addr, why.c_str());
    if (rd && want != st.gpr[rd])
      fail("mmio_value", "pc=%08x load from device %08x returned %08x, device holds %08x", st.commit_pc, o.ld_addr, st.gpr[rd], want);
    if (!modelled(o.ld_addr)) {
      cnt["ext_loads"]++;
      // every earlier external store must already have been performed
      if (!ext_owed.empty())
        fail("mmio_order", "pc=%08x device load from %08x retired before the earlier device store to %08x was performed",
             st.commit_pc, o.ld_addr, ext_owed.front().addr);
      if (ext_done.empty())
        fail("mmio_lost", "pc=%08x device load from %08x retired without a bus read", st.commit_pc, o.ld_addr);
      Ext e = ext_done.front();
      ext_done.pop_front();
      if (e.wr || e.addr != o.ld_addr || e.bytes != o.ld_bytes)
        fail("mmio_order", "pc=%08x device load %08x/%u matched with bus access %s %08x/%u", st.commit_pc,
             o.ld_addr, o.ld_bytes, e.wr ? "write" : "read", e.addr, e.bytes);
    }
  } else if (o.mmio_store) {
    dev_store(m, o.st_addr, o.st_data, o.st_bytes);
    cnt["mmio_store_checked"]++;
    if (!dut_cpu.store || dut_cpu.store_addr != o.st_addr ||
        dut_cpu.store_data != o.st_data << ((o.st_addr & 3) * 8))
      fail("store", "pc=%08x device store machine %d [%08x]=%08x, model [%08x]=%08x", st.commit_pc,
           (int)dut_cpu.store, dut_cpu.store_addr, dut_cpu.store_data, o.st_addr, o.st_data);
  } else if (!o.irq_csr) {
    cnt["sync_other"]++;
    if (inject)
      fail("unchecked", "pc=%08x inst=%08x was not compared with the reference, which took the machine's state over; it touches no device and no interrupt was taken",
           st.commit_pc, o.inst);
    if (o.store) record_store(m, o);
  }
  const char *k = "";
  std::string d = diff_state(m, st.gpr, st.csr, (o.ebreak || o.wfi) ? m.pc : st.pc, k);
  if (!d.empty()) fail(k, "pc=%08x inst=%08x %s", st.commit_pc, o.inst, d.c_str());
  if (st.privilege != m.priv) fail("priv", "pc=%08x privilege: machine %d, model %d", st.commit_pc, st.privilege, m.priv);
  post_state(m, o);
}

void Monitor::on_bus(bool wr, uint32_t addr, uint32_t bytes, uint32_t data) {
  ext_seen++;
  hash = mix64(hash ^ 0x77 ^ addr ^ ((uint64_t)wr << 40));
  if (wr) {
    if (ext_owed.empty())
      fail("mmio_spurious", "bus write of %u bytes to device %08x=%08x without a retired store", bytes, addr, data);
    Ext e = ext_owed.front();
    ext_owed.pop_front();
    uint32_t mask = bytes == 1 ? 0xff : bytes == 2 ? 0xffff : 0xffffffff;
    if (e.addr != addr || e.bytes != bytes || (e.data & mask) != (data & mask))
      fail("mmio_order", "bus write [%08x]=%08x/%u, oldest retired device store is [%08x]=%08x/%u",
           addr, data, bytes, e.addr, e.data, e.bytes);
  } else {
    // The loads of one group to retire may all have been to the bus when the
    // first of them retires; nothing further ahead is certain to retire.
    ext_done.push_back({false, addr, bytes, 0, commits});
    if (ext_done.size() > READ_AHEAD)
      fail("mmio_spurious", "%u bus reads (%08x first, %08x last) for device loads that did not retire",
           (unsigned)ext_done.size(), ext_done[0].addr, addr);
  }
}

void Monitor::on_ram_write(uint32_t addr, uint32_t bytes, const uint32_t *d, uint64_t strb) {
  for (uint32_t b = 0; b + 4 <= bytes && b < 64; b += 4) {
    if (((strb >> b) & 0xf) != 0xf) continue;
    uint32_t a = addr + b, v = d[b >> 2];
    auto it = hist.find(a);
    wb_words++;
    if (it == hist.end()) {
      if (model && in_ram(a) && model->rd_word(a) != v)
        fail("ram_value", "write-back puts %08x in [%08x], which no retired store wrote; it holds %08x", v, a, model->rd_word(a));
      continue;
    }
    // Stores to different bytes may reach the cache in either order, so each
    // byte has its own place in the history.
    auto &h = it->second;
    auto &idx = wb_idx[a];
    for (int k = 0; k < 4; k++) {
      uint32_t from = idx[k], i = from;
      while (i < h.size() && ((h[i] ^ v) >> 8 * k & 0xff)) i++;
      if (i == h.size())
        fail("ram_value", "write-back puts %08x in [%08x]; the last retired value is %08x and for byte %d %s", v, a, h.back(), k,
             from ? "a newer value had already been written back" : "no retired store ever produced it");
      idx[k] = i;
    }
  }
}

void Monitor::on_cycle() {
  uint64_t now = (uint64_t)sim_time;
  if (now == cycle && now) return;
  cycle = now;
  mtip_now = now + dev.off >= dev.cmp;
  meip_now = dev.uart_irq || dev.dma_irq;
  (mtip_now ? mtip_last : mtip_low) = now;
  (meip_now ? meip_last : meip_low) = now;
  if (!active || ended) return;
  if (now > last_commit_cycle + stall_limit)
    fail("stall", "no instruction retired for %llu cycles", (unsigned long long)(now - last_commit_cycle));
  if (now > max_cycles)
    fail("timeout", "program did not end within %llu cycles (%llu retired)", (unsigned long long)now, (unsigned long long)commits);
}

void Monitor::finish(int) {}
} // namespace vsim
