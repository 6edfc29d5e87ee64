#pragma once
// Architectural reference model of the simulated machine (RV32IMA + bit
// manipulation subset, single-precision floats in the integer registers, M/S/U, Sv32), written from the ISA manual. It shares no
// code with the simulator under test or with the repository's own RefCpu.
#include <cstdint>
#include <cstring>
#include <sys/mman.h>
#include <unordered_map>

namespace vsim {

// CSR slots follow the order the machine reports them in.
enum {
  C_MTVEC, C_MEPC, C_MCAUSE, C_MIE, C_MIP, C_MTVAL, C_MSCRATCH, C_MSTATUS,
  C_MIDELEG, C_MEDELEG, C_SEPC, C_STVEC, C_SCAUSE, C_SSCRATCH, C_STVAL,
  C_SSTATUS, C_SIE, C_SIP, C_SATP, C_MHARTID, C_MISA, C_NUM
};
inline int csr_slot(uint32_t n) {
  switch (n) {
  case 0x305: return C_MTVEC;  case 0x341: return C_MEPC;
  case 0x342: return C_MCAUSE; case 0x304: return C_MIE;
  case 0x344: return C_MIP;    case 0x343: return C_MTVAL;
  case 0x340: return C_MSCRATCH; case 0x300: return C_MSTATUS;
  case 0x303: return C_MIDELEG; case 0x302: return C_MEDELEG;
  case 0x141: return C_SEPC;   case 0x105: return C_STVEC;
  case 0x142: return C_SCAUSE; case 0x140: return C_SSCRATCH;
  case 0x143: return C_STVAL;  case 0x100: return C_SSTATUS;
  case 0x104: return C_SIE;    case 0x144: return C_SIP;
  case 0x180: return C_SATP;   case 0xf14: return C_MHARTID;
  case 0x301: return C_MISA;
  }
  return -1;
}
constexpr uint32_t M_MSTATUS = 0x807FF9BB, M_SSTATUS = 0x800DE133,
                   M_MI = 0xbbb, M_SI = 0x333;
constexpr uint32_t RAM_LO = 0x80000000u, RAM_BYTES = 0x40000000u;

inline bool in_ram(uint32_t a) { return a - RAM_LO < RAM_BYTES; }

struct StepOut {
  bool trap = false;         // an exception was taken
  uint32_t cause = 0;
  bool pf_i = false, pf_l = false, pf_s = false;
  bool store = false;        // memory was written (incl. AMO, successful SC)
  uint32_t st_addr = 0, st_data = 0, st_bytes = 0;
  uint32_t st_old = 0;       // word before the store
  bool load = false;         // memory was read (incl. AMO, LR)
  uint32_t ld_addr = 0, ld_bytes = 0;
  bool mmio_load = false, mmio_store = false;
  bool irq_csr = false;      // touches mip/sip
  int rd = 0;                // destination of an mmio/irq_csr read
  bool is_branch = false, taken = false, is_csr = false, is_amo = false, is_fp = false;
  bool ebreak = false, wfi = false, sfence = false, fencei = false, xret = false;
  bool sc = false, sc_ok = false, sc_may = false, sc_must = false;
  uint32_t inst = 0;
};

class Model {
public:
  uint32_t gpr[32] = {}, csr[C_NUM] = {}, pc = 0;
  uint8_t priv = 3;
  bool has_fma = false;
  bool res_v = false;
  // Outcome of a store-conditional where the ISA leaves it open: -1 strict
  // (fails), else the outcome the machine reported. res_open: something that
  // permits a spurious failure happened since the load-reserved.
  int sc_hint = -1;
  bool res_open = false;
  uint32_t res_a = 0;
  uint32_t *ram = nullptr;
  std::unordered_map<uint32_t, uint32_t> io;
  // Value an MMIO load is to return (set by the caller).
  uint32_t mmio_value = 0;

  void alloc() {
    ram = (uint32_t *)mmap(nullptr, RAM_BYTES, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  void reset(uint32_t rpc) {
    memset(gpr, 0, sizeof gpr);
    memset(csr, 0, sizeof csr);
    csr[C_MISA] = 0x40141103;
    pc = rpc; priv = 3; res_v = false; res_a = 0; res_open = false;
  }
  uint32_t rd_word(uint32_t a) const {
    a &= ~3u;
    if (in_ram(a)) return ram[(a - RAM_LO) >> 2];
    auto it = io.find(a);
    return it == io.end() ? 0 : it->second;
  }
  void wr_word(uint32_t a, uint32_t v) {
    a &= ~3u;
    if (in_ram(a)) ram[(a - RAM_LO) >> 2] = v;
    else io[a] = v;
  }
  uint32_t rd_mem(uint32_t a, uint32_t n) const {
    uint32_t w = rd_word(a) >> ((a & 3) * 8);
    return n == 1 ? w & 0xff : n == 2 ? w & 0xffff : w;
  }
  void wr_mem(uint32_t a, uint32_t v, uint32_t n) {
    uint32_t m = n == 1 ? 0xffu : n == 2 ? 0xffffu : 0xffffffffu;
    uint32_t sh = (a & 3) * 8;
    wr_word(a, (rd_word(a) & ~(m << sh)) | ((v & m) << sh));
  }

  // type: 0 fetch, 1 load, 2 store
  bool translate(uint32_t va, int type, uint32_t &pa) const {
    int ep = priv;
    uint32_t ms = csr[C_MSTATUS];
    if (type != 0 && (ms >> 17 & 1)) ep = ms >> 11 & 3;
    if (!(csr[C_SATP] >> 31) || ep == 3) { pa = va; return true; }
    uint32_t base = csr[C_SATP] << 12;
    for (int lvl = 1; lvl >= 0; lvl--) {
      uint32_t idx = lvl ? va >> 22 : (va >> 12 & 0x3ff);
      uint32_t pte = rd_word(base + idx * 4);
      bool v = pte & 1, r = pte & 2, w = pte & 4, x = pte & 8, u = pte & 16,
           a = pte & 64, d = pte & 128;
      if (!v || (!r && w)) return false;
      if (!r && !x) {
        if (lvl == 0) return false;
        base = (pte >> 10) << 12;
        continue;
      }
      if (type == 0 && !x) return false;
      if (type == 1 && !r && !((ms >> 19 & 1) && x)) return false;
      if (type == 2 && !w) return false;
      if (ep == 0 && !u) return false;
      if (ep == 1 && u && (type == 0 || !(ms >> 18 & 1))) return false;
      if (lvl == 1 && (pte >> 10 & 0x3ff)) return false;
      if (!a || (type == 2 && !d)) return false;
      pa = lvl ? ((pte >> 20) << 22) | (va & 0x3fffff)
               : ((pte >> 10) << 12) | (va & 0xfff);
      return true;
    }
    return false;
  }

  void sync_views() {
    csr[C_SSTATUS] = csr[C_MSTATUS] & M_SSTATUS;
    csr[C_SIE] = csr[C_MIE] & M_SI;
    csr[C_SIP] = csr[C_MIP] & M_SI;
  }
  // Enter a trap. Interrupt causes have bit 31 set. to_s: handled in S mode.
  void enter(bool to_s, uint32_t cause, uint32_t tval) {
    uint32_t &ms = csr[C_MSTATUS];
    uint32_t tv;
    if (!to_s) {
      csr[C_MEPC] = pc; csr[C_MCAUSE] = cause; csr[C_MTVAL] = tval;
      ms = (ms & ~(3u << 11)) | ((uint32_t)priv << 11);
      ms = (ms & ~(1u << 7)) | ((ms >> 3 & 1) << 7);
      ms &= ~(1u << 3);
      priv = 3; tv = csr[C_MTVEC];
    } else {
      csr[C_SEPC] = pc; csr[C_SCAUSE] = cause; csr[C_STVAL] = tval;
      ms = (ms & ~(1u << 8)) | ((priv == 1 ? 1u : 0u) << 8);
      ms = (ms & ~(1u << 5)) | ((ms >> 1 & 1) << 5);
      ms &= ~(1u << 1);
      priv = 1; tv = csr[C_STVEC];
    }
    sync_views();
    pc = tv & ~3u;
    if ((tv & 1) && (cause >> 31)) pc += 4 * (cause & 0x7fffffff);
  }
  void exception(uint32_t cause, uint32_t tval, StepOut &o) {
    res_open = true;
    o.trap = true; o.cause = cause;
    o.pf_i = cause == 12; o.pf_l = cause == 13; o.pf_s = cause == 15;
    enter(priv < 3 && (csr[C_MEDELEG] >> cause & 1), cause, tval);
  }
  // Interrupts takeable now, for a given pending word. Returns a bit mask of
  // causes that would be handled in M / S.
  // The machine lets an M-level line that is delegated be handled in S under
  // its S-level cause number (3->1, 7->5, 11->9), and an S-level line always
  // traps to S.
  void takeable(uint32_t mip, uint32_t &m, uint32_t &s) const {
    uint32_t p = mip & csr[C_MIE];
    bool men = priv < 3 || (csr[C_MSTATUS] >> 3 & 1);
    bool sen = priv < 1 || (priv == 1 && (csr[C_MSTATUS] >> 1 & 1));
    uint32_t del = csr[C_MIDELEG];
    m = men ? (p & ~del & 0x888) : 0;
    uint32_t sp = (p & 0x222) | ((p & del & 0x888) >> 2);
    s = sen ? sp : 0;
  }
  // Of several at once: external before software before timer.
  static uint32_t first(uint32_t causes) {
    for (uint32_t c : {11u, 3u, 7u, 9u, 1u, 5u}) if (causes >> c & 1) return c;
    return 0;
  }
  void take_interrupt(bool to_s, uint32_t code) {
    res_open = true;
    enter(to_s, 0x80000000u | code, 0);
  }

  bool csr_write(int s, uint32_t v) {
    switch (s) {
    case C_MSTATUS: csr[C_MSTATUS] = (csr[C_MSTATUS] & ~M_MSTATUS) | (v & M_MSTATUS); break;
    case C_SSTATUS: csr[C_MSTATUS] = (csr[C_MSTATUS] & ~M_SSTATUS) | (v & M_SSTATUS); break;
    case C_MIE: csr[C_MIE] = v & M_MI; break;
    case C_SIE: csr[C_MIE] = (csr[C_MIE] & ~M_SI) | (v & M_SI); break;
    case C_MIP: csr[C_MIP] = v & M_MI; break;
    case C_SIP: csr[C_MIP] = (csr[C_MIP] & ~M_SI) | (v & M_SI); break;
    default: csr[s] = v; return true;
    }
    sync_views();
    return true;
  }

  static uint32_t alu_r(uint32_t f3, uint32_t f7, uint32_t a, uint32_t b, bool &ok);
  static uint32_t alu_i(uint32_t inst, uint32_t a, bool &ok);
  static uint32_t muldiv(uint32_t f3, uint32_t a, uint32_t b);

  // True when a physical address is a device (anything that is not RAM).
  static bool is_dev(uint32_t pa) { return !in_ram(pa); }

  StepOut step();
};
} // namespace vsim
