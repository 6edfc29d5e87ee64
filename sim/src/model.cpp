#include "model.h"
#include "fp.h"

namespace vsim {

static inline uint32_t bits(uint32_t v, int hi, int lo) {
  return (v >> lo) & ((1u << (hi - lo + 1)) - 1u);
}
static uint32_t rotr(uint32_t x, uint32_t n) {
  n &= 31;
  return n ? (x >> n) | (x << (32 - n)) : x;
}

uint32_t Model::muldiv(uint32_t f3, uint32_t a, uint32_t b) {
  const int32_t sa = (int32_t)a, sb = (int32_t)b;
  switch (f3) {
  case 0: return a * b;
  case 1: return (uint32_t)(((int64_t)sa * (int64_t)sb) >> 32);
  case 2: return (uint32_t)(((__int128)sa * (__int128)(uint64_t)b) >> 32);
  case 3: return (uint32_t)(((uint64_t)a * (uint64_t)b) >> 32);
  case 4: return b == 0 ? 0xffffffffu : (a == 0x80000000u && sb == -1) ? a : (uint32_t)(sa / sb);
  case 5: return b == 0 ? 0xffffffffu : a / b;
  case 6: return b == 0 ? a : (a == 0x80000000u && sb == -1) ? 0 : (uint32_t)(sa % sb);
  default: return b == 0 ? a : a % b;
  }
}

uint32_t Model::alu_r(uint32_t f3, uint32_t f7, uint32_t a, uint32_t b, bool &ok) {
  ok = true;
  const uint32_t sh = b & 31;
  switch (f7 << 3 | f3) {
  case 0x00 << 3 | 0: return a + b;
  case 0x20 << 3 | 0: return a - b;
  case 0x00 << 3 | 1: return a << sh;
  case 0x00 << 3 | 2: return (int32_t)a < (int32_t)b;
  case 0x00 << 3 | 3: return a < b;
  case 0x00 << 3 | 4: return a ^ b;
  case 0x00 << 3 | 5: return a >> sh;
  case 0x20 << 3 | 5: return (uint32_t)((int32_t)a >> sh);
  case 0x00 << 3 | 6: return a | b;
  case 0x00 << 3 | 7: return a & b;
  case 0x10 << 3 | 2: return b + (a << 1);
  case 0x10 << 3 | 4: return b + (a << 2);
  case 0x10 << 3 | 6: return b + (a << 3);
  case 0x20 << 3 | 4: return ~(a ^ b);
  case 0x20 << 3 | 6: return a | ~b;
  case 0x20 << 3 | 7: return a & ~b;
  case 0x05 << 3 | 4: return (int32_t)a < (int32_t)b ? a : b;
  case 0x05 << 3 | 5: return a < b ? a : b;
  case 0x05 << 3 | 6: return (int32_t)a > (int32_t)b ? a : b;
  case 0x05 << 3 | 7: return a > b ? a : b;
  case 0x30 << 3 | 1: return rotr(a, 32 - sh);
  case 0x30 << 3 | 5: return rotr(a, sh);
  case 0x24 << 3 | 1: return a & ~(1u << sh);
  case 0x24 << 3 | 5: return a >> sh & 1;
  case 0x14 << 3 | 1: return a | 1u << sh;
  case 0x34 << 3 | 1: return a ^ 1u << sh;
  case 0x04 << 3 | 4: return (a & 0xffff) | b << 16;
  case 0x04 << 3 | 7: return (a & 0xff) | (b & 0xff) << 8;
  case 0x05 << 3 | 1: case 0x05 << 3 | 2: case 0x05 << 3 | 3: {
    uint64_t p = 0;
    for (int i = 0; i < 32; i++)
      if (b >> i & 1) p ^= (uint64_t)a << i;
    return f3 == 1 ? (uint32_t)p : f3 == 3 ? (uint32_t)(p >> 32) : (uint32_t)(p >> 31);
  }
  }
  ok = false;
  return 0;
}

uint32_t Model::alu_i(uint32_t inst, uint32_t a, bool &ok) {
  ok = true;
  const uint32_t f3 = bits(inst, 14, 12), f7 = inst >> 25, sh = bits(inst, 24, 20);
  const uint32_t imm = (uint32_t)((int32_t)inst >> 20);
  switch (f3) {
  case 0: return a + imm;
  case 2: return (int32_t)a < (int32_t)imm;
  case 3: return a < imm;
  case 4: return a ^ imm;
  case 6: return a | imm;
  case 7: return a & imm;
  case 1:
    switch (f7) {
    case 0x00: return a << sh;
    case 0x14: return a | 1u << sh;
    case 0x24: return a & ~(1u << sh);
    case 0x34: return a ^ 1u << sh;
    case 0x30:
      if (sh == 0) { uint32_t n = 0; while (n < 32 && !(a >> (31 - n) & 1)) n++; return n; }
      if (sh == 1) { uint32_t n = 0; while (n < 32 && !(a >> n & 1)) n++; return n; }
      if (sh == 2) { uint32_t n = 0; for (int i = 0; i < 32; i++) n += a >> i & 1; return n; }
      if (sh == 4) return (uint32_t)(int32_t)(int8_t)a;
      if (sh == 5) return (uint32_t)(int32_t)(int16_t)a;
    }
    break;
  case 5:
    switch (f7) {
    case 0x00: return a >> sh;
    case 0x20: return (uint32_t)((int32_t)a >> sh);
    case 0x30: return rotr(a, sh);
    case 0x24: return a >> sh & 1;
    case 0x34: if (sh == 24) return a << 24 | (a & 0xff00) << 8 | (a >> 8 & 0xff00) | a >> 24; break;
    case 0x14:
      if (sh == 7) { uint32_t r = 0; for (int i = 0; i < 32; i += 8) if (a >> i & 0xff) r |= 0xffu << i; return r; }
    }
    break;
  }
  ok = false;
  return 0;
}

StepOut Model::step() {
  StepOut o;
  uint32_t ipa;
  if (!translate(pc, 0, ipa)) { exception(12, pc, o); return o; }
  const uint32_t inst = rd_word(ipa);
  o.inst = inst;
  const uint32_t op = inst & 0x7f, rd = bits(inst, 11, 7), f3 = bits(inst, 14, 12),
                 rs1 = bits(inst, 19, 15), rs2 = bits(inst, 24, 20), f7 = inst >> 25;
  const uint32_t a = gpr[rs1], b = gpr[rs2];
  uint32_t npc = pc + 4;
  bool wb = false, ok = true;
  uint32_t v = 0;
  switch (op) {
  case 0x37: v = inst & 0xfffff000u; wb = true; break;
  case 0x17: v = pc + (inst & 0xfffff000u); wb = true; break;
  case 0x6f: {
    int32_t imm = (int32_t)(bits(inst, 31, 31) << 20 | bits(inst, 19, 12) << 12 |
                            bits(inst, 20, 20) << 11 | bits(inst, 30, 21) << 1);
    imm = imm << 11 >> 11;
    v = pc + 4; wb = true; npc = pc + (uint32_t)imm;
    o.is_branch = o.taken = true;
    break;
  }
  case 0x67:
    v = pc + 4; wb = true;
    npc = (a + (uint32_t)((int32_t)inst >> 20)) & ~1u;
    o.is_branch = o.taken = true;
    break;
  case 0x63: {
    int32_t imm = (int32_t)(bits(inst, 31, 31) << 12 | bits(inst, 7, 7) << 11 |
                            bits(inst, 30, 25) << 5 | bits(inst, 11, 8) << 1);
    imm = imm << 19 >> 19;
    bool t = false;
    switch (f3) {
    case 0: t = a == b; break;
    case 1: t = a != b; break;
    case 4: t = (int32_t)a < (int32_t)b; break;
    case 5: t = (int32_t)a >= (int32_t)b; break;
    case 6: t = a < b; break;
    case 7: t = a >= b; break;
    }
    o.is_branch = true; o.taken = t;
    if (t) npc = pc + (uint32_t)imm;
    break;
  }
  case 0x03: {
    uint32_t va = a + (uint32_t)((int32_t)inst >> 20), pa;
    if (!translate(va, 1, pa)) { exception(13, va, o); return o; }
    uint32_t n = 1u << (f3 & 3);
    o.load = true; o.ld_addr = pa; o.ld_bytes = n; o.rd = rd;
    if (is_dev(pa)) { o.mmio_load = true; v = mmio_value; }
    else {
      v = rd_mem(pa, n);
      if (f3 == 0) v = (uint32_t)(int32_t)(int8_t)v;
      if (f3 == 1) v = (uint32_t)(int32_t)(int16_t)v;
    }
    wb = true;
    break;
  }
  case 0x23: {
    uint32_t va = a + ((uint32_t)((int32_t)(inst & 0xfe000000u) >> 20) | rd), pa;
    if (!translate(va, 2, pa)) { exception(15, va, o); return o; }
    uint32_t n = 1u << (f3 & 3);
    o.store = true; o.st_addr = pa; o.st_bytes = n;
    o.st_data = n == 1 ? b & 0xff : n == 2 ? b & 0xffff : b;
    o.mmio_store = is_dev(pa);
    if (!o.mmio_store) { o.st_old = rd_word(pa); wr_mem(pa, b, n); }
    if (res_v && res_a == (pa & ~3u)) res_open = true;
    break;
  }
  case 0x13: v = alu_i(inst, a, ok); wb = ok; break;
  case 0x33: v = f7 == 1 ? muldiv(f3, a, b) : alu_r(f3, f7, a, b, ok); wb = ok; break;
  case 0x53:
    v = fp::op(inst, a, b, ok);
    if (!ok) { exception(2, inst, o); return o; }
    wb = true; o.is_fp = true;
    break;
  case 0x43: case 0x47: case 0x4b: case 0x4f:
    if (has_fma) v = fp::op3(inst, a, b, gpr[inst >> 27], ok);
    if (!has_fma || !ok) { exception(2, inst, o); return o; }
    wb = true; o.is_fp = true;
    break;
  case 0x0f: o.fencei = f3 == 1; break;
  case 0x2f: {
    const uint32_t fn = inst >> 27;
    uint32_t pa;
    o.is_amo = true; o.rd = rd;
    if (fn == 2) {
      if (!translate(a, 1, pa)) { exception(13, a, o); return o; }
    } else if (fn == 3) {
      if (!translate(a, 2, pa)) { exception(15, a, o); return o; }
    } else {
      if (!translate(a, 1, pa) || !translate(a, 2, pa)) { exception(15, a, o); return o; }
    }
    if (fn == 3) {
      o.sc = true;
      o.sc_may = res_v && res_a == pa;
      o.sc_must = o.sc_may && !res_open;
      o.sc_ok = o.sc_must || (o.sc_may && sc_hint == 1);
      res_v = false;
      v = o.sc_ok ? 0 : 1;
      if (o.sc_ok) { o.store = true; o.st_data = b; o.st_old = rd_word(pa); wr_mem(pa, b, 4); }
    } else {
      uint32_t old = rd_mem(pa, 4);
      o.load = true; o.ld_addr = pa; o.ld_bytes = 4;
      v = old;
      if (fn == 2) { res_v = true; res_a = pa; res_open = false; }
      else {
        uint32_t n = 0;
        switch (fn) {
        case 0: n = old + b; break;
        case 1: n = b; break;
        case 4: n = old ^ b; break;
        case 8: n = old | b; break;
        case 12: n = old & b; break;
        case 16: n = (int32_t)old < (int32_t)b ? old : b; break;
        case 20: n = (int32_t)old > (int32_t)b ? old : b; break;
        case 24: n = old < b ? old : b; break;
        case 28: n = old > b ? old : b; break;
        }
        o.store = true; o.st_data = n; o.st_old = old; wr_mem(pa, n, 4);
        if (res_v && res_a == pa) res_open = true;
      }
    }
    if (o.store) { o.st_addr = pa; o.st_bytes = 4; }
    wb = true;
    break;
  }
  case 0x73: {
    if (f3 & 3) {
      uint32_t num = inst >> 20;
      if (num == 0xc01 || num == 0xc81) { exception(2, inst, o); return o; }
      int s = csr_slot(num);
      if (s < 0) break; // unimplemented CSRs are no-ops on this machine
      o.is_csr = true; o.rd = rd;
      o.irq_csr = s == C_MIP || s == C_SIP;
      uint32_t old = csr[s];
      uint32_t src = f3 & 4 ? rs1 : a;
      v = old; wb = true;
      if ((f3 & 3) == 1) csr_write(s, src);
      else if (rs1 != 0) csr_write(s, (f3 & 3) == 2 ? old | src : old & ~src);
      break;
    }
    switch (inst) {
    case 0x00000073: exception(priv == 0 ? 8 : priv == 1 ? 9 : 11, 0, o); return o;
    case 0x00100073: o.ebreak = true; break;
    case 0x10500073: o.wfi = true; break;
    case 0x30200073: {
      uint32_t &ms = csr[C_MSTATUS];
      priv = ms >> 11 & 3;
      ms = (ms & ~8u) | (ms >> 7 & 1) << 3;
      ms |= 1u << 7; ms &= ~(3u << 11);
      npc = csr[C_MEPC]; o.xret = true; sync_views();
      break;
    }
    case 0x10200073: {
      uint32_t &ms = csr[C_MSTATUS];
      priv = ms >> 8 & 1;
      ms = (ms & ~2u) | (ms >> 5 & 1) << 1;
      ms |= 1u << 5; ms &= ~(1u << 8);
      npc = csr[C_SEPC]; o.xret = true; sync_views();
      break;
    }
    default: if (f7 == 9) o.sfence = true; break;
    }
    break;
  }
  default: exception(2, inst, o); return o;
  }
  if (wb && rd) gpr[rd] = v;
  pc = npc;
  return o;
}
} // namespace vsim
