#include "gen.h"
#include "asm.h"
#include <cstring>
#include <map>

namespace vsim {
namespace {
constexpr uint32_t HM = 0x80001000, HS = 0x80002000, FN = 0x80020000, BODY = 0x80010000,
                   D0 = 0x80100000, D1 = 0x80400000, ROOTA = 0x80200000, ROOTB = 0x80201000,
                   L2LOW = 0x80202000, L2UC = 0x80203000, L2PA = 0x80204000, L2PB = 0x80205000,
                   L2EX = 0x80206000, V_POOL = 0x50000000, V_EX = 0x60000000, V_MEGA = 0x58000000, V_XS = 0x64000000, V_XU = 0x68000000, UOFF = 0x40000000,
                   L2AL = 0x80207000, DMASRC = 0x80300000, DMADST = 0x80310000;
constexpr int NPOOL = 16, NFN = 8;

struct Gen {
  const Plan &p;
  Image img;
  Rng g;            // program-wide choices
  Rng r;            // current item's choices
  Asm a{BODY};
  std::map<uint32_t, uint32_t> mem;
  int mode = 3;
  bool shadow = false, paged = false, irq = false, deleg8 = false, vect = false, fma = false;
  uint32_t medeleg = 0, mideleg = 0;
  int root = 0;
  uint32_t dma_next = 0;
  std::map<std::string, int> wt;
  uint32_t span = 64;    // working-set words
  int depth = 0;
  bool in_loop = false;
  std::string learn;     // the one kind of loop of this program

  explicit Gen(const Plan &pl) : p(pl), g(pl.seed * 2654435761u + 17), r(1) {}
  void put(uint32_t addr, uint32_t v) { mem[addr] = v; }
  void put(uint32_t addr, const std::vector<uint32_t> &v) {
    for (size_t i = 0; i < v.size(); i++) mem[addr + 4 * i] = v[i];
  }

  int rr() {
    static const int pool[] = {5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 19, 20, 21, 22, 23, 24, 25};
    return pool[r.below(20)];
  }
  int rs() { return r.chance(1, 12) ? 0 : r.chance(1, 12) ? 2 + r.below(3) : rr(); }

  // ---- ALU -------------------------------------------------------------
  uint32_t alu_enc(int rd, int s1, int s2) {
    static const uint16_t rtab[][2] = {
        {0, 0}, {0x20, 0}, {0, 1}, {0, 2}, {0, 3}, {0, 4}, {0, 5}, {0x20, 5}, {0, 6}, {0, 7},
        {0x10, 2}, {0x10, 4}, {0x10, 6}, {0x20, 4}, {0x20, 6}, {0x20, 7}, {5, 4}, {5, 5}, {5, 6}, {5, 7},
        {0x30, 1}, {0x30, 5}, {0x24, 1}, {0x24, 5}, {0x14, 1}, {0x34, 1}, {4, 4}, {4, 7}, {5, 1}, {5, 2}, {5, 3}};
    switch (r.below(8)) {
    case 0: case 1: { // immediate
      uint32_t f3s[] = {0, 2, 3, 4, 6, 7};
      return Asm::I((int)r.below(4096) - 2048, s1, f3s[r.below(6)], rd, 0x13);
    }
    case 2: { // shifts and unary
      int sh = r.below(32);
      switch (r.below(13)) {
      case 0: return Asm::I(sh, s1, 1, rd, 0x13);
      case 1: return Asm::I(sh, s1, 5, rd, 0x13);
      case 2: return Asm::I(0x400 | sh, s1, 5, rd, 0x13);
      case 3: return Asm::I(0x600 | sh, s1, 5, rd, 0x13);
      case 4: return Asm::I(0x480 | sh, s1, 5, rd, 0x13);
      case 5: return Asm::I(0x698, s1, 5, rd, 0x13);
      case 6: return Asm::I(0x287, s1, 5, rd, 0x13);
      case 7: return Asm::I(0x280 | sh, s1, 1, rd, 0x13);
      case 8: return Asm::I(0x480 | sh, s1, 1, rd, 0x13);
      case 9: return Asm::I(0x680 | sh, s1, 1, rd, 0x13);
      case 10: { int u[] = {0, 1, 2, 4, 5}; return Asm::I(0x600 | u[r.below(5)], s1, 1, rd, 0x13); }
      case 11: return (uint32_t)(r.next() & 0xfffff000u) | rd << 7 | 0x37;
      default: return (uint32_t)(r.next() & 0x00fff000u) | rd << 7 | 0x17;
      }
    }
    case 3: return Asm::R(1, s2, s1, r.below(8), rd); // mul/div
    case 4: if (r.chance(1, 2)) return Asm::R(1, s2, s1, 4 + r.below(4), rd); // fallthrough
    default: {
      auto &t = rtab[r.below(31)];
      return Asm::R(t[0], s2, s1, t[1], rd);
    }
    }
  }
  uint32_t corner_val() {
    static const uint32_t v[] = {0, 1, 0xffffffffu, 0x80000000u, 0x7fffffffu, 0x80000001u, 0xfffffffeu, 31, 32, 33, 0x80, 0x8000, 0xff, 0xffff, 0xffff0000u};
    return r.chance(1, 6) ? 1u << r.below(32) : v[r.below(15)];
  }
  // Operands at the edges of their ranges, read from registers.
  void corner() {
    int x = rr(), y = rr();
    a.li(x, corner_val());
    if (r.chance(1, 8)) y = x;
    else if (y != x) a.li(y, corner_val());
    if (x != y && r.chance(1, 4)) { // the pairs division has rules of its own for
      a.li(x, r.chance(1, 2) ? 0x80000000u : corner_val());
      a.li(y, r.chance(1, 2) ? 0xffffffffu : r.below(2));
      a.e(Asm::R(1, y, x, 4 + r.below(4), rr()));
      return;
    }
    int n = 1 + r.below(3);
    while (n--) {
      int d = rr();
      a.e(r.chance(1, 2) ? Asm::R(1, y, x, r.below(8), d) : alu_enc(d, x, y));
      if (d == x || d == y) break;
    }
  }
  void alu(int n) {
    int last = rr();
    if (n >= 3 && r.chance(1, 3)) corner();
    for (int i = 0; i < n; i++) {
      int rd = r.chance(1, 30) ? 0 : rr();
      int s1 = r.chance(2, 3) ? last : rs();
      a.e(alu_enc(rd, s1, rs()));
      if (rd) last = rd;
    }
  }

  // ---- floating point ---------------------------------------------------
  uint32_t fp_enc(int rd, int s1, int s2) {
    static const int rms[] = {0, 0, 7, 1, 2, 3, 4};
    int rm = rms[r.below(7)];
    if (fma && r.chance(1, 4)) {
      static const uint32_t ops[] = {0x43, 0x47, 0x4b, 0x4f};
      return Asm::R((uint32_t)rr() << 2, s2, s1, rm, rd, ops[r.below(4)]);
    }
    switch (r.below(12)) {
    case 0: case 1: return Asm::R(0x00, s2, s1, rm, rd, 0x53);
    case 2: return Asm::R(0x04, s2, s1, rm, rd, 0x53);
    case 3: case 4: return Asm::R(0x08, s2, s1, rm, rd, 0x53);
    case 5: return Asm::R(0x0c, s2, s1, rm, rd, 0x53);
    case 6: return Asm::R(0x2c, 0, s1, rm, rd, 0x53);
    case 7: return Asm::R(0x10, s2, s1, r.below(3), rd, 0x53);
    case 8: return Asm::R(0x14, s2, s1, r.below(2), rd, 0x53);
    case 9: return Asm::R(0x50, s2, s1, r.below(3), rd, 0x53);
    case 10: return Asm::R(0x60, r.below(2), s1, rm, rd, 0x53);
    default: return r.chance(1, 4) ? Asm::R(0x70, 0, s1, 1, rd, 0x53) : Asm::R(0x68, r.below(2), s1, rm, rd, 0x53);
    }
  }
  uint32_t fp_reserved() {
    static const uint32_t f7[] = {0x00, 0x04, 0x08, 0x0c, 0x2c, 0x60, 0x68, 0x10, 0x14, 0x50};
    int rd = rr(), s1 = rr(), s2 = rr();
    switch (r.below(4)) {
    case 0: return Asm::R(f7[r.below(7)] & 0x7c, 0, s1, 5 + r.below(2), rd, 0x53);        // rounding mode
    case 1: return Asm::R(f7[4 + r.below(3)], 2 + r.below(29), s1, 0, rd, 0x53);         // selector
    case 2: return Asm::R(f7[7 + r.below(3)], s2, s1, 3 + r.below(5), rd, 0x53);         // function
    default: { static const uint32_t un[] = {0x20, 0x38, 0x58, 0x78, 0x40, 0x01, 0x05, 0x71};
      return Asm::R(un[r.below(8)], s2, s1, r.below(5), rd, 0x53); }
    }
  }
  // Operations on two or three special values.
  void fp_special() {
    static const uint32_t sp[] = {0, 0x80000000, 0x7f800000, 0xff800000, 0x7f7fffff, 0xff7fffff, 0x7fc00000, 0x7f800001, 1, 0x80000001, 0x3f800000, 0xbf800000};
    int x = 9, y = 10, z = 11;
    a.li2(x, sp[r.below(12)]);
    a.li2(y, sp[r.below(12)]);
    for (int i = 1 + r.below(3); i > 0; i--) {
      if (r.chance(1, 4)) { a.e(Asm::R(0x70, 0, r.chance(1, 2) ? x : y, 1, z, 0x53)); continue; }
      a.e(fp_enc(z, x, y));
      if (r.chance(1, 2)) a.e(fp_enc(12, r.chance(1, 2) ? z : y, x));
    }
  }
  uint32_t fp_val() {
    static const uint32_t sp[] = {0, 0x80000000, 1, 0x80000001, 0x7fffff, 0x800000, 0x3f800000, 0xbf800000,
      0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc12345, 0x4f000000, 0xcf000000,
      0x4f800000, 0x3f000000, 0xbf000000, 0x4effffff, 0x33800000, 0x34000000, 0xcf000001, 0xbf7fffff};
    switch (r.below(4)) {
    case 0: return sp[r.below(25)];
    case 1: return sp[r.below(25)] + r.below(5) - 2;
    case 2: return (uint32_t)r.next();
    default: return ((uint32_t)r.next() & 0x807fffff) | (118 + r.below(40)) << 23;
    }
  }
  void fp_item() {
    if (r.chance(1, 4)) fp_special();
    int n = 2 + r.below(6), last = rr();
    for (int i = 0; i < n; i++) {
      if (r.chance(1, 3)) a.li2(last = rr(), fp_val());
      int s2 = rs();
      if (r.chance(1, 4)) a.li2(s2 = rr(), fp_val());
      int rd = r.chance(1, 30) ? 0 : rr();
      a.e(fp_enc(rd, r.chance(2, 3) ? last : rs(), s2));
      if (rd) last = rd;
      switch (r.below(10)) {
      case 8: if (r.chance(1, 3)) a.e(fp_reserved()); break;
      case 0: a.e(alu_enc(rr(), last, rs())); break;
      case 1: { // a branch decided by a float result, with work behind it
        int l = a.label(), t = rr();
        a.e(Asm::R(0x50, rs(), last, r.below(3), t, 0x53));
        a.br(r.below(2), t, 0, l);
        a.e(fp_enc(rr(), rr(), rr()));
        a.e(fp_enc(rr(), last, rr()));
        a.bind(l);
        break;
      }
      case 2: a.sw(last, 2, (int)(r.below(span < 500 ? span : 500) * 4)); break;
      case 3: a.lw(last = rr(), 2, (int)(r.below(span < 500 ? span : 500) * 4)); break;
      }
    }
  }

  // ---- memory ----------------------------------------------------------
  // A page of the pool, or one whose number differs from it in a single bit.
  uint32_t pool_page() {
    uint32_t pg = r.below(NPOOL);
    if (r.chance(1, 4)) pg |= 1u << (4 + r.below(6));
    else if (r.chance(1, 6)) pg ^= alias_step(r.below(NALIAS));
    return pg;
  }
  // Added to the pool's base, changes one bit of the upper page-number part.
  static constexpr int NALIAS = 6;
  static uint32_t alias_step(int k) {
    static const uint32_t v[NALIAS] = {1u << 10, 1u << 11, 1u << 12, 1u << 13, 1u << 14, 1u << 17};
    return v[k];
  }
  // Leaves an address in (reg, imm); size is log2 bytes.
  void addr(int size, int &reg, int &imm, bool amo = false) {
    int al = (1 << size) - 1;
    int b = 2 + r.below(2);
    if (paged && mode < 3 && wt["vmacc"] && r.chance(1, 3)) b = 4;
    uint32_t lim = span * 4;
    if (lim > 2048) lim = 2048;
    int t = rr();
    switch (r.below(amo ? 3 : 6)) {
    default:
      if (!amo) {
        reg = b; imm = (int)(r.below(lim) & ~al);
        if (r.chance(1, 5)) { // the same place from a higher base
          a.addi(t, b, 2044);
          reg = t; imm -= 2044;
        }
        break;
      }
      [[fallthrough]];
    case 0:
      a.e(Asm::I((int)((lim - 1) & ~al), rr(), 7, t, 0x13));
      a.add(t, t, b);
      reg = t; imm = 0;
      break;
    case 1: { // address produced late
      int u = rr();
      a.e(Asm::R(1, rr(), rr(), 4 + r.below(4), t));
      if (r.chance(1, 2)) a.e(Asm::R(1, u, t, r.below(8), t));
      a.e(Asm::I((int)((lim - 1) & ~al), t, 7, t, 0x13));
      a.add(t, t, b);
      reg = t; imm = 0;
      break;
    }
    case 2: { // cache-set conflicts
      if (b == 4) {
        a.lui(t, pool_page() << 12);
      } else
        a.lui(t, r.below(12) << 14);
      a.add(t, t, b);
      reg = t; imm = amo ? 0 : (int)(r.below(r.chance(1, 2) ? 64 : 2048) & ~al);
      break;
    }
    }
    if (b == 4 && imm == 0 && !amo && r.chance(1, 2)) {
      // spread over several pool pages
      int u = rr();
      if (u == reg) u = reg == 5 ? 6 : 5;
      a.lui(u, pool_page() << 12);
      a.add(u, u, reg);
      reg = u;
    }
  }
  void ld() {
    static const int f[] = {0, 1, 2, 4, 5, 2, 2};
    int f3 = f[r.below(7)], reg, imm;
    addr(f3 & 3, reg, imm);
    a.load(f3, r.chance(1, 25) ? 0 : rr(), reg, imm);
  }
  void st() {
    int f3 = r.chance(1, 2) ? 2 : r.below(3), reg, imm;
    addr(f3, reg, imm);
    a.store(f3, rs(), reg, imm);
  }
  void mem_item(int n) {
    for (int i = 0; i < n; i++) {
      switch (r.below(7)) {
      case 0: case 1: case 2: ld(); break;
      case 3: case 4: st(); break;
      case 5: { // overlapping accesses, back to back
        int reg = 2 + r.below(2), off = (int)(r.below(span < 500 ? span : 500) * 4);
        int k = 2 + r.below(4);
        while (k--) {
          int f3 = r.below(3);
          int o = off + (int)(r.below(4) & ~((1 << f3) - 1));
          if (r.chance(1, 2)) a.store(f3, rr(), reg, o);
          else { int u = r.chance(1, 2) && f3 < 2 ? 4 : 0; a.load(f3 | u, rr(), reg, o); }
        }
        break;
      }
      default: alu(1 + r.below(2));
      }
    }
  }
  void stream() { // walk conflicting lines
    int reg = rr(), k = 4 + r.below(8), off = (int)(r.below(16) * 64 + r.below(16) * 4);
    int base = 2 + r.below(2);
    if (off > 2040) off = 2040;
    int step = 8;
    while (step == reg) step++;
    a.lui(step, 0x4000);
    a.addi(reg, base, 0);
    for (int i = 0; i < k; i++) {
      int d = rr();
      while (d == reg || d == step) d = rr();
      if (r.chance(1, 2)) a.sw(rr(), reg, off); else a.lw(d, reg, off);
      if (i < 11) a.add(reg, reg, step);
    }
    // the walk may have clobbered nothing but pool registers
  }
  // Touch other lines of the set a given physical address falls in.
  void spill_set(uint32_t pa, int t, int k) {
    while (k--) {
      a.li(t, (r.chance(3, 4) ? D1 : D0) + r.below(11) * 0x4000 + (pa & 0x3fc0) + r.below(16) * 4);
      if (r.chance(1, 2)) a.sw(9 + r.below(4), t, 0); else a.lw(9 + r.below(4), t, 0);
    }
  }
  // Back-to-back accesses to more lines of one set than it has ways.
  void thrash_item() {
    int n = 5 + r.below(3), base = 2 + r.below(2), off = (int)(r.below(24) * 64);
    for (int i = 0; i < n; i++) {
      a.lui(18 + i, (uint32_t)i << 14);
      a.add(18 + i, 18 + i, base);
    }
    int k = 12 + r.below(28), rd = 1 + r.below(3);
    while (k--) {
      int f3 = r.chance(1, 2) ? 2 : r.below(3), b = 18 + r.below(n);
      int o = off + (int)(r.below(64) & ~((1 << f3) - 1));
      if (r.chance(rd, 4)) a.load(f3, 9 + r.below(8), b, o); else a.store(f3, 9 + r.below(8), b, o);
      if (r.chance(1, 10)) a.e(Asm::R(1, 9, 10, 4, 9));
      if (r.chance(1, 16)) { int l = a.label(); a.br(r.below(2), 9, 10, l); a.sw(11, b, off); a.bind(l); }
    }
  }
  // Many accesses to a few sets, chosen by a multiplicative sequence: fills, hits,
  // evictions and stores to one set overlap in every way the timing allows.
  void set_item() {
    if (in_loop) { mem_item(2); return; }
    int x = 5, t = 6, u = 7, v = 8, c = 9, w = 10;
    int base = 2 + r.below(2), off = (int)(r.below(24) * 64);
    bool atomics = r.chance(1, 3);
    a.li(c, (uint32_t)r.next() | 1);
    a.li(x, (uint32_t)r.next() | 1);
    a.addi(27, 0, 4 + r.below(r.chance(1, 4) ? 60 : 16));
    int top = a.label();
    a.bind(top);
    int k = 2 + r.below(5);
    while (k--) {
      int wide = r.below(3), f3 = r.chance(1, 2) ? 2 : r.below(3);
      if (r.chance(2, 3)) a.e(Asm::R(1, c, x, 0, x)); // next
      a.e(Asm::I(8 + r.below(20), x, 5, t, 0x13));
      a.e(Asm::I(wide == 0 ? 3 : 7, t, 7, t, 0x13));
      if (wide == 2) {
        a.e(Asm::I(4 + r.below(20), x, 5, u, 0x13));
        a.e(Asm::I(3, u, 7, u, 0x13));
        a.add(t, t, u);
      }
      a.e(Asm::I(14, t, 1, t, 0x13));
      a.add(t, t, base);
      int o = off + (int)(r.below(64) & ~((1 << f3) - 1)), o2 = off + (int)r.below(16) * 4;
      switch (r.below(atomics ? 9 : 7)) {
      case 0: case 1: a.load(f3 | (r.chance(1, 2) && f3 < 2 ? 4 : 0), r.chance(1, 2) ? v : w, t, o); break;
      case 7: // combine in place, with other traffic to the set in flight
        a.addi(t, t, o2);
        a.amo((uint32_t[]){0, 1, 4, 16, 28}[r.below(5)], r.chance(1, 2) ? v : w, t, x);
        break;
      case 8: // reserve, push the line about, store conditionally
        a.addi(t, t, o2);
        a.amo(2, v, t, 0);
        for (int i = r.below(6); i > 0; i--) { a.lui(u, r.below(8) << 14); a.add(u, u, base); a.lw(w, u, off); }
        a.addi(v, v, 1);
        a.amo(3, w, t, v);
        break;
      case 2: case 3: a.store(f3, r.chance(1, 2) ? x : v, t, o); break;
      case 4: // the store retires late, the younger load of its line starts early
        a.e(Asm::R(1, v, x, 4 + r.below(4), w));
        if (r.chance(1, 2)) a.e(Asm::R(1, x, w, 4 + r.below(4), w));
        a.store(f3, r.chance(1, 2) ? w : x, t, o);
        a.lw(v, t, o2);
        break;
      case 5: // read, change, write back
        a.lw(v, t, o2);
        a.addi(v, v, 1);
        a.sw(v, t, o2);
        break;
      default: // two lines of the set at once
        a.store(f3, x, t, o);
        a.lui(u, (1 + r.below(3)) << 14);
        a.add(u, u, base);
        if (r.chance(1, 2)) a.lw(w, u, o2); else a.sw(v, u, o2);
      }
      if (r.chance(1, 8)) { int l = a.label(); a.e(Asm::I(1 << r.below(3), v, 7, u, 0x13)); a.br(r.below(2), u, 0, l); a.lw(w, base, o2); a.bind(l); }
    }
    a.addi(27, 27, -1);
    a.br(1, 27, 0, top);
  }
  void amo_item() {
    int n = 1 + r.below(4);
    for (int i = 0; i < n; i++) {
      int reg, imm;
      addr(2, reg, imm, true);
      static const uint32_t fn[] = {0, 1, 4, 8, 12, 16, 20, 24, 28};
      switch (r.below(4)) {
      case 0: { // lr/sc, maybe disturbed
        int d = rr();
        while (d == reg) d = rr();
        a.amo(2, d, reg, 0);
        int v = rr();
        while (v == reg) v = rr();
        if (r.chance(1, 3)) {
          switch (r.below(4)) {
          case 0: a.sw(v, reg, 0); break;
          case 1: a.sw(v, 2, (int)(r.below(span < 500 ? span : 500) * 4)); break;
          case 2: a.amo(3, v, reg, d); break;
          default: a.e(alu_enc(v, d, d));
          }
        } else if (r.chance(1, 4)) { // push the reserved line out
          int u = reg == 5 ? 6 : 5, w = v;
          for (int i = 2 + r.below(8); i > 0; i--) {
            a.lui(u, (1 + r.below(11)) << 14);
            a.e(Asm::R(0, reg, u, 4, u)); // the same set in another 16 KiB
            if (r.chance(1, 3)) a.sw(w, u, 0); else a.lw(w == d ? 0 : w, u, 0);
          }
          a.addi(v, d, 1);
        } else if (r.chance(1, 2)) a.addi(v, d, 1);
        a.amo(3, r.chance(1, 8) ? 0 : rr(), reg, v);
        break;
      }
      case 1: { // sc without a reservation, or with one for another word
        int d = rr(), u = rr();
        while (d == reg) d = rr();
        while (u == reg || u == d) u = rr();
        switch (r.below(5)) {
        case 0: a.amo(3, d, reg, rr()); break;
        case 1: // reserve one word, try its neighbour, then the word itself
          a.e(Asm::I(r.chance(1, 2) ? 4 : 64, reg, 4, u, 0x13)); // xori
          a.amo(2, d, reg, 0);
          a.amo(3, r.chance(1, 2) ? d : 0, u, rr());
          a.amo(3, d, reg, rr());
          break;
        case 2: // two reservations, the second one counts
          a.e(Asm::I(r.chance(1, 2) ? 4 : 64, reg, 4, u, 0x13));
          a.amo(2, d, reg, 0);
          a.amo(2, d, u, 0);
          if (r.chance(1, 2)) a.amo(3, d, u, rr()); else a.amo(3, d, reg, rr());
          break;
        case 3: { // a reservation behind a branch, then a conditional store on either path
          int l = a.label();
          if (r.chance(1, 2)) a.amo(2, d, reg, 0);
          a.e(Asm::I(1 << r.below(5), rr(), 7, u, 0x13));
          a.br(r.below(2), u, 0, l);
          if (r.chance(2, 3)) a.amo(2, d, reg, 0); else a.amo(3, d, reg, rr());
          a.bind(l);
          a.amo(3, d, reg, rr());
          break;
        }
        default: { // compare and swap until it works (a page may be read-only)
          int top = a.label(), out = a.label();
          a.addi(26, 0, 12);
          if (r.chance(1, 2)) a.lw(u, reg, 0); else a.addi(u, 0, 1);
          a.bind(top);
          a.amo(2, d, reg, 0);
          a.br(1, d, u, out);
          a.addi(d, d, 1);
          a.amo(3, d, reg, d);
          a.addi(26, 26, -1);
          a.br(0, 26, 0, out);
          a.br(1, d, 0, top);
          a.bind(out);
        }
        }
        break;
      }
      default: {
        int d = r.chance(1, 8) ? 0 : rr(), v = rs();
        if (r.chance(1, 4)) { while ((v = rr()) == reg); a.li(v, corner_val()); }
        a.amo(fn[r.below(9)], d, reg, v);
        if (d != reg && r.chance(1, 2)) a.lw(rr(), reg, 0);
      }
      }
      if (r.chance(1, 3)) st();
    }
  }

  // ---- control ---------------------------------------------------------
  void simple(int n) {
    while (n-- > 0) {
      switch (r.below(4)) {
      case 0: case 1: alu(1 + r.below(3)); break;
      case 2: ld(); break;
      default: st();
      }
    }
  }
  void branch_item() {
    static const uint32_t f3s[] = {0, 1, 4, 5, 6, 7};
    int n = 1 + r.below(4);
    for (int i = 0; i < n; i++) {
      int l = a.label();
      int s1 = rr(), s2 = r.chance(1, 3) ? 0 : rr();
      if (r.chance(1, 3)) a.e(Asm::I(1 << r.below(8), s1, 7, s1 = rr(), 0x13)), s2 = 0;
      if (r.chance(1, 4)) a.e(Asm::R(1, rr(), rr(), 4 + r.below(4), s1)); // slow condition
      if (r.chance(1, 8)) { s2 = rr(); a.li(s1, corner_val()); if (s2 != s1) a.li(s2, r.chance(1, 3) ? 0 : corner_val()); }
      else if (r.chance(1, 8)) { s2 = rr(); a.add(s2, s1, 0); }
      a.br(f3s[r.below(6)], s1, s2, l);
      simple(1 + r.below(4));
      if (r.chance(1, 3)) {
        int m = a.label();
        a.jal(0, m);
        a.bind(l);
        simple(1 + r.below(2));
        a.bind(m);
      } else a.bind(l);
    }
  }
  // More unresolved branches than the machine has room for: all wait for one
  // slow value, and any of them may have been predicted wrongly.
  void pileup_item() {
    static const uint32_t f3s[] = {0, 1, 4, 5, 6, 7};
    int c = 9, v = 10;
    if (r.chance(1, 2)) { a.lui(6, r.below(11) << 14); a.add(6, 6, 2); a.lw(c, 6, (int)r.below(500) * 4); }
    for (int i = r.below(4); i > 0; i--) a.e(Asm::R(1, 11 + r.below(3), c, 4 + r.below(4), c));
    int n = 10 + r.below(20), gap = r.below(3);
    while (n--) {
      int l = a.label();
      if (r.chance(1, 6)) a.e(Asm::R(1, 12, c, 4 + r.below(4), v));
      a.br(f3s[r.below(6)], r.chance(3, 4) ? c : v, r.chance(1, 2) ? 0 : 11 + r.below(3), l);
      for (int i = r.below(gap + 1); i > 0; i--) a.e(alu_enc(11 + r.below(4), 11 + r.below(4), c));
      if (r.chance(1, 8)) a.sw(c, 2, (int)r.below(500) * 4);
      if (r.chance(1, 8)) a.lw(14, 2, (int)r.below(500) * 4);
      a.bind(l);
    }
  }
  void loop_item() {
    if (in_loop) { branch_item(); return; }
    in_loop = true;
    int cnt = r.chance(1, 4) ? 20 + r.below(40) : 2 + r.below(14);
    a.addi(27, 0, cnt);
    int top = a.label();
    a.bind(top);
    int k = 1 + r.below(3);
    while (k--) {
      switch (r.below(5)) {
      case 0: branch_item(); break;
      case 1: mem_item(2); break;
      case 2: alu(3); break;
      case 3: call_item(); break;
      default: { // pattern branch on the counter
        int l = a.label(), t = rr();
        a.e(Asm::I(1 + r.below(3), 27, 7, t, 0x13));
        a.br(r.below(2), t, 0, l);
        simple(1 + r.below(2));
        a.bind(l);
      }
      }
    }
    a.addi(27, 27, -1);
    a.br(1, 27, 0, top);
    in_loop = false;
  }
  int odd() { return r.chance(1, 4) ? 1 : 0; } // an indirect jump ignores bit 0 of its target
  void call_item() {
    int f = r.below(NFN);
    uint32_t target = FN + f * 128;
    switch (r.below(3)) {
    case 0: a.jal_to(1, target); break;
    case 1: { // indirect, pc-relative
      int t = rr();
      uint32_t off = target - a.pc();
      uint32_t hi = (off + 0x800) & 0xfffff000u;
      a.auipc(t, hi);
      a.jalr(1, t, (int)(off - hi) + odd());
      break;
    }
    default: { // data-dependent target
      int t = rr(), u = rr();
      while (u == t) u = rr();
      a.e(Asm::I(3, rr(), 7, t, 0x13));
      a.e(Asm::I(7, t, 1, t, 0x13));
      uint32_t off = FN - a.pc();
      uint32_t hi = (off + 0x800) & 0xfffff000u;
      a.auipc(u, hi);
      a.add(u, u, t);
      a.jalr(1, u, (int)(off - hi) + odd());
    }
    }
  }
  // Branches and jumps near the ends of their ranges.
  static constexpr uint32_t FARA = 0x80038000, FARB = 0x800f8000;
  void far_item() {
    if (r.chance(1, 2) || a.w.size() > 8000) { // there and back over most of the jump range
      int link = r.chance(1, 2) ? 1 : 5;
      a.jal_to(link, (r.chance(1, 2) ? FARA : FARB) + r.below(8) * 32 + (link == 5 ? 16 : 0));
      return;
    }
    int fill = 200 + r.below(800), s1 = rr(), s2 = rr();
    a.li(s1, corner_val());
    if (r.chance(1, 2)) a.add(s2, s1, 0); else a.li(s2, corner_val());
    int near = a.label(), back = a.label(), out = a.label(), over = a.label();
    uint32_t f3 = (uint32_t[]){0, 1, 4, 5, 6, 7}[r.below(6)];
    if (r.chance(1, 2)) { // forward
      a.br(f3, s1, s2, out);
      simple(1);
      a.jal(0, out);
      for (int i = 0; i < fill; i++) a.e(0);
      a.bind(out);
    } else {
      a.jal(0, near);
      a.bind(back);
      simple(1);
      a.jal(0, over);
      for (int i = 0; i < fill; i++) a.e(0);
      a.bind(near);
      a.br(f3, s1, s2, back);
      simple(1);
      a.bind(over);
    }
    for (int l : {near, back, out, over}) if (a.labels[l] < 0) a.bind(l);
  }
  void far_pads() {
    for (int i = 0; i < 8; i++) {
      Asm p(FARA + i * 32), q(FARB + i * 32);
      p.jalr(0, 1, 0); p.e(0); p.e(0); p.e(0); p.jalr(0, 5, 0);
      // far side: an inner trip back with the other link register
      q.jal_to(5, FARA + (7 - i) * 32 + 16); q.jalr(0, 1, 0); q.e(0); q.e(0); q.jal_to(1, FARA + i * 32); q.jalr(0, 5, 0);
      put(p.base, p.w); put(q.base, q.w);
    }
  }
  void recurse_item() { // deep call chain over a stack in memory
    if (paged && mode == 1) { mem_item(2); return; } // the stack may be unreachable
    int t = 25;
    a.li(23, 4 + r.below(24));
    a.addi(t, 3, 0x7f0);
    a.jal_to(1, FN + NFN * 128);
  }
  void jump_item() {
    int l = a.label();
    if (r.chance(1, 2)) a.jal(r.chance(1, 2) ? 0 : rr(), l);
    else {
      int t = rr();
      int skip = 1 + r.below(5);
      a.auipc(t, 0);
      a.jalr(r.chance(1, 2) ? 0 : 5, t, 8 + skip * 4 + odd());
      for (int i = 0; i < skip; i++) a.e(r.chance(1, 3) ? (uint32_t)r.next() | 3 : alu_enc(rr(), rr(), rr()));
      a.bind(l);
      return;
    }
    int n = r.below(6);
    for (int i = 0; i < n; i++) a.e(r.chance(1, 3) ? (uint32_t)r.next() : alu_enc(rr(), rr(), rr()));
    a.bind(l);
  }

  // ---- privileged ------------------------------------------------------
  void csr_item() {
    static const uint32_t mc[] = {0x340, 0x343, 0x342, 0x341, 0x140, 0x141, 0x142, 0x143, 0x300, 0x304, 0x100, 0x104, 0x344, 0x144, 0xf14, 0x301, 0x302, 0x303, 0x305, 0x105, 0x180};
    static const uint32_t sc[] = {0x140, 0x141, 0x142, 0x143, 0x100, 0x104, 0x144, 0x105, 0x180};
    int n = 1 + r.below(4);
    if (mode == 0) { alu(2); return; }
    for (int i = 0; i < n; i++) {
      uint32_t c = mode == 3 ? mc[r.below(r.chance(1, 2) ? 8 : 21)] : sc[r.below(r.chance(1, 2) ? 4 : 9)];
      int rd = r.chance(1, 4) ? 0 : rr();
      int f3 = 1 + r.below(3);
      bool imm = r.chance(1, 3);
      bool free_w = c == 0x340 || c == 0x343 || c == 0x342 || c == 0x140 || c == 0x142 || c == 0x143 || c == 0x341 || c == 0x141;
      if (!free_w) f3 = 2; // read only
      int src = !free_w ? 0 : imm ? r.below(32) : rs();
      a.csr(f3 | (imm ? 4 : 0), rd, c, src);
      if (r.chance(1, 3)) alu(1);
    }
  }
  void status_item() { // flip translation / interrupt control bits
    if (mode == 0) { alu(1); return; }
    int t = rr();
    uint32_t bits;
    if (mode == 3) {
      uint32_t c[] = {1u << 3, 1u << 1, 1u << 18, 1u << 19, (1u << 3) | (1u << 1)};
      bits = c[r.below(5)];
      a.li(t, bits);
      if (r.chance(2, 3)) a.csrs(0x300, t); else a.csrc(0x300, t);
    } else {
      uint32_t c[] = {1u << 1, 1u << 18, 1u << 19, 1u << 18};
      bits = c[r.below(4)];
      a.li(t, bits);
      if (r.chance(2, 3)) a.csrs(0x100, t); else a.csrc(0x100, t);
    }
  }
  // A trap delegated to a supervisor handler that cannot be fetched: the fetch
  // fault goes to machine mode, which returns to x1.
  bool can_badvec() const { return paged && mode == 1 && !(medeleg & 0x1000) && (medeleg & 0xa104); }
  void badvec_item() {
    int t = rr();
    size_t at = a.w.size();
    a.e(0x00000097u); // auipc x1, 0
    a.addi(1, 1, 0);
    a.li(t, 0x71000000u + r.below(64) * 0x1000 + r.below(64) * 4);
    a.csrw(0x105, t);
    if (deleg8 && r.chance(1, 2)) { // a user call delegated to the bad vector
      int u = t == 5 ? 6 : 5;
      size_t p0 = a.w.size();
      a.e(0x00000017u | t << 7); // auipc
      a.addi(t, t, 0);
      a.e(Asm::I(4, t, 1, t, 0x13)); a.e(Asm::I(4, t, 5, t, 0x13));
      a.lui(u, UOFF); a.e(Asm::R(0, u, t, 6, t));
      a.csrw(0x141, t);
      a.li(u, 0x100); a.csrc(0x100, u);
      a.sret();
      a.w[p0 + 1] = Asm::I((int)(a.w.size() - p0) * 4, t, 0, t, 0x13);
      a.ecall();
    } else if (medeleg & 4) a.e(0x00000057u);
    else if (medeleg & 0x2000) { a.li(t, 0x70000000u); a.lw(rr(), t, 0); }
    else if (medeleg & 0x8000) { a.li(t, 0x70000000u); a.sw(rr(), t, 0); }
    simple(1 + r.below(3));
    a.w[at + 1] = Asm::I((int)(a.w.size() - at) * 4, 1, 0, 1, 0x13);
    a.li(t, HS | (vect ? 1 : 0));
    a.csrw(0x105, t);
    if (irq) { a.addi(t, 0, 2); a.csrs(0x100, t); }
  }
  void trap_item() {
    if (can_badvec() && r.chance(1, 3)) { badvec_item(); return; }
    if (can_scall() && r.chance(1, 4)) { scall_item(); return; }
    switch (r.below(paged && mode < 3 ? 6 : 3)) {
    case 0: a.addi(17, 0, 0); a.ecall(); break;
    case 1: { uint32_t ill[] = {0x00000000u, 0xffffffffu, 0xc0102573u, 0x00000057u, 0xc8102573u, 0x0000007fu};
      uint32_t x = ill[r.below(6)];
      a.e(x); break; }
    case 2: simple(1); a.addi(17, 0, 0); a.ecall(); simple(1); break;
    case 3: { // data page fault
      int t = rr();
      a.li(t, 0x70000000u + r.below(64) * 0x1000 + r.below(1024) * 4);
      switch (r.below(3)) {
      case 0: a.lw(rr(), t, 0); break;
      case 1: a.sw(rr(), t, 0); break;
      default: a.amo(r.below(3), rr(), t, rr() * 0);
      }
      break;
    }
    case 4: { // fetch page fault
      int t = rr();
      a.li(t, 0x71000000u + r.below(64) * 0x1000 + r.below(1024) * 4);
      a.jalr(1, t, 0);
      break;
    }
    default: { // executable alias, permission may vary
      int t = rr();
      if (r.chance(1, 3)) a.li(t, (r.chance(1, 2) ? V_XS : V_XU) + (FN - 0x80000000u) + r.below(NFN) * 128);
      else if (r.chance(1, 3)) a.li(t, V_EX + r.below(4) * 0x1000 + 0xfc0 + r.below(16) * 4); // runs on into the next page
      else a.li(t, V_EX + r.below(4) * 0x1000 + r.below(NFN) * 128);
      a.jalr(1, t, 0);
    }
    }
  }
  void mode_item() {
    int to = (int[]){0, 1, 3}[r.below(3)];
    if (mode == 0 && deleg8) { a.addi(17, 0, 0); a.ecall(); return; }
    a.addi(17, 0, to == 0 ? 1 : to == 1 ? 2 : 3);
    a.ecall();
    mode = to;
  }
  // Supervisor calls handled in supervisor mode for a while.
  bool can_scall() const { return mode == 3 && !(medeleg & 4); }
  void scall_item() {
    int t = 6;
    a.addi(t, 0, 0x200); a.csrs(0x302, t);
    a.addi(17, 0, 2); a.ecall();
    mode = 1;
    a.addi(17, 0, 0);
    int n = 1 + r.below(2);
    while (n--) { a.ecall(); simple(1 + r.below(3)); }
    a.addi(17, 0, 4); a.e(0xffffffffu); // ends it, see the machine handler
    a.addi(17, 0, 0);
  }
  uint32_t rand_pte(Rng &q) {
    uint32_t frame = D0 + q.below(24) * 0x1000;
    uint32_t fl = 1;
    switch (q.below(10)) {
    case 0: fl |= 2 | 64 | 16; break;                    // R
    case 1: fl |= 8 | 64 | 16; break;                    // X only
    case 2: fl |= 2 | 4 | 128 | 16; break;               // A clear
    case 3: fl |= 2 | 4 | 64 | 16; break;                // D clear
    case 4: fl = (uint32_t)q.below(256); break;          // anything
    case 5: fl |= 2 | 4 | 64 | 128; break;               // S page
    default: fl |= 2 | 4 | 64 | 128 | 16; break;         // plain RW user
    }
    // A global page must be the same in every address space; see global_pte.
    return (frame >> 12) << 10 | (fl & ~32u);
  }
  uint32_t global_pte(Rng &q) { return rand_pte(q) | 32; }
  void pte_item() {
    if (!paged || mode == 0) { mem_item(2); return; }
    int t = 6, u = 7;
    if (r.chance(1, 5)) { mega_item(); return; }
    int n = 1 + r.below(3);
    int pg = 0, which = 0;
    bool all[2] = {true, true}, glob = false;
    for (int i = 0; i < n; i++) {
      pg = r.below(NPOOL);
      if (pg != NPOOL - 1 && r.chance(1, 4)) pg |= 1u << (4 + r.below(6));
      if (pg == NPOOL - 1) {
        glob = true;
        a.li(u, global_pte(r));
        for (int k = 0; k < 2; k++) { a.li(t, (k ? L2PB : L2PA) + pg * 4); a.sw(u, t, 0); }
        continue;
      }
      which = r.chance(1, 2) == (root == 0) ? 0 : 1;
      all[!which] = false;
      a.li(t, (which ? L2PB : L2PA) + pg * 4);
      a.li(u, rand_pte(r));
      a.sw(u, t, 0);
      if (mode == 3 && r.chance(1, 3)) spill_set((which ? L2PB : L2PA) + pg * 4, t, 1 + r.below(8));
      else if (r.chance(1, 6)) spill_set((which ? L2PB : L2PA) + pg * 4, t, 3 + r.below(6));
    }
    bool one = all[0] || all[1];
    int k = r.below(5);
    if (n == 1 && k < 2) { a.li(t, V_POOL + pg * 0x1000 + r.below(4096)); a.sfence(t, 0); }
    else if (use_asid && one && !glob && k == 2) { a.li(u, asid[which]); a.sfence(0, u); }
    else if (use_asid && n == 1 && !glob && k == 3) {
      a.li(t, V_POOL + pg * 0x1000 + r.below(4096));
      a.li(u, asid[which]);
      a.sfence(t, u);
    } else a.sfence();
    mem_item(1 + r.below(3));
  }
  // Root-level entries: superpages, misaligned superpages, pointers, holes.
  void mega_item() {
    int t = 6, u = 7, v = 8;
    uint32_t e;
    switch (r.below(7)) {
    case 0: e = (D1 >> 12) << 10 | 0xd7; break;
    case 1: e = (D1 >> 12) << 10 | 0xc7; break;
    case 2: e = (D1 >> 12) << 10 | (1 + r.below(255)); e &= ~32u; break;
    case 3:
    case 5: e = ((D1 >> 12) + (r.chance(1, 3) ? 1u : r.chance(1, 2) ? 512u : r.chance(1, 2) ? 1u << r.below(10) : 1 + r.below(1023))) << 10 | (r.chance(1, 2) ? 0xd7 : 0xc7); break; // misaligned
    case 4: e = ((root ? L2PB : L2PA) >> 12) << 10 | 1; break;
    default: e = r.chance(1, 2) ? 0 : (D1 >> 12) << 10 | 0x57; break;
    }
    if ((e & 15) == 1) e = ((root ? L2PB : L2PA) >> 12) << 10 | 1; // pointers lead to a table
    for (int k = 0; k < 2; k++) {
      if (k != root && r.chance(1, 2)) continue;
      a.li(t, (k ? ROOTB : ROOTA) + (V_MEGA >> 22) * 4);
      a.li(u, e);
      a.sw(u, t, 0);
    }
    a.sfence();
    int n = mode == 3 ? 0 : 1 + r.below(4);
    for (int i = 0; i < n; i++) {
      a.li(v, V_MEGA + (r.chance(1, 2) ? r.below(NPOOL) * 0x1000 : r.below(12) * 0x4000) + (r.chance(1, 3) ? 0x40000u << r.below(4) : 0) + r.below(512) * 4);
      if (r.chance(1, 2)) a.lw(9, v, 0); else a.sw(10, v, 0);
    }
  }
  void satp_item() {
    if (!paged || mode == 0) { alu(1); return; }
    root ^= 1;
    // the same places before and after the switch
    uint32_t va[3];
    int n = mode == 3 ? 0 : r.below(4);
    for (int i = 0; i < n; i++) va[i] = (r.chance(1, 3) ? V_MEGA + r.below(NPOOL) * 0x1000 : V_POOL + (pool_page() << 12)) + r.below(512) * 4;
    auto touch = [&] {
      for (int i = 0; i < n; i++) {
        a.li(8, va[i]);
        if (r.chance(1, 2)) a.lw(9, 8, 0); else a.sw(10, 8, 0);
      }
    };
    touch();
    a.li(6, satp(root));
    a.csrw(0x180, 6);
    if (!use_asid || r.chance(1, 3)) a.sfence();
    touch();
    // Without a fence the two roots rely on their different address-space ids.
  }
  bool use_asid = false;
  uint32_t asid[2] = {1, 2};
  uint32_t satp(int k) {
    return 0x80000000u | (use_asid ? asid[k] << 22 : 0) | (k ? ROOTB : ROOTA) >> 12;
  }
  void mprv_item() {
    if (!paged || mode != 3) { mem_item(1); return; }
    int t = 6, v = 8;
    a.li(t, 3u << 11);
    a.csrc(0x300, t);
    if (r.chance(1, 2)) { a.li(t, 1u << 11); a.csrs(0x300, t); }
    a.li(t, 1u << 17);
    a.csrs(0x300, t);
    int n = 1 + r.below(3);
    for (int i = 0; i < n; i++) {
      a.li(v, V_POOL + (pool_page() << 12) + r.below(512) * 4);
      if (r.chance(1, 2)) a.lw(9, v, 0); else a.sw(10, v, 0);
    }
    a.li(t, 1u << 17);
    a.csrc(0x300, t);
  }
  void smc_item() {
    // Overwrite instructions ahead of us, then make them visible.
    int n = 1 + r.below(3);
    int rounds = in_loop ? 1 : 1 + r.below(2);
    a.addi(26, 0, rounds);
    int top = a.label();
    a.bind(top);
    a.auipc(6, 0);
    size_t at = a.w.size() - 1;
    std::vector<size_t> fix;
    for (int i = 0; i < n; i++) {
      int rd = 9 + r.below(6);
      uint32_t enc = alu_enc(rd, 9 + r.below(6), 9 + r.below(6));
      a.li2(7, enc);
      fix.push_back(a.w.size());
      a.sw(7, 6, 0);
    }
    if (r.chance(1, 3)) st();
    a.fencei();
    if (r.chance(1, 3)) alu(r.below(3));
    for (int i = 0; i < n; i++) {
      a.w[fix[i]] = Asm::S((int)((a.w.size() - at) * 4), 7, 6, 2);
      a.e(alu_enc(9, 9, 10)); // old contents
    }
    a.addi(26, 26, -1);
    a.br(1, 26, 0, top);
  }
  // Write a small function into a data line, optionally push that line out of
  // the data cache around the instruction fence, then call it.
  void smc_far_item() {
    if (in_loop || (paged && mode != 3)) { smc_item(); return; }
    int t = 6, v = 7, u = 8;
    int base = 2 + r.below(2), off = (int)(r.below(24) * 64), n = 1 + r.below(r.chance(1, 2) ? 15 : 6);
    int at = r.chance(1, 2) ? 0 : (int)r.below(16 - n) * 4;
    a.addi(27, 0, 2 + r.below(6));
    int top = a.label();
    a.bind(top);
    auto spill = [&](int k) { // other lines of the same set
      while (k--) {
        a.lui(u, (1 + r.below(7)) << 14);
        a.add(u, u, base);
        int o = off + (int)r.below(16) * 4;
        if (r.chance(1, 2)) a.sw(9, u, o); else a.lw(12 + r.below(3), u, o);
      }
    };
    a.addi(t, base, off + at);
    if (r.chance(1, 4)) spill(1 + r.below(4));
    for (int i = 0; i < n; i++) {
      // add the loop count to a register, differently on every round
      int rd = 9 + r.below(3);
      a.li2(v, Asm::I(r.below(64) << 5, rd, 0, rd, 0x13));
      a.e(Asm::I(20, 27, 1, u, 0x13));
      a.add(v, v, u);
      a.sw(v, t, i * 4);
    }
    a.li2(v, 0x00028067); // jr t0
    a.sw(v, t, n * 4);
    if (r.chance(1, 2)) spill(2 + r.below(10));
    a.fencei();
    if (r.chance(1, 2)) spill(2 + r.below(10));
    a.e(Asm::I(0, t, 0, 5, 0x67)); // jalr t0, 0(t)
    a.addi(27, 27, -1);
    a.br(1, 27, 0, top);
  }

  // ---- devices ---------------------------------------------------------
  bool can_io() { return mode == 3 || mode == 1; }
  void uart_item() {
    if (!can_io()) { alu(1); return; }
    a.lui(6, 0x10000000);
    int n = 1 + r.below(4);
    while (n--) {
      a.addi(7, 0, r.chance(1, 3) ? 1 + r.below(8) : r.chance(1, 3) ? 248 + r.below(8) : 14 + r.below(13)); // bytes no log line contains
      a.store(0, 7, 6, 0);
      if (r.chance(1, 3)) a.load(4, rr() == 6 ? 8 : 9, 6, 5);
      if (r.chance(1, 3)) { // registers that only hold what was put there
        static const int regs[] = {3, 4, 7};
        a.addi(7, 0, (int)r.below(256));
        a.store(0, 7, 6, regs[r.below(3)]);
        if (r.chance(1, 2)) a.load(r.chance(1, 2) ? 4 : 0, 8, 6, regs[r.below(3)]);
        if (r.chance(1, 4)) a.load(2, 9, 6, 4);
        if (r.chance(1, 4)) { // halves and words of them, signed and not
          int f3 = 1 + r.below(2);
          a.li(7, (uint32_t)r.next());
          a.store(f3, 7, 6, f3 == 2 || r.chance(1, 2) ? 4 : 6);
          a.load(r.chance(1, 2) ? 5 : 1, 8, 6, r.chance(1, 2) ? 4 : 6);
          a.load(r.chance(1, 2) ? 4 : 0, 9, 6, 4 + (int)r.below(4));
        }
      }
    }
  }
  void ext_item() { // devices reached over the external bus
    if (!can_io()) { alu(1); return; }
    a.li(6, r.chance(1, 2) && !paged ? 0x0d000000u : 0x1fb00000u);
    int n = 1 + r.below(5);
    while (n--) {
      int f3 = r.below(3), off = (int)(r.below(16) * 4 + (r.below(4) & ~((1 << f3) - 1)));
      // something that diverts or serialises right in front
      if (shadow && r.chance(1, 3)) {
        switch (r.below(paged && mode < 3 ? 7 : 6)) {
        case 0: a.addi(17, 0, 0); a.ecall(); break;
        case 4: case 5: // fences wait for older stores
          a.sw(10, 2, (int)r.below(500) * 4);
          if (r.chance(1, 2)) a.sw(11, 2, (int)r.below(500) * 4);
          if (r.chance(1, 2)) a.addi(0, 0, 0);
          switch (r.below(3)) { case 0: a.fencei(); break; case 1: a.sfence(); break; default: a.fence(); }
          break;
        case 1: a.e(0xffffffffu); break;
        case 2: a.csr(1, 0, mode == 3 ? 0x340 : 0x140, 9); break;
        case 3: { int l = a.label(); a.br(r.below(2), 9, 10, l); a.lw(11, 6, 4); a.bind(l); break; }
        default: a.li(8, 0x70000000u + r.below(64) * 0x1000); a.lw(8, 8, 0);
        }
      }
      if (r.chance(1, 2)) a.store(f3, 9 + r.below(8), 6, off);
      else a.load(f3 < 2 && r.chance(1, 2) ? f3 | 4 : f3, 9 + r.below(8), 6, off);
      if (r.chance(1, 4)) {
        // a mispredictable branch right after
        int l = a.label();
        a.br(r.below(2), 9, 10, l);
        a.lw(11, 6, 0);
        a.bind(l);
      }
      if (r.chance(1, 4)) simple_safe();
    }
  }
  void simple_safe() { a.e(alu_enc(9 + r.below(4), 13, 14)); }
  void timer_item() {
    if (!can_io()) { alu(1); return; }
    a.li(6, 0x1fd0e000);
    a.lw(7, 6, 0);
    if (r.chance(1, 2)) { a.lw(8, 6, 0); }
    if (r.chance(1, 3)) a.lw(9, 6, 12);
    if (r.chance(1, 4)) a.lw(9, 6, 8);
    if (r.chance(1, 4)) { // set the clock; now and then just before its low half wraps
      if (r.chance(1, 2)) { a.li(7, r.chance(1, 3) ? 0xfffffff0u - r.below(64) : (uint32_t)r.next() >> r.below(32)); a.sw(7, 6, 0); }
      else { a.addi(7, 0, r.below(3)); a.sw(7, 6, 4); }
      simple(r.below(4));
      a.li(6, 0x1fd0e000);
      a.lw(8, 6, 4); a.lw(7, 6, 0); a.lw(9, 6, 4);
    }
    if (irq) {
      a.addi(7, 7, r.below(r.chance(1, 2) ? 60 : 400));
      a.sw(7, 6, 8);
      a.sw(0, 6, 12);
      simple(2 + r.below(6));
    }
  }
  void soft_irq_item() {
    if (mode == 0) { alu(1); return; }
    if (mode == 3) {
      uint32_t b[] = {1u << 1, 1u << 3, 1u << 5, 1u << 9};
      a.li(6, b[r.below(4)]);
      a.csrs(0x344, 6);
    } else {
      a.e(0x14416073u); // csrsi sip, 2
    }
    if (r.chance(1, 3)) a.csrr(rr(), mode == 3 ? 0x344 : 0x144);
    simple(1 + r.below(4));
  }
  void ext_irq_item() {
    if (!can_io()) { alu(1); return; }
    a.lui(6, 0x10000000);
    if (r.chance(1, 4)) { a.addi(7, 0, r.below(256)); a.store(0, 7, 6, 2); }
    a.addi(7, 0, r.chance(3, 4) ? 7 : 5);
    a.store(0, 7, 6, 1);
    if (r.chance(1, 4)) a.load(r.chance(1, 2) ? 4 : 0, 9, 6, 2);
    if (r.chance(1, 2)) { a.li(8, 0x0c201004); a.lw(9, 8, 0); }
    if (r.chance(1, 4)) { // the copy engine asks as well; the requests are answered one by one
      a.li(6, 0x1fd0f000);
      a.li(7, DMASRC); a.sw(7, 6, 0);
      a.li(7, DMADST + dma_next); a.sw(7, 6, 4);
      a.addi(7, 0, 1 + r.below(40)); a.sw(7, 6, 8);
      a.addi(7, 0, 3); a.sw(7, 6, 12);
      dma_next += 512;
      a.li(8, 0x0c201004);
      int first = 10 + r.below(2);
      a.lw(9, 8, 0);
      for (int k : {first, 21 - first}) {
        if (r.chance(1, 6)) { a.addi(7, 0, r.below(16)); a.sw(7, 8, 0); a.lw(9, 8, 0); } // possibly not a source at all
        a.addi(7, 0, k); a.store(r.chance(1, 2) ? 2 : 0, 7, 8, 0);
        if (r.chance(3, 4)) a.lw(9, 8, 0);
      }
    }
    if (r.chance(1, 4)) { // other words of the interrupt controller hold what was put there
      a.li(8, 0x0c000000u + (r.chance(1, 2) ? r.below(64) * 4 : 0x2000 + r.below(32) * 4));
      int f3 = r.below(3);
      a.store(f3, 9 + r.below(4), 8, (int)(r.below(4) & ~((1 << f3) - 1)));
      f3 = r.below(3);
      a.load(f3 < 2 && r.chance(1, 2) ? f3 | 4 : f3, 9, 8, (int)(r.below(4) & ~((1 << f3) - 1)));
    }
    simple(1 + r.below(4));
  }
  // Several requests pile up while they may not be taken; then they may.
  void storm_item() {
    if (!can_io()) { alu(1); return; }
    const bool m = mode == 3;
    a.e(m ? 0x30047073u : 0x10017073u); // csrci mstatus, 8 / csrci sstatus, 2
    a.li(6, (m ? 0xaaau : 0x222u) & ~(r.chance(1, 4) ? (uint32_t)r.next() : 0u));
    a.csrs(m ? 0x304 : 0x104, 6);
    a.li(6, (m ? 0x22au : 0x222u) & (uint32_t)(r.next() | (r.chance(1, 3) ? ~0u : 0u)));
    a.csrs(m ? 0x344 : 0x144, 6);
    if (r.chance(2, 3)) { a.li(6, 0x1fd0e000); a.sw(0, 6, 12); a.sw(0, 6, 8); }
    if (r.chance(2, 3)) { a.lui(6, 0x10000000); a.addi(7, 0, 7); a.store(0, 7, 6, 1); }
    if (r.chance(3, 4)) {
      a.addi(7, 0, 90 + r.below(60));
      int l = a.label();
      a.bind(l);
      a.addi(7, 7, -1);
      a.br(1, 7, 0, l);
    }
    a.e(m ? 0x30046073u : 0x10016073u); // csrsi
    simple(1 + r.below(4));
  }
  void irq_ctl_item() {
    if (mode == 0) { alu(1); return; }
    if (r.chance(1, 2)) { status_item(); return; }
    a.li(6, (uint32_t)(r.next() & (r.chance(1, 4) ? 0xfffu : 0xaaau)));
    a.csr(1 + r.below(3), rr(), mode == 3 ? 0x304 : 0x104, 6);
  }
  void dma_item() {
    if (!can_io()) { alu(1); return; }
    uint32_t len = r.chance(1, 8) ? 0 : 1 + r.below(200);
    uint32_t src = DMASRC + r.below(4096), dst = DMADST + dma_next + r.below(256);
    switch (r.below(16)) {
    case 0: src = 0x70000000; break;                  // not memory
    case 1: dst = 0x1fd0f000; break;
    case 2: src = 0xc0000000u - len; break;         // up to the last byte
    case 3: src = 0xc0000000u - len + 1; break;     // one too many
    case 4: dst = 0xc0000000u - len + r.below(2); break;
    case 5: case 6: dst = src + r.below(len + 8); break;   // overlapping copies
    case 7: src = dst + r.below(len + 8); break;
    case 8: len = 4000 + r.below(700); src = DMASRC + r.below(64); break;
    case 9: len = r.chance(1, 2) ? 0xffffffffu : 0x80000000u; break;
    }
    dma_next += 512;
    a.li(6, 0x1fd0f000);
    a.li(7, src); a.sw(7, 6, 0);
    a.li(7, dst); a.sw(7, 6, 4);
    a.li(7, len); a.sw(7, 6, 8);
    a.addi(7, 0, r.chance(1, 2) ? 1 : 3);
    a.sw(7, 6, 12);
    a.lw(8, 6, 16);
    if (r.chance(1, 2)) { a.sw(8, 6, 16); a.lw(9, 6, 16); }
    if (r.chance(1, 3)) { a.addi(7, 0, r.below(8)); a.sw(7, 6, 16); a.lw(9, 6, 16); }
    if (r.chance(1, 4)) { a.addi(7, 0, r.below(2) * 2); a.sw(7, 6, 12); a.lw(9, 6, 12); a.lw(9, 6, 16); }
    if (r.chance(1, 3)) a.lw(9, 6, (int)r.below(5) * 4);
  }

  // ---- fixed parts -----------------------------------------------------
  void handlers() {
    { // machine handler: owns x30, x31
      Asm h(HM);
      int common = h.label();
      for (int i = 0; i < 16; i++) h.jal(0, common);
      h.bind(common);
      int exc = h.label(), done = h.label(), l7 = h.label(), l11 = h.label(), ecal = h.label(), nofetch = h.label(), lsoft = h.label();
      h.csrr(30, 0x342);
      h.br(5, 30, 0, exc);
      h.e(Asm::I(15, 30, 7, 30, 0x13));
      h.addi(31, 0, 7); h.br(0, 30, 31, l7);
      h.addi(31, 0, 11); h.br(0, 30, 31, l11);
      h.bind(lsoft);
      h.li(31, 0x22a | 0x8); h.csrc(0x344, 31);
      h.jal(0, done);
      h.bind(l7);
      h.li(31, 0x1fd0e000); h.li(30, 0x7fffffff); h.sw(30, 31, 12);
      h.jal(0, done);
      h.bind(l11);
      h.li(31, 0x0c201004); h.lw(30, 31, 0); h.sw(30, 31, 0);
      h.bind(done);
      h.mret();
      h.bind(exc);
      h.addi(31, 0, 8); h.br(0, 30, 31, ecal);
      h.addi(31, 0, 9); h.br(0, 30, 31, ecal);
      h.addi(31, 0, 11); h.br(0, 30, 31, ecal);
      h.addi(31, 0, 12); h.br(1, 30, 31, nofetch);
      h.csrw(0x341, 1);
      h.mret();
      h.bind(nofetch);
      int keep9 = h.label();
      h.addi(31, 0, 4); h.br(1, 17, 31, keep9);
      h.addi(31, 0, 0x200); h.csrc(0x302, 31);
      h.bind(keep9);
      h.csrr(30, 0x341); h.addi(30, 30, 4); h.csrw(0x341, 30);
      h.mret();
      h.bind(ecal);
      h.csrr(30, 0x341); h.addi(30, 30, 4);
      int k1 = h.label(), k2 = h.label(), k3 = h.label(), kk = h.label();
      h.addi(31, 0, 1); h.br(0, 17, 31, k1);
      h.addi(31, 0, 2); h.br(0, 17, 31, k2);
      h.addi(31, 0, 3); h.br(0, 17, 31, k3);
      h.csrw(0x341, 30);
      h.mret();
      auto rebase = [&](bool user) {
        if (!paged) return;
        h.e(Asm::I(4, 30, 1, 30, 0x13)); // slli 4
        h.e(Asm::I(4, 30, 5, 30, 0x13)); // srli 4
        h.lui(31, user ? 0x40000000 : 0x80000000);
        h.e(Asm::R(0, 31, 30, 6, 30));
      };
      h.bind(k1); // to U
      rebase(true);
      h.li(31, 3u << 11); h.csrc(0x300, 31);
      h.jal(0, kk);
      h.bind(k2); // to S
      rebase(false);
      h.li(31, 3u << 11); h.csrc(0x300, 31);
      h.li(31, 1u << 11); h.csrs(0x300, 31);
      h.jal(0, kk);
      h.bind(k3); // to M
      rebase(false);
      h.li(31, 3u << 11); h.csrs(0x300, 31);
      h.bind(kk);
      h.csrw(0x341, 30);
      h.mret();
      h.link();
      put(HM, h.w);
    }
    { // supervisor handler: owns x28, x29
      Asm h(HS);
      int common = h.label();
      for (int i = 0; i < 16; i++) h.jal(0, common);
      h.bind(common);
      int exc = h.label(), done = h.label(), l5 = h.label(), l9 = h.label(), nofetch = h.label();
      h.csrr(28, 0x142);
      h.br(5, 28, 0, exc);
      h.e(Asm::I(15, 28, 7, 28, 0x13));
      h.addi(29, 0, 5); h.br(0, 28, 29, l5);
      h.addi(29, 0, 9); h.br(0, 28, 29, l9);
      h.e(0x14417073u); // csrci sip, 2
      h.li(28, 0x222); h.csrc(0x144, 28);
      // a delegated machine software line can only be masked from here
      h.addi(28, 0, 8); h.csrc(0x104, 28);
      h.jal(0, done);
      h.bind(l5);
      h.li(29, 0x1fd0e000); h.li(28, 0x7fffffff); h.sw(28, 29, 12);
      h.li(28, 0x222); h.csrc(0x144, 28);
      h.jal(0, done);
      h.bind(l9);
      h.li(29, 0x0c201004); h.lw(28, 29, 0); h.sw(28, 29, 0);
      h.li(28, 0x222); h.csrc(0x144, 28);
      h.bind(done);
      h.sret();
      h.bind(exc);
      h.addi(29, 0, 12); h.br(1, 28, 29, nofetch);
      h.csrw(0x141, 1);
      h.sret();
      h.bind(nofetch);
      h.csrr(28, 0x141); h.addi(28, 28, 4); h.csrw(0x141, 28);
      h.sret();
      h.link();
      put(HS, h.w);
    }
  }
  void functions() {
    Rng q(p.seed ^ 0xf00d);
    std::swap(q, r);
    for (int i = 0; i < NFN; i++) {
      Asm f(FN + i * 128);
      std::swap(a, f);
      alu(2 + r.below(4));
      if (i >= 4 && i < NFN) { // nested call
        a.addi(26, 1, 0);
        a.jal_to(1, FN + (i - 4) * 128);
        a.addi(1, 26, 0);
      }
      a.jalr(0, 1, learn.empty() ? odd() : 0);
      std::swap(a, f);
      put(f.base, f.w);
    }
    { // the last words of the page
      Asm f(FN + 0xfc0);
      for (int i = 0; i < 16; i++) f.e(alu_enc(rr(), rr(), rr()));
      put(f.base, f.w);
    }
    { // recursive: x23 depth, x25 stack
      Asm f(FN + NFN * 128);
      int stop = f.label();
      f.addi(25, 25, -8);
      f.sw(1, 25, 0);
      f.sw(23, 25, 4);
      f.addi(23, 23, -1);
      f.br(0, 23, 0, stop);
      f.jal_to(1, FN + NFN * 128);
      f.bind(stop);
      f.lw(23, 25, 4);
      f.lw(1, 25, 0);
      f.addi(25, 25, 8);
      f.jalr(0, 1, 0);
      f.link();
      put(f.base, f.w);
    }
    std::swap(q, r);
  }
  void tables() {
    auto leaf = [](uint32_t pa, uint32_t fl) { return (pa >> 12) << 10 | fl; };
    auto ptr = [](uint32_t pa) { return (pa >> 12) << 10 | 1; };
    const uint32_t RWX = 0xcf, RW = 0xc7, U = 16, G = 32;
    for (uint32_t root : {ROOTA, ROOTB}) {
      put(root + (0x80000000u >> 22) * 4, ptr(L2LOW));
      put(root + (D1 >> 22) * 4, leaf(D1, RW | U));
      put(root + (UOFF >> 22) * 4, ptr(L2UC));
      put(root + (V_POOL >> 22) * 4, ptr(root == ROOTA ? L2PA : L2PB));
      put(root + (V_EX >> 22) * 4, ptr(L2EX));
      put(root + (V_MEGA >> 22) * 4, leaf(root == ROOTA ? D1 : D1 + 0x400000, RW | U));
      put(root + (V_XS >> 22) * 4, leaf(0x80000000u, RWX));
      put(root + (V_XU >> 22) * 4, leaf(0x80000000u, RWX | U));
      put(root + (0x1f800000u >> 22) * 4, leaf(0x1f800000, RW));
      put(root + (0x1fc00000u >> 22) * 4, leaf(0x1fc00000, RW));
      put(root + (0x0c000000u >> 22) * 4, leaf(0x0c000000, RW));
      put(root + (0x10000000u >> 22) * 4, leaf(0x10000000, RW));
    }
    for (uint32_t i = 0; i < 1024; i++) {
      uint32_t pa = 0x80000000u + i * 4096;
      bool data = pa >= D0 && pa < D0 + 0x40000;
      bool dma = pa >= DMASRC;
      put(L2LOW + i * 4, leaf(pa, (data ? RW | U : dma ? RW : RWX) | G));
    }
    for (uint32_t i = 0; i < 0x100; i++) put(L2UC + i * 4, leaf(0x80000000u + i * 4096, RWX | U));
    Rng q(p.seed ^ 0x9a9e);
    for (int i = 0; i < NPOOL; i++) {
      uint32_t ga = i == NPOOL - 1 ? global_pte(q) : rand_pte(q);
      put(L2PA + i * 4, ga);
      put(L2PB + i * 4, i == NPOOL - 1 ? ga : rand_pte(q));
    }
    for (int i = 0; i < NPOOL - 1; i++)
      for (int k = 4; k < 10; k++) {
        put(L2PA + (i | 1 << k) * 4, rand_pte(q));
        put(L2PB + (i | 1 << k) * 4, rand_pte(q));
      }
    for (int i = 0; i < NPOOL; i++) put(L2AL + i * 4, rand_pte(q));
    for (int k = 0; k < NALIAS; k++)
      for (uint32_t root : {ROOTA, ROOTB}) put(root + (((V_POOL >> 12) + alias_step(k)) >> 10) * 4, ptr(L2AL));
    uint32_t ex[] = {RWX, RWX | U, 0xc7 | U, 0x0b | U};
    for (int i = 0; i < 4; i++) put(L2EX + i * 4, leaf(FN, ex[i]));
  }

  void weights() {
    auto &s = p.scenario;
    auto W = [&](std::initializer_list<std::pair<const char *, int>> l) { for (auto &x : l) wt[x.first] = x.second; };
    if (s == "mix") {
      W({{"alu", 6}, {"mem", 8}, {"stream", 3}, {"set", 1}, {"thrash", 1}, {"pileup", 1}, {"amo", 4}, {"branch", 6}, {"loop", 4}, {"call", 3}, {"recurse", 1}, {"far", 1}, {"jump", 2}, {"csr", 2}, {"trap", 2}, {"mode", 1}, {"fence", 1}});
      if (g.chance(1, 3)) W({{"fp", 3}});
      paged = g.chance(1, 2);
      if (paged) W({{"vmacc", 1}, {"pte", 2}, {"satp", 1}, {"status", 1}});
      irq = g.chance(1, 3);
      if (irq) W({{"timer", 3}, {"soft", 1}, {"irqctl", 1}});
      if (g.chance(1, 4)) W({{"smc", 2}, {"smcfar", 1}});
      if (g.chance(1, 4)) W({{"uart", 1}, {"ext", 2}});
    } else if (s == "core") {
      W({{"alu", 8}, {"mem", 4}, {"branch", 8}, {"pileup", 2}, {"loop", 6}, {"call", 5}, {"recurse", 2}, {"far", 1}, {"jump", 3}, {"fence", 1}});
    } else if (s == "fp") {
      W({{"fp", 16}, {"alu", 2}, {"mem", 3}, {"branch", 3}, {"loop", 2}, {"call", 1}});
      irq = g.chance(1, 4);
      if (irq) W({{"timer", 2}, {"soft", 1}});
    } else if (s == "branch") {
      W({{"alu", 2}, {"branch", 12}, {"pileup", 3}, {"loop", 10}, {"call", 8}, {"recurse", 3}, {"far", 2}, {"jump", 6}, {"mem", 1}});
    } else if (s == "mem") {
      W({{"alu", 1}, {"mem", 16}, {"stream", 8}, {"set", 10}, {"thrash", 8}, {"amo", 2}, {"loop", 3}, {"branch", 2}, {"fence", 1}});
    } else if (s == "amo") {
      W({{"alu", 1}, {"mem", 4}, {"amo", 14}, {"stream", 2}, {"set", 1}, {"thrash", 1}, {"branch", 2}, {"loop", 1}});
      paged = g.chance(1, 4);
      if (paged) W({{"vmacc", 1}, {"mode", 1}, {"status", 1}});
    } else if (s == "trap") {
      W({{"alu", 3}, {"mem", 4}, {"branch", 4}, {"trap", 10}, {"csr", 6}, {"mode", 3}, {"status", 2}, {"loop", 1}, {"amo", 1}});
      paged = g.chance(2, 3);
      if (paged) W({{"vmacc", 1}, {"pte", 1}});
    } else if (s == "irq") {
      irq = true;
      paged = g.chance(1, 3);
      W({{"alu", 3}, {"mem", 5}, {"branch", 4}, {"loop", 4}, {"timer", 6}, {"soft", 4}, {"extirq", 3}, {"storm", 4}, {"irqctl", 5}, {"mode", 2}, {"csr", 4}, {"trap", 1}, {"amo", 2}, {"call", 2}, {"ext", 3}, {"uart", 1}});
      if (paged) W({{"vmacc", 1}, {"pte", 1}});
    } else if (s == "vm") {
      paged = true;
      W({{"alu", 2}, {"mem", 8}, {"vmacc", 1}, {"pte", 8}, {"satp", 4}, {"status", 3}, {"mode", 4}, {"mprv", 2}, {"trap", 4}, {"branch", 2}, {"loop", 2}, {"amo", 2}, {"stream", 1}, {"call", 1}});
      irq = g.chance(1, 6);
      if (irq) W({{"timer", 1}});
    } else if (s == "mmio") {
      W({{"alu", 3}, {"mem", 4}, {"branch", 4}, {"loop", 1}, {"uart", 4}, {"ext", 10}, {"timer", 3}, {"mode", 1}, {"dma", 2}});
      irq = g.chance(1, 3);
      if (irq) W({{"extirq", 2}, {"irqctl", 1}});
      paged = g.chance(1, 4);
    } else if (s == "smc") {
      W({{"alu", 3}, {"mem", 4}, {"smc", 10}, {"smcfar", 10}, {"loop", 2}, {"branch", 2}, {"call", 2}, {"stream", 2}});
      paged = g.chance(1, 4);
      if (paged) W({{"mode", 1}});
    } else if (s == "learn") {
      static const char *ks[] = {"hfix", "hper", "hcall", "hdeep", "hind", "hnest", "hcorr"};
      learn = ks[g.below(7)];
      for (auto k : ks) if (p.opts.find(k) != std::string::npos) learn = k;
      W({{learn.c_str(), 1}});
    } else if (s == "pace") {
      W({{"pind", 1}, {"pdep", 1}, {"ptwo", 1}, {"pmul", 1}, {"pmuld", 1}, {"pdivd", 1}, {"pover", 1}, {"pwin", 1}, {"pld", 1}, {"pchase", 1}, {"pst", 1}, {"pfwd", 1}, {"pbr", 1}, {"pmiss", 1}, {"pmissd", 1}});
    } else if (s == "dma") {
      irq = g.chance(1, 2);
      W({{"alu", 2}, {"mem", 4}, {"dma", 8}, {"stream", 2}, {"branch", 2}});
      if (irq) W({{"irqctl", 1}, {"timer", 1}});
    }
    if (p.opts.find("nodev") != std::string::npos)
      for (const char *k : {"timer", "ext", "extirq", "dma"}) wt[k] = 0;
    // swarm: switch off a random third of the optional kinds
    if (s != "core" && s != "learn" && s != "pace" && p.opts.find("noswarm") == std::string::npos)
      for (auto &x : wt)
        if (x.first != "alu" && x.first != "vmacc" && g.chance(1, 5)) x.second = 0;
    span = (uint32_t[]){4, 16, 64, 256, 500}[g.below(5)];
    use_asid = g.chance(1, 2);
    if (g.chance(1, 2)) { asid[0] = g.below(512); asid[1] = asid[0] ^ 1u << g.below(9); }
    deleg8 = g.chance(1, 6);
    vect = g.chance(1, 3);
    medeleg = 0;
    for (int b : {2, 12, 13, 15}) if (g.chance(1, 2)) medeleg |= 1u << b;
    if (deleg8) medeleg |= 1u << 8;
    shadow = g.chance(1, 2);
    mideleg = 0x222;
    if (g.chance(1, 3)) mideleg |= (uint32_t)(g.next() & 0x880);
  }

  // ---- long regular loops: what a predictor and the caches can learn --------
  void pad(int n) {
    static const uint16_t t[][2] = {{0, 0}, {0x20, 0}, {0, 4}, {0, 6}, {0, 7}, {0, 3}, {0, 1}, {0, 5}};
    for (int i = r.below(n + 1); i > 0; i--) {
      int d = 9 + r.below(6), x = 9 + r.below(6), y = 9 + r.below(6), k = r.below(8);
      if (r.chance(1, 12)) a.e(Asm::R(1, y, x, r.below(2), d)); // multiplication
      else if (r.chance(1, 12)) a.lw(d, 2, (int)r.below(32) * 4);
      else if (r.chance(1, 12)) a.sw(x, 2, (int)r.below(32) * 4);
      else a.e(Asm::R(t[k][0], y, x, t[k][1], d));
    }
  }
  // Several hundred passes over a body whose branches are regular.  Counter
  // x27, inner counter x26, pattern x24/x25, constants x18..x21.
  void hot_item(const std::string &kind) {
    static const uint32_t f3s[] = {0, 1, 4, 5, 6, 7};
    a.li(18, 5); a.li(19, 5); a.li(20, 9); a.li(21, 0xfffffff0u);
    int period = 2 + r.below(7);
    a.li(24, kind == "hcorr" ? (uint32_t)r.next() | 1 : r.chance(1, 3) ? 1 : 1 + r.below((1u << period) - 2)); // bits taken in turn
    if (r.chance(1, 2)) for (int i = r.below(14); i > 0; i--) a.e(0x13); // move the body about
    a.li(27, kind == "hcall" ? 200 : 300);
    int top = a.label();
    a.bind(top);
    int n = 1 + r.below(4), fa = r.below(NFN), fb = r.below(NFN);
    if (kind == "hcall") n = 3 + r.below(2); // some function is called from two places
    for (int i = 0; i < n; i++) {
      pad(4);
      if (kind == "hfix") {
        int l = a.label();
        a.br(f3s[r.below(6)], 18 + r.below(4), 18 + r.below(4), l);
        pad(3);
        if (r.chance(1, 3)) { int m = a.label(); a.jal(0, m); a.bind(l); pad(2); a.bind(m); }
        else a.bind(l);
      } else if (kind == "hper") { // one bit of a rotating pattern
        int l = a.label();
        a.e(Asm::I(1, 24, 7, 25, 0x13));
        if (i == 0) { // rotate
          a.e(Asm::I(1, 24, 5, 24, 0x13));
          a.e(Asm::I(period - 1, 25, 1, 22, 0x13));
          a.e(Asm::R(0, 22, 24, 6, 24));
        }
        a.br(r.below(2), 25, 0, l);
        a.addi(23, 23, 1);
        pad(3);
        a.bind(l);
      } else if (kind == "hcall") {
        a.jal_to(1, FN + (r.chance(1, 2) ? fa : fb) * 128);
      } else if (kind == "hdeep") {
        a.li(23, 2 + r.below(5));
        a.addi(25, 3, 0x7f0);
        a.jal_to(1, FN + NFN * 128);
        n = 1;
      } else if (kind == "hcorr") { // one coin decides several branches
        if (i == 0) {
          for (int k = 0; k < 2; k++) {
            static const int sh[] = {13, 17, 5};
            for (int q = 0; q < 3; q++) { a.e(Asm::I(sh[q], 24, q == 1 ? 5 : 1, 22, 0x13)); a.e(Asm::R(0, 22, 24, 4, 24)); }
          }
          a.e(Asm::I(1, 24, 7, 25, 0x13));
          n = 4;
        }
        int l = a.label();
        a.br(r.below(2), 25, 0, l);
        pad(2);
        a.addi(23, 23, 1);
        a.bind(l);
      } else if (kind == "hind") { // always to the same place
        int skip = r.below(6);
        a.auipc(6, 0);
        a.jalr(0, 6, 8 + skip * 4);
        for (int k = 0; k < skip; k++) a.e(alu_enc(9, 10, 11));
      } else { // hnest: an inner loop of fixed length
        int in = a.label();
        a.li(26, 2 + r.below(5));
        a.bind(in);
        pad(4);
        a.addi(26, 26, -1);
        a.br(1, 26, 0, in);
        n = std::min(n, 2);
      }
    }
    pad(3);
    a.addi(27, 27, -1);
    a.br(1, 27, 0, top);
  }

  uint32_t cold = 0;
  // A loop of n alike instructions and what goes with them; how long a pass
  // takes once the loop is warm is compared with what the dependences allow.
  void pace_item(const std::string &kind) {
    int n = 16 + 4 * r.below(8);
    static const uint16_t t[][2] = {{0, 0}, {0x20, 0}, {0, 4}, {0, 6}, {0, 7}, {0, 3}, {0, 2}};
    auto op = [&](int d, int x, int y) { auto &o = t[r.below(7)]; a.e(Asm::R(o[0], y, x, o[1], d)); };
    auto fresh = [&](int i) { return 5 + i % 12; };
    auto con = [&] { return 18 + (int)r.below(4); };
    for (int i = 18; i < 22; i++) a.li(i, (uint32_t)r.next() | 1);
    uint32_t self = 0x100 + r.below(100) * 4; // a word of the second region that holds its own address
    a.addi(9, 3, (int)self); a.sw(9, 3, (int)self);
    if (!cold) cold = 1 + r.below(40);
    a.li(23, 0x80c00000u + cold++ * 0x20000u); // a stretch no other loop touches
    if (r.chance(1, 2)) for (int i = r.below(14); i > 0; i--) a.e(0x13);
    a.li(27, 60);
    int top = a.label(), out = a.label();
    a.bind(top);
    if (kind == "pind") for (int i = 0; i < n; i++) op(fresh(i), con(), con());
    else if (kind == "pdep") for (int i = 0; i < n; i++) op(9, 9, con());
    else if (kind == "ptwo") for (int i = 0; i < n; i++) op(9 + i % 2, 9 + i % 2, con());
    else if (kind == "pmul") for (int i = 0; i < n; i++) a.e(Asm::R(1, con(), con(), r.below(4), fresh(i)));
    else if (kind == "pmuld") for (int i = 0; i < n; i++) a.e(Asm::R(1, con(), 9, r.below(4), 9));
    else if (kind == "pdivd") { n = 4; for (int i = 0; i < n; i++) a.e(Asm::R(1, con(), 9, 4 + r.below(4), 9)); }
    else if (kind == "pover") { n = 16 + 4 * r.below(3); a.e(Asm::R(1, 19, 18, 4 + r.below(4), 22)); for (int i = 0; i < n; i++) op(fresh(i), con(), con()); }
    else if (kind == "pwin") { // waiting instructions between the division and the independent ones
      n = 16 + 4 * r.below(2);
      a.e(Asm::R(1, 19, 18, 4 + r.below(4), 22));
      for (int i = 4 + r.below(3); i > 0; i--) op(22, 22, con());
      for (int i = 0; i < n; i++) op(fresh(i), con(), con());
    }
    else if (kind == "pld") for (int i = 0; i < n; i++) a.load((uint32_t[]){0, 1, 2, 4, 5}[r.below(5)], fresh(i), 2, (int)r.below(64) * 4);
    else if (kind == "pchase") for (int i = 0; i < n; i++) a.lw(9, 9, 0);
    else if (kind == "pst") for (int i = 0; i < n; i++) a.store(r.below(3), con(), 2, (int)r.below(64) * 4);
    else if (kind == "pfwd") { n = 8; for (int i = 0; i < n; i++) { a.sw(9, 2, (int)(i * 4)); a.lw(9, 2, (int)(i * 4)); } }
    else if (kind == "pbr") for (int i = 0; i < n; i++) { int l = a.label(); a.br(i & 1, 0, i & 2 ? 18 : 0, l); op(fresh(i), con(), con()); a.bind(l); }
    else if (kind == "pmissd") { // each line's address waits for the one before
      n = 2;
      for (int i = 0; i < n; i++) { a.lw(9, 23, 0); a.e(Asm::R(0, 9, 23, 7, 9)); a.e(Asm::R(0x20, 9, 9, 0, 9)); a.add(23, 23, 9); a.addi(23, 23, 64); }
    }
    else { // pmiss: lines never touched before
      n = 8;
      for (int i = 0; i < n; i++) a.lw(fresh(i), 23, i * 64);
      a.addi(23, 23, n * 64);
    }
    a.addi(27, 27, -1);
    img.paces.push_back({kind, a.pc(), (uint32_t)n});
    a.br(1, 27, 0, top);
    a.bind(out);
  }

  void item(const std::string &k) {
    if (k[0] == 'h') hot_item(k);
    else if (k[0] == 'p' && p.scenario == "pace") pace_item(k);
    else if (k == "alu") alu(3 + r.below(10));
    else if (k == "fp") fp_item();
    else if (k == "mem") mem_item(2 + r.below(7));
    else if (k == "stream") stream();
    else if (k == "set") set_item();
    else if (k == "thrash") thrash_item();
    else if (k == "pileup") pileup_item();
    else if (k == "amo") amo_item();
    else if (k == "branch") branch_item();
    else if (k == "loop") loop_item();
    else if (k == "call") call_item();
    else if (k == "recurse") recurse_item();
    else if (k == "far") far_item();
    else if (k == "jump") jump_item();
    else if (k == "csr") csr_item();
    else if (k == "trap") trap_item();
    else if (k == "mode") mode_item();
    else if (k == "status") status_item();
    else if (k == "pte") pte_item();
    else if (k == "satp") satp_item();
    else if (k == "mprv") mprv_item();
    else if (k == "smc") smc_item();
    else if (k == "smcfar") smc_far_item();
    else if (k == "uart") uart_item();
    else if (k == "ext") ext_item();
    else if (k == "timer") timer_item();
    else if (k == "soft") soft_irq_item();
    else if (k == "extirq") ext_irq_item();
    else if (k == "storm") storm_item();
    else if (k == "irqctl") irq_ctl_item();
    else if (k == "dma") dma_item();
    else if (k == "fence") { if (r.chance(1, 2)) a.fence(); else a.fencei(); }
  }

  Image run() {
    fma = p.opts.find("fma") != std::string::npos;
    weights();
    handlers();
    functions();
    far_pads();
    tables();
    // data
    Rng q(p.seed ^ 0xda7a);
    for (uint32_t b : {D0, D1})
      for (uint32_t k = 0; k < 12; k++)
        for (uint32_t i = 0; i < 512; i++) put(b + k * 0x4000 + i * 4, (uint32_t)q.next());
    for (uint32_t i = 0; i < 0x1400; i += 4) put(DMASRC + i, (uint32_t)q.next());
    // boot
    Asm b(0x80000000u);
    b.li(31, HM | (vect ? 1 : 0)); b.csrw(0x305, 31);
    b.li(31, HS | (vect ? 1 : 0)); b.csrw(0x105, 31);
    b.li(31, medeleg); b.csrw(0x302, 31);
    b.li(31, mideleg); b.csrw(0x303, 31);
    b.li(31, 0x1fd0e000); b.li(30, 0x7fffffff); b.sw(30, 31, 12);
    if (paged) { b.li(31, satp(0)); b.csrw(0x180, 31); b.sfence(); b.li(31, 1u << 18); b.csrs(0x300, 31); }
    if (irq) {
      b.li(31, (uint32_t)(g.next() & 0xaaa) | 0x880); b.csrw(0x304, 31);
      b.li(31, 0xa); b.csrs(0x300, 31);
    }
    for (int i = 5; i < 26; i++) b.li2(i, (uint32_t)g.next() >> (g.chance(1, 4) ? g.below(32) : 0));
    b.li2(2, D0); b.li2(3, D1); b.li2(4, paged ? V_POOL : D0);
    b.jal_to(0, BODY);
    b.link();
    put(0x80000000u, b.w);
    // body
    std::vector<std::string> names;
    std::vector<int> ws;
    int tot = 0;
    for (auto &x : wt) if (x.first != "vmacc" && x.second > 0) { names.push_back(x.first); ws.push_back(x.second); tot += x.second; }
    const int items = p.scenario == "learn" ? std::min(p.nitems, learn == "hcall" ? 6 : 4) : p.scenario == "pace" ? std::min(p.nitems, 10) : p.nitems;
    for (int i = 0; i < items; i++) {
      r = Rng(p.seed * 1000003u + (uint64_t)i * 7919u + 5);
      int z = r.below(tot), k = 0;
      while (z >= ws[k]) z -= ws[k++];
      img.item_names.push_back(names[k]);
      if (p.drop.count(i)) continue;
      item(names[k]);
    }
    // epilogue: back to machine mode if possible, then read everything back
    r = Rng(p.seed ^ 0xe11);
    if (!(mode == 0 && deleg8)) { a.addi(17, 0, 3); a.ecall(); mode = 3; }
    for (int base : {2, 3}) {
      a.addi(5, base, 0);
      a.addi(27, 0, 24);
      int top = a.label();
      a.bind(top);
      a.lw(6, 5, 0); a.lw(7, 5, 4); a.add(8, 8, 6); a.e(Asm::R(0, 7, 8, 4, 8));
      a.addi(5, 5, 8);
      a.addi(27, 27, -1);
      a.br(1, 27, 0, top);
      a.addi(5, base, 0);
      a.lui(9, 0x4000);
      a.addi(27, 0, 12);
      top = a.label();
      a.bind(top);
      a.lw(6, 5, 0); a.lw(7, 5, 32); a.lw(10, 5, 64); a.add(8, 8, 6); a.e(Asm::R(0, 7, 8, 4, 8)); a.add(8, 8, 10);
      a.add(5, 5, 9);
      a.addi(27, 27, -1);
      a.br(1, 27, 0, top);
    }
    if (can_io() && (wt["ext"] > 0)) { a.li(6, 0x1fb00000u); a.lw(7, 6, 4); }
    a.li(10, r.below(256));
    a.ebreak();
    for (int i = 0; i < 8; i++) a.addi(0, 0, 0);
    a.link();
    put(BODY, a.w);
    uint32_t top = 0;
    for (auto &x : mem) if (x.first > top) top = x.first;
    img.words.assign((top - 0x80000000u) / 4 + 1, 0);
    for (auto &x : mem) img.words[(x.first - 0x80000000u) / 4] = x.second;
    img.features = std::string(paged ? "paged " : "bare ") + (irq ? "irq " : "") + (vect ? "vectored " : "") + (deleg8 ? "deleg8 " : "") + learn;
    img.learn = learn;
    return img;
  }
};
} // namespace

Image generate(const Plan &p) {
  Gen g(p);
  return g.run();
}

void make_env(const Plan &p, AxiEnv &env, std::vector<Fault> &faults) {
  const uint64_t es = p.envseed ? p.envseed : p.seed;
  env.seed = es ^ 0xa51;
  Rng r(es ^ 0xe4b);
  if (p.env == "calm") {
    for (auto &x : env.prof) x = PortProfile{16, 16, 100, 0};
    return;
  }
  for (int i = 0; i < NPORT; i++) {
    auto &x = env.prof[i];
    switch (r.below(6)) {
    case 0: x = {1, 4, 100, 0}; break;
    case 1: x = {16, 64, 100, 0}; break;
    case 2: x = {1, 200, 80, 50}; break;
    case 3: x = {200, 800, 100, 0}; break;
    case 4: x = {8, 40, 25, 30}; break;
    default: x = {1, 400, 60, 60}; break;
    }
  }
  if (p.env == "swarm") return;
  if (p.env == "slow") { // every access takes the same long time
    for (auto &x : env.prof) x = PortProfile{1000, 1000, 100, 0};
    return;
  }
  // faulty: explicit, individually removable faults
  int n = 4 + r.below(20);
  for (int i = 0; i < n; i++) {
    Fault f;
    f.port = r.below(NPORT);
    if (r.chance(1, 2)) {
      f.kind = "delay";
      f.at = r.below(f.port == P_IC || f.port == P_DR ? 150 : 40);
      f.len = r.chance(1, 4) ? 8000 + r.below(30000) : 200 + r.below(4000);
    } else {
      f.kind = "stall";
      f.at = r.below(80000);
      f.len = r.chance(1, 4) ? 4000 + r.below(20000) : 50 + r.below(2000);
    }
    faults.push_back(f);
  }
  for (int i = 0; i < n; i++) {
    if (p.fdrop.count(i)) continue;
    auto &f = faults[i];
    if (f.kind == "delay") env.delay[f.port][f.at] += f.len;
    else env.stall[f.port].push_back({f.at, f.len});
  }
}
} // namespace vsim
