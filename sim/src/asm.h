#pragma once
#include <cstdint>
#include <vector>
namespace vsim {
// Tiny assembler for generated guest programs.
struct Asm {
  uint32_t base;
  std::vector<uint32_t> w;
  struct Fix { size_t at; int label; bool jal; };
  std::vector<Fix> fixes;
  std::vector<int64_t> labels;
  explicit Asm(uint32_t b) : base(b) {}
  uint32_t pc() const { return base + (uint32_t)w.size() * 4; }
  void e(uint32_t x) { w.push_back(x); }
  static uint32_t R(uint32_t f7, int rs2, int rs1, uint32_t f3, int rd, uint32_t op = 0x33) {
    return f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op;
  }
  static uint32_t I(int imm, int rs1, uint32_t f3, int rd, uint32_t op) {
    return (uint32_t)(imm & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op;
  }
  static uint32_t S(int imm, int rs2, int rs1, uint32_t f3) {
    return (uint32_t)(imm >> 5 & 0x7f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (uint32_t)(imm & 31) << 7 | 0x23;
  }
  static uint32_t B(int imm, int rs2, int rs1, uint32_t f3) {
    uint32_t u = (uint32_t)imm;
    return (u >> 12 & 1) << 31 | (u >> 5 & 0x3f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (u >> 1 & 0xf) << 8 | (u >> 11 & 1) << 7 | 0x63;
  }
  static uint32_t J(int imm, int rd) {
    uint32_t u = (uint32_t)imm;
    return (u >> 20 & 1) << 31 | (u >> 1 & 0x3ff) << 21 | (u >> 11 & 1) << 20 | (u >> 12 & 0xff) << 12 | rd << 7 | 0x6f;
  }
  void addi(int rd, int rs, int imm) { e(I(imm, rs, 0, rd, 0x13)); }
  void lui(int rd, uint32_t hi) { e((hi & 0xfffff000u) | rd << 7 | 0x37); }
  void auipc(int rd, uint32_t hi) { e((hi & 0xfffff000u) | rd << 7 | 0x17); }
  void li(int rd, uint32_t v) {
    uint32_t hi = (v + 0x800) & 0xfffff000u;
    if (hi == 0) { addi(rd, 0, (int)v); return; }
    lui(rd, hi);
    if (v - hi) addi(rd, rd, (int)(v - hi));
  }
  void li2(int rd, uint32_t v) { // always two instructions
    uint32_t hi = (v + 0x800) & 0xfffff000u;
    lui(rd, hi);
    addi(rd, rd, (int)(v - hi));
  }
  void add(int rd, int a, int b) { e(R(0, b, a, 0, rd)); }
  void load(uint32_t f3, int rd, int rs, int imm) { e(I(imm, rs, f3, rd, 0x03)); }
  void store(uint32_t f3, int rs2, int rs1, int imm) { e(S(imm, rs2, rs1, f3)); }
  void lw(int rd, int rs, int imm) { load(2, rd, rs, imm); }
  void sw(int rs2, int rs1, int imm) { store(2, rs2, rs1, imm); }
  void csr(uint32_t f3, int rd, uint32_t num, int rs1) { e(num << 20 | rs1 << 15 | f3 << 12 | rd << 7 | 0x73); }
  void csrw(uint32_t num, int rs) { csr(1, 0, num, rs); }
  void csrr(int rd, uint32_t num) { csr(2, rd, num, 0); }
  void csrs(uint32_t num, int rs) { csr(2, 0, num, rs); }
  void csrc(uint32_t num, int rs) { csr(3, 0, num, rs); }
  void jalr(int rd, int rs, int imm) { e(I(imm, rs, 0, rd, 0x67)); }
  void amo(uint32_t fn, int rd, int rs1, int rs2) { e(fn << 27 | rs2 << 20 | rs1 << 15 | 2 << 12 | rd << 7 | 0x2f); }
  void ecall() { e(0x73); }
  void ebreak() { e(0x00100073); }
  void mret() { e(0x30200073); }
  void sret() { e(0x10200073); }
  void sfence(int rs1 = 0, int rs2 = 0) { e(R(9, rs2, rs1, 0, 0, 0x73)); }
  void fencei() { e(0x0000100f); }
  void fence() { e(0x0ff0000f); }
  int label() { labels.push_back(-1); return (int)labels.size() - 1; }
  void bind(int l) { labels[l] = (int64_t)w.size(); }
  void br(uint32_t f3, int rs1, int rs2, int l) { fixes.push_back({w.size(), l, false}); e(B(0, rs2, rs1, f3)); }
  void jal(int rd, int l) { fixes.push_back({w.size(), l, true}); e(J(0, rd)); }
  void jal_to(int rd, uint32_t target) { e(J((int)(target - pc()), rd)); }
  void link() {
    for (auto &f : fixes) {
      int off = (int)((labels[f.label] - (int64_t)f.at) * 4);
      uint32_t x = w[f.at];
      w[f.at] = f.jal ? J(off, x >> 7 & 31) : B(off, x >> 20 & 31, x >> 15 & 31, x >> 12 & 7);
    }
    fixes.clear();
  }
};
} // namespace vsim
