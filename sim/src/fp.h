#pragma once
// Single-precision arithmetic for the reference model: exact integer
// arithmetic followed by one rounding step. Canonical NaNs, saturating
// conversions. Shares nothing with the library the simulator links.
#include <cstdint>

namespace vsim {
namespace fp {
constexpr uint32_t QNAN = 0x7fc00000u;
inline bool nan(uint32_t v) { return (v & 0x7fffffffu) > 0x7f800000u; }
inline bool snan(uint32_t v) { return nan(v) && !(v & 0x400000u); }
inline bool inf(uint32_t v) { return (v & 0x7fffffffu) == 0x7f800000u; }
inline bool zero(uint32_t v) { return (v & 0x7fffffffu) == 0; }

// Whether the magnitude q (with remainder bits half/sticky below it) rounds up.
inline bool up(bool neg, bool odd, bool half, bool sticky, int rm) {
  switch (rm) {
  case 1: return false;
  case 2: return neg && (half || sticky);
  case 3: return !neg && (half || sticky);
  case 4: return half;
  default: return half && (sticky || odd);
  }
}
// Value = m * 2^e, plus something in (0, 2^e) when sticky. m may have any size.
inline uint32_t pack(bool neg, unsigned __int128 m, int e, bool sticky, int rm) {
  const uint32_t s = neg ? 0x80000000u : 0;
  if (!m && !sticky) return s;
  int top = -1;
  for (int i = 127; i >= 0; i--) if (m >> i & 1) { top = i; break; }
  // exponent of the unit in the last place of the result
  int ulp = e + top - 23;
  if (ulp < -149) ulp = -149;
  int sh = ulp - e;
  uint64_t q;
  bool half = false;
  if (sh <= 0) q = (uint64_t)(m << -sh);
  else if (sh > 127) { sticky = sticky || m; q = 0; }
  else {
    q = (uint64_t)(m >> sh);
    half = m >> (sh - 1) & 1;
    sticky = sticky || (m & (((unsigned __int128)1 << (sh - 1)) - 1));
  }
  if (up(neg, q & 1, half, sticky, rm)) q++;
  if (q >> 24) { q >>= 1; ulp++; }
  if (!(q >> 23)) return s | (uint32_t)q;
  int ex = ulp + 23 + 127;
  if (ex >= 255) {
    bool to_inf = rm == 0 || rm == 4 || (rm == 2 && neg) || (rm == 3 && !neg);
    return s | (to_inf ? 0x7f800000u : 0x7f7fffffu);
  }
  return s | (uint32_t)ex << 23 | ((uint32_t)q & 0x7fffff);
}
inline void unpack(uint32_t v, bool &neg, uint64_t &m, int &e) {
  neg = v >> 31;
  int ex = v >> 23 & 255;
  m = v & 0x7fffff;
  if (ex) m |= 0x800000, e = ex - 150; else e = -149;
}
// Sum of two finite values (na,ma*2^ea) and (nb,mb*2^eb); ma, mb below 2^49.
inline uint32_t sum(bool na, uint64_t ma, int ea, bool nb, uint64_t mb, int eb, int rm) {
  if (!ma && !mb) return na == nb ? (na ? 0x80000000u : 0) : rm == 2 ? 0x80000000u : 0;
  if (!ma) return pack(nb, mb, eb, false, rm);
  if (!mb) return pack(na, ma, ea, false, rm);
  if (ea < eb) { bool t = na; na = nb; nb = t; uint64_t u = ma; ma = mb; mb = u; int x = ea; ea = eb; eb = x; }
  // bring the larger exponent down; beyond 70 bits the smaller is only sticky
  int d = ea - eb, e;
  bool sticky = false;
  __int128 x, y;
  if (d <= 70) { x = (__int128)ma << d; y = mb; e = eb; }
  else {
    x = (__int128)ma << 70; y = 0; e = ea - 70;
    sticky = true;
    if (na != nb) x -= 1; // the remainder below then lies in (0,1)
  }
  __int128 s = (na ? -x : x) + (nb ? -y : y);
  if (s == 0 && !sticky) return rm == 2 ? 0x80000000u : 0;
  return pack(s < 0 || (s == 0 && na), (unsigned __int128)(s < 0 ? -s : s), e, sticky, rm);
}
inline uint32_t add(uint32_t a, uint32_t b, int rm) {
  if (nan(a) || nan(b)) return QNAN;
  if (inf(a) && inf(b)) return a == b ? a : QNAN;
  if (inf(a)) return a;
  if (inf(b)) return b;
  bool na, nb; uint64_t ma, mb; int ea, eb;
  unpack(a, na, ma, ea); unpack(b, nb, mb, eb);
  return sum(na, ma, ea, nb, mb, eb, rm);
}
inline uint32_t fma(uint32_t a, uint32_t b, uint32_t c, int rm) {
  if (nan(a) || nan(b) || nan(c)) return QNAN;
  uint32_t s = (a ^ b) & 0x80000000u;
  if (inf(a) || inf(b)) {
    if (zero(a) || zero(b)) return QNAN;
    return inf(c) && (c & 0x80000000u) != s ? QNAN : s | 0x7f800000u;
  }
  if (inf(c)) return c;
  bool na, nb, nc; uint64_t ma, mb, mc; int ea, eb, ec;
  unpack(a, na, ma, ea); unpack(b, nb, mb, eb); unpack(c, nc, mc, ec);
  return sum(s >> 31, ma * mb, ea + eb, nc, mc, ec, rm);
}
inline uint32_t mul(uint32_t a, uint32_t b, int rm) {
  if (nan(a) || nan(b)) return QNAN;
  uint32_t s = (a ^ b) & 0x80000000u;
  if (inf(a) || inf(b)) return zero(a) || zero(b) ? QNAN : s | 0x7f800000u;
  bool na, nb; uint64_t ma, mb; int ea, eb;
  unpack(a, na, ma, ea); unpack(b, nb, mb, eb);
  return pack(s >> 31, (unsigned __int128)ma * mb, ea + eb, false, rm);
}
inline uint32_t div(uint32_t a, uint32_t b, int rm) {
  if (nan(a) || nan(b)) return QNAN;
  uint32_t s = (a ^ b) & 0x80000000u;
  if (inf(a)) return inf(b) ? QNAN : s | 0x7f800000u;
  if (inf(b)) return s;
  if (zero(b)) return zero(a) ? QNAN : s | 0x7f800000u;
  bool na, nb; uint64_t ma, mb; int ea, eb;
  unpack(a, na, ma, ea); unpack(b, nb, mb, eb);
  unsigned __int128 n = (unsigned __int128)ma << 80;
  return pack(s >> 31, n / mb, ea - 80 - eb, n % mb != 0, rm);
}
inline uint32_t sqrt(uint32_t a, int rm) {
  if (nan(a)) return QNAN;
  if (zero(a)) return a;
  if (a >> 31) return QNAN;
  if (inf(a)) return a;
  bool n; uint64_t m; int e;
  unpack(a, n, m, e);
  unsigned __int128 v = m;
  int sh = 70;
  if ((e - sh) & 1) sh++;
  v <<= sh; e -= sh;
  unsigned __int128 r = 0;
  for (int i = 60; i >= 0; i--) {
    unsigned __int128 t = r | (unsigned __int128)1 << i;
    if (t * t <= v) r = t;
  }
  return pack(false, r, e / 2, r * r != v, rm);
}
// -1 less, 0 equal, 1 greater (neither a NaN)
inline int cmp(uint32_t a, uint32_t b) {
  int64_t x = a & 0x7fffffffu, y = b & 0x7fffffffu;
  if (a >> 31) x = -x;
  if (b >> 31) y = -y;
  return x < y ? -1 : x > y;
}
inline uint32_t minmax(uint32_t a, uint32_t b, bool max) {
  if (nan(a)) return nan(b) ? QNAN : b;
  if (nan(b)) return a;
  int c = cmp(a, b);
  if (c == 0) return max ? a & b : a | b;
  return (c < 0) != max ? a : b;
}
inline uint32_t to_int(uint32_t a, bool uns, int rm) {
  const uint32_t hi = uns ? 0xffffffffu : 0x7fffffffu, lo = uns ? 0 : 0x80000000u;
  if (nan(a)) return hi;
  if (inf(a)) return a >> 31 ? lo : hi;
  bool neg; uint64_t m; int e;
  unpack(a, neg, m, e);
  unsigned __int128 q;
  if (e > 40) return neg ? lo : hi;
  if (e >= 0) q = (unsigned __int128)m << e;
  else {
    bool half = false, sticky = false;
    if (-e > 60) { q = 0; sticky = m; }
    else { q = m >> -e; half = m >> (-e - 1) & 1; sticky = m & ((1ull << (-e - 1)) - 1); }
    if (up(neg, q & 1, half, sticky, rm)) q++;
  }
  if (neg) {
    if (uns) return 0;
    return q > 0x80000000u ? lo : 0u - (uint32_t)q;
  }
  return q > hi ? hi : (uint32_t)q;
}
inline uint32_t from_int(uint32_t a, bool uns, int rm) {
  bool neg = !uns && a >> 31;
  uint64_t m = neg ? 0x100000000ull - a : a;
  return pack(neg, m, 0, false, rm);
}
inline uint32_t classify(uint32_t a) {
  bool neg = a >> 31;
  uint32_t ex = a >> 23 & 255, m = a & 0x7fffff;
  if (ex == 255 && m) return m >> 22 ? 1u << 9 : 1u << 8;
  int k = ex == 255 ? 0 : ex ? 1 : m ? 2 : 3;
  return 1u << (neg ? k : 7 - k);
}
// One OP-FP instruction. ok is cleared for encodings the machine does not have.
inline uint32_t op(uint32_t inst, uint32_t a, uint32_t b, bool &ok) {
  const uint32_t f7 = inst >> 25, f3 = inst >> 12 & 7, rs2 = inst >> 20 & 31;
  int rm = f3 == 7 ? 0 : (int)f3; // no frm register: dynamic means nearest-even
  ok = true;
  switch (f7) {
  case 0x10:
    if (f3 == 0) return (a & 0x7fffffffu) | (b & 0x80000000u);
    if (f3 == 1) return (a & 0x7fffffffu) | (~b & 0x80000000u);
    if (f3 == 2) return a ^ (b & 0x80000000u);
    break;
  case 0x14: if (f3 < 2) return minmax(a, b, f3 == 1); break;
  case 0x50:
    if (f3 > 2) break;
    if (nan(a) || nan(b)) return 0;
    return f3 == 2 ? cmp(a, b) == 0 : f3 == 1 ? cmp(a, b) < 0 : cmp(a, b) <= 0;
  case 0x70: if (f3 == 1 && rs2 == 0) return classify(a); break;
  default:
    if (rm > 4) break;
    switch (f7) {
    case 0x00: return add(a, b, rm);
    case 0x04: return add(a, b ^ 0x80000000u, rm);
    case 0x08: return mul(a, b, rm);
    case 0x0c: return div(a, b, rm);
    case 0x2c: if (rs2 == 0) return sqrt(a, rm); break;
    case 0x60: if (rs2 < 2) return to_int(a, rs2 == 1, rm); break;
    case 0x68: if (rs2 < 2) return from_int(a, rs2 == 1, rm); break;
    }
  }
  ok = false;
  return 0;
}
// Fused multiply-add group (only the repository's interpreter has it).
inline uint32_t op3(uint32_t inst, uint32_t a, uint32_t b, uint32_t c, bool &ok) {
  const uint32_t o = inst & 0x7f, f3 = inst >> 12 & 7;
  int rm = f3 == 7 ? 0 : (int)f3;
  ok = rm <= 4 && (inst >> 25 & 3) == 0;
  if (!ok) return 0;
  if (o == 0x4b || o == 0x4f) a ^= 0x80000000u;
  if (o == 0x47 || o == 0x4f) c ^= 0x80000000u;
  return fma(a, b, c, rm);
}
} // namespace fp
} // namespace vsim
