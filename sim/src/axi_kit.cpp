#include "AXI_Interconnect.h"
#include "PhysMemory.h"
#include "axi_env.h"
#include "config.h"

extern long long sim_time;

namespace vsim {
AxiEnv &axi_env() {
  static AxiEnv e;
  return e;
}
void (*on_mem_write)(int, uint32_t, uint32_t, const uint32_t *, uint64_t) =
    nullptr;
void (*on_mem_read)(int, uint32_t, uint32_t) = nullptr;
void (*on_tick)() = nullptr;
void (*on_protocol)(const char *, int, uint32_t) = nullptr;

bool AxiEnv::ready(int port, uint64_t tick) {
  for (auto &w : stall[port])
    if (tick >= w.first && tick < w.first + w.second) {
      stall_ticks_hit++;
      return false;
    }
  if (prof[port].ready_num >= 100)
    return true;
  return mix64(seed ^ mix64(0x5ead0 + port) ^ tick) % 100 <
         prof[port].ready_num;
}
uint64_t AxiEnv::latency(int port, uint64_t idx) {
  const auto &p = prof[port];
  uint64_t l = p.lat_min + mix64(seed ^ mix64(0x1a7e0 + port) ^ idx) %
                               (p.lat_max - p.lat_min + 1);
  auto it = delay[port].find(idx);
  if (it != delay[port].end()) {
    l += it->second;
    delays_fired++;
  }
  return l;
}
} // namespace vsim

namespace axi_interconnect {
using vsim::axi_env;

// The peripheral master learns of an accept one CPU cycle later and keeps its
// request up until then, so its ports take at most one request per two CPU
// cycles (ready drops after each accept).
static long long extra_busy_until[2] = {0, 0};
static bool extra_gate(int which) { return sim_time >= extra_busy_until[which]; }

bool AXI_LLCConfig::valid() const { return axi_env().llc_tables; }
uint32_t AXI_LLCConfig::set_count() const {
  return (uint32_t)(size_bytes / line_bytes / ways);
}

static int wport(int i) { return i == MASTER_DCACHE_W ? vsim::P_DW : vsim::P_PW; }

static uint32_t load_word(uint32_t a) {
  if (pmem_is_ram_addr(a & ~3u, 4))
    return pmem_ram_ptr()[((a & ~3u) - PMEM_RAM_BASE) >> 2];
  return pmem_read(a & ~3u);
}
static uint8_t load_byte(uint32_t a) {
  return (uint8_t)(load_word(a) >> ((a & 3) * 8));
}

void AXI_Interconnect::init() {
  for (int i = 0; i < NUM_READ_MASTERS; i++) {
    read_ports[i] = {};
    rq[i].clear();
    r_shown[i] = -1;
    req_ready_r[i] = false;
    read_req_accepted[i] = false;
  }
  for (int i = 0; i < NUM_WRITE_MASTERS; i++) {
    write_ports[i] = {};
    wq[i].clear();
    w_shown[i] = -1;
    w_req_ready_r[i] = false;
    write_req_accepted[i] = false;
  }
}

// Pick the response to show: oldest due one, or (reorder) a younger due one
// with a different id. -1 when nothing is due.
static int pick(const std::deque<Txn> &q, uint64_t tick, int port) {
  int first = -1;
  auto &env = axi_env();
  for (int k = 0; k < (int)q.size(); k++) {
    if (!q[k].served || q[k].due_at > tick)
      continue;
    bool blocked = false;
    for (int j = 0; j < k; j++)
      if (q[j].id == q[k].id)
        blocked = true; // same id stays in order
    if (blocked)
      continue;
    if (k > 0 && env.prof[port].reorder == 0)
      break;
    if (first < 0)
      first = k;
    else if (vsim::mix64(env.seed ^ tick ^ (uint64_t)k * 77) % 100 <
             env.prof[port].reorder) {
      first = k;
      break;
    }
  }
  if (first > 0)
    env.reordered++;
  return first;
}

void AXI_Interconnect::comb_outputs() {
  for (int i = 0; i < NUM_READ_MASTERS; i++) {
    auto &p = read_ports[i];
    p.req.ready = req_ready_r[i];
    p.req.accepted = read_req_accepted[i];
    p.req.accepted_id = read_req_accepted_id[i];
    if (p.resp.valid && p.resp.ready && r_shown[i] >= 0) {
      rq[i].erase(rq[i].begin() + r_shown[i]);
      r_shown[i] = -1;
    }
    if (r_shown[i] < 0)
      r_shown[i] = pick(rq[i], tick, i);
    if (r_shown[i] >= 0) {
      const Txn &t = rq[i][r_shown[i]];
      p.resp.valid = true;
      p.resp.id = t.id;
      p.resp.data = t.data;
    } else {
      p.resp.valid = false;
      p.resp.id = 0;
      p.resp.data.clear();
    }
  }
  for (int i = 0; i < NUM_WRITE_MASTERS; i++) {
    auto &p = write_ports[i];
    p.req.ready = w_req_ready_r[i];
    p.req.accepted = write_req_accepted[i];
    if (p.resp.valid && p.resp.ready && w_shown[i] >= 0) {
      wq[i].erase(wq[i].begin() + w_shown[i]);
      w_shown[i] = -1;
    }
    if (w_shown[i] < 0)
      w_shown[i] = pick(wq[i], tick, wport(i));
    if (w_shown[i] >= 0) {
      p.resp.valid = true;
      p.resp.id = wq[i][w_shown[i]].id;
    } else {
      p.resp.valid = false;
      p.resp.id = 0;
    }
  }
}

static void admit(Txn &t, int port, uint64_t tick, uint64_t idx) {
  auto &env = axi_env();
  t.seqno = idx;
  uint64_t lat = env.latency(port, idx);
  // Memory is touched somewhere between accept and response.
  t.serve_at = tick + vsim::mix64(env.seed ^ (idx * 131 + port)) % (lat + 1);
  t.due_at = tick + lat;
  env.txns[port]++;
  env.mixin(((uint64_t)port << 56) ^ ((uint64_t)t.addr << 8) ^ t.id);
  env.mixin(tick);
}

// Rules every master keeps, whatever the timing.
struct Offer { // what a data-side port showed in the last tick
  bool valid = false, taken = false;
  uint32_t addr = 0;
};
static Offer last_offer[vsim::NPORT];
static void rule(const char *what, int port, uint32_t addr) {
  if (vsim::on_protocol)
    vsim::on_protocol(what, port, addr);
}
// Fetches may be dropped by a redirect, and the device port notices an accept
// one cycle late. A waiting read may give way to one of a lower slot, and a
// waiting write-back may still take in stores to its line.
static void offered(int port, bool valid, uint32_t addr, bool taken) {
  if (port != vsim::P_DR && port != vsim::P_DW)
    return;
  Offer &o = last_offer[port];
  if (o.valid && !o.taken) {
    if (!valid)
      rule("a request withdrawn before it was accepted", port, o.addr);
    else if (port == vsim::P_DW && o.addr != addr)
      rule("a write-back changed to another line before it was accepted", port, o.addr);
  }
  o.valid = valid, o.taken = taken, o.addr = addr;
}
static void judge_request(int port, const Txn &t, const std::deque<Txn> &same, const std::deque<Txn> *writes, uint64_t tick) {
  const bool ram = pmem_is_ram_addr(t.addr, 4) && pmem_is_ram_addr(t.addr + t.bytes - 4, 4);
  auto answered = [&](const Txn &x) { return x.served && x.due_at <= tick; };
  if (port == vsim::P_PR || port == vsim::P_PW) {
    if (t.bytes > 4)
      rule("a device access wider than a word", port, t.addr);
    else if (t.addr % t.bytes)
      rule("a misaligned device access", port, t.addr);
    if (ram)
      rule("ordinary memory accessed through the device port", port, t.addr);
    for (auto &x : same)
      if (!answered(x))
        rule("a second device access before the first was answered", port, t.addr);
    return;
  }
  if (t.bytes != 64 || t.addr % 64)
    rule("a memory transfer that is not one aligned line", port, t.addr);
  if (port == vsim::P_IC)
    return;
  if (!ram && port == vsim::P_DW)
    rule("a write-back outside memory", port, t.addr);
  for (auto &x : same) {
    if (answered(x))
      continue;
    if (x.id == t.id && port == vsim::P_DR)
      rule("two outstanding reads with one id", port, t.addr);
    if (x.addr / 64 == t.addr / 64)
      rule("a line requested twice at the same time", port, t.addr);
  }
  if (writes)
    for (auto &x : *writes)
      if (x.addr / 64 == t.addr / 64 && !answered(x))
        rule("a line read while its write-back is outstanding", port, t.addr);
}

void AXI_Interconnect::comb_inputs() {
  auto &env = axi_env();
  for (int i = 0; i < NUM_READ_MASTERS; i++) {
    auto &p = read_ports[i];
    read_req_accepted[i] = false;
    if (p.req.valid && !req_ready_r[i])
      env.backpressured++;
    if (p.req.valid && req_ready_r[i] && (int)rq[i].size() < MAX_OUTSTANDING &&
        (i != MASTER_EXTRA_R || extra_gate(0))) {
      if (i == MASTER_EXTRA_R)
        extra_busy_until[0] = sim_time + 2;
      Txn t;
      t.addr = p.req.addr;
      t.bytes = (uint32_t)p.req.total_size + 1;
      t.id = p.req.id;
      judge_request(i, t, rq[i], i == MASTER_DCACHE_R ? &wq[MASTER_DCACHE_W] : nullptr, tick);
      admit(t, i, tick, r_count[i]++);
      rq[i].push_back(t);
      env.max_outstanding[i] =
          std::max<uint32_t>(env.max_outstanding[i], rq[i].size());
      read_req_accepted[i] = true;
      read_req_accepted_id[i] = p.req.id;
    }
    offered(i, p.req.valid, p.req.addr, read_req_accepted[i]);
    req_ready_r[i] = env.ready(i, tick);
  }
  for (int i = 0; i < NUM_WRITE_MASTERS; i++) {
    auto &p = write_ports[i];
    const int port = wport(i);
    write_req_accepted[i] = false;
    if (p.req.valid && !w_req_ready_r[i])
      env.backpressured++;
    if (p.req.valid && w_req_ready_r[i] && (int)wq[i].size() < MAX_OUTSTANDING &&
        (i != MASTER_EXTRA_W || extra_gate(1))) {
      if (i == MASTER_EXTRA_W)
        extra_busy_until[1] = sim_time + 2;
      Txn t;
      t.addr = p.req.addr;
      t.bytes = (uint32_t)p.req.total_size + 1;
      t.id = p.req.id;
      t.data = p.req.wdata;
      t.strb = p.req.wstrb;
      if (t.bytes <= 64 && t.strb != ~0ull >> (64 - t.bytes))
        rule("a write that does not enable every byte of its transfer", port, t.addr);
      judge_request(port, t, wq[i], nullptr, tick);
      admit(t, port, tick, w_count[i]++);
      wq[i].push_back(t);
      env.max_outstanding[port] =
          std::max<uint32_t>(env.max_outstanding[port], wq[i].size());
      write_req_accepted[i] = true;
    }
    offered(port, p.req.valid, p.req.addr, write_req_accepted[i]);
    w_req_ready_r[i] = env.ready(port, tick);
  }
}

void AXI_Interconnect::seq() {
  auto &env = axi_env();
  for (int i = 0; i < NUM_WRITE_MASTERS; i++)
    for (auto &t : wq[i])
      if (!t.served && tick >= t.serve_at) {
        t.served = true;
        if (vsim::on_mem_write)
          vsim::on_mem_write(wport(i), t.addr, t.bytes, t.data.w, t.strb);
        for (uint32_t b = 0; b < t.bytes && b < 64; b++) {
          if (!((t.strb >> b) & 1))
            continue;
          uint32_t a = t.addr + b;
          uint32_t sh = (a & 3) * 8;
          uint32_t v = ((t.data.w[b >> 2] >> ((b & 3) * 8)) & 0xff) << sh;
          uint32_t w = load_word(a);
          w = (w & ~(0xffu << sh)) | v;
          if (pmem_is_ram_addr(a & ~3u, 4)) {
            pmem_ram_ptr()[((a & ~3u) - PMEM_RAM_BASE) >> 2] = w;
          } else if (i == MASTER_EXTRA_W) {
            pmem_write(a & ~3u, w);
          } else {
            env.oob_writes++;
          }
        }
      }
  for (int i = 0; i < NUM_READ_MASTERS; i++)
    for (auto &t : rq[i])
      if (!t.served && tick >= t.serve_at) {
        t.served = true;
        if (vsim::on_mem_read)
          vsim::on_mem_read(i, t.addr, t.bytes);
        if (!pmem_is_ram_addr(t.addr, 4) && i == MASTER_DCACHE_R)
          env.oob_reads++;
        if ((t.addr & 3) == 0 && t.bytes % 4 == 0) {
          for (uint32_t w = 0; w < t.bytes / 4 && w < 16; w++)
            t.data.w[w] = load_word(t.addr + w * 4);
        } else {
          for (uint32_t b = 0; b < t.bytes && b < 64; b++)
            t.data.w[b >> 2] |= (uint32_t)load_byte(t.addr + b) << ((b & 3) * 8);
        }
      }
  tick++;
  if (vsim::on_tick)
    vsim::on_tick();
}
} // namespace axi_interconnect
