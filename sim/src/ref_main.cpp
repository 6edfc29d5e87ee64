// One simulated run of the repository's sequential executor in lockstep with the
// architectural model. The plan's seed decides the guest program and how far the
// clock moves between instructions (which is when timer interrupts arrive).
#include "RISCV.h"
#include "ref.h"
#include "gen.h"
#include "model.h"
#include <csignal>
#include <cstdarg>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/prctl.h>
#include <unistd.h>

long long sim_time = 0;
void push_oracle_timer(uint32_t) {}

namespace vsim {
static Plan plan;
static Image image;
static std::string result_path;
static std::map<std::string, uint64_t> cnt;
static std::deque<std::string> tail;
static size_t tail_max = 40;
static uint64_t hash_ = 1, timed = 1, commits = 0;
static int exit_code = 0;
static bool emitted = false;
static RefCpu *ref;
static Model m;
constexpr uint32_t A_UART = 0x10000000, A_CLAIM = 0x0c201004, A_TIM = 0x1fd0e000;

static std::string jq(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
static void emit(const char *status, const std::string &kind, const std::string &msg) {
  if (emitted) return;
  emitted = true;
  std::ostringstream o;
  o << "{\"status\":" << jq(status) << ",\"kind\":" << jq(kind) << ",\"msg\":" << jq(msg) << ",\"cycles\":" << sim_time
    << ",\"commits\":" << commits << ",\"exit\":" << exit_code << ",\"hash\":\"" << std::hex << hash_ << "\",\"timed_hash\":\""
    << timed << std::dec << "\",\"features\":" << jq(image.features) << ",\"nitems\":" << image.item_names.size()
    << ",\"nfaults\":0,\"fired\":{\"clock_jump\":" << cnt["clock_jumps"] << "},\"cnt\":{";
  bool first = true;
  for (auto &c : cnt) { o << (first ? "" : ",") << jq(c.first) << ":" << c.second; first = false; }
  o << "}";
  if (strcmp(status, "ok") || plan.opts.find("trace") != std::string::npos) {
    o << ",\"tail\":[";
    for (size_t i = 0; i < tail.size(); i++) o << (i ? "," : "") << jq(tail[i]);
    o << "],\"items\":[";
    for (size_t i = 0; i < image.item_names.size(); i++) o << (i ? "," : "") << jq(image.item_names[i]);
    o << "]";
  }
  o << "}\n";
  std::string s = o.str();
  FILE *f = result_path.empty() ? stderr : fopen(result_path.c_str(), "w");
  if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); }
}
[[noreturn]] static void fail(const char *kind, const char *fmt, ...) {
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  emit("violation", kind, b);
  _exit(3);
}
static void on_crash(int sig) {
  emit("violation", sig == SIGALRM ? "hang" : "crash", "signal " + std::to_string(sig));
  _exit(3);
}
static void on_exit_cb(int code, void *) {
  if (emitted) return;
  emit("violation", "aborted", "the executor stopped by itself with exit code " + std::to_string(code));
  _exit(3);
}
static void parse_kv(const std::string &line) {
  size_t e = line.find('=');
  if (e == std::string::npos) return;
  std::string k = line.substr(0, e), v = line.substr(e + 1);
  if (k == "scenario") plan.scenario = v;
  else if (k == "seed") plan.seed = std::stoull(v);
  else if (k == "nitems") plan.nitems = std::stoi(v);
  else if (k == "opts") plan.opts = v;
  else if (k == "result") result_path = v;
  else if (k == "drop") {
    std::stringstream ss(v);
    std::string t;
    while (std::getline(ss, t, ',')) {
      size_t d = t.find('-');
      int a = std::stoi(t), b = d == std::string::npos ? a : std::stoi(t.substr(d + 1));
      for (int i = a; i <= b; i++) plan.drop.insert(i);
    }
  }
}

static const char *kCsr[] = {"mtvec", "mepc", "mcause", "mie", "mip", "mtval", "mscratch", "mstatus", "mideleg", "medeleg", "sepc",
  "stvec", "scause", "sscratch", "stval", "sstatus", "sie", "sip", "satp", "mhartid", "misa"};

// Architectural state of the executor against the model. Empty: equal.
static std::string compare(const Model &x, bool pc) {
  char b[96];
  const auto &s = ref->state;
  for (int i = 0; i < 32; i++)
    if (s.gpr[i] != x.gpr[i]) { snprintf(b, sizeof b, "x%d executor %08x model %08x", i, s.gpr[i], x.gpr[i]); return b; }
  for (int i = 0; i < C_NUM; i++) {
    uint32_t mask = i == C_MIP ? ~0x80u : ~0u; // the timer line is sampled, not stored
    if ((s.csr[i] ^ x.csr[i]) & mask) { snprintf(b, sizeof b, "%s executor %08x model %08x", kCsr[i], s.csr[i], x.csr[i]); return b; }
  }
  if (pc && s.pc != x.pc) { snprintf(b, sizeof b, "next pc executor %08x model %08x", s.pc, x.pc); return b; }
  if (ref->privilege != x.priv) { snprintf(b, sizeof b, "privilege executor %d model %d", ref->privilege, x.priv); return b; }
  return "";
}

struct Devices {
  uint64_t off = 0, cmp = 0;
  bool meip = false;
  std::string console;
  uint64_t now() const { return (uint64_t)sim_time + off; }
  bool timer_up() const { return now() >= cmp; }
  uint32_t load(uint32_t pa, uint32_t f3) {
    uint32_t v;
    if (pa == A_TIM) v = (uint32_t)now();
    else if (pa == A_TIM + 4) v = (uint32_t)(now() >> 32);
    else if (pa == A_TIM + 8) v = (uint32_t)cmp;
    else if (pa == A_TIM + 12) v = (uint32_t)(cmp >> 32);
    else {
      v = m.rd_mem(pa, 1u << (f3 & 3));
      if (f3 == 0) v = (uint32_t)(int32_t)(int8_t)v;
      if (f3 == 1) v = (uint32_t)(int32_t)(int16_t)v;
    }
    return v;
  }
  void store(uint32_t pa, uint32_t d, uint32_t n) {
    if (pa == A_TIM || pa == A_TIM + 4) {
      uint64_t t = now();
      t = pa == A_TIM ? (t & ~0xffffffffull) | d : (t & 0xffffffffull) | (uint64_t)d << 32;
      off = t - (uint64_t)sim_time;
      return;
    }
    if (pa == A_TIM + 8) { cmp = (cmp & ~0xffffffffull) | d; return; }
    if (pa == A_TIM + 12) { cmp = (cmp & 0xffffffffull) | (uint64_t)d << 32; return; }
    m.wr_mem(pa, d, n);
    if (pa == A_UART) { m.wr_word(A_UART, m.rd_word(A_UART) & ~0xffu); console.push_back((char)d); }
    if (pa == A_UART + 1 && (d & 0xff) == 7) {
      m.wr_word(A_CLAIM, 10);
      m.wr_word(A_UART, m.rd_word(A_UART) & 0xfff0ffffu);
      m.csr[C_MIP] |= 0x800;
    }
    if (pa == A_UART + 1 && (d & 0xff) == 5) m.wr_word(A_UART, (m.rd_word(A_UART) & 0xfff0ffffu) | 0x30000);
    if (pa == A_CLAIM && (d & 0xff) == 10) { m.wr_word(A_CLAIM, 0); m.csr[C_MIP] &= ~0x800u; }
    m.sync_views();
  }
} dev;
} // namespace vsim

using namespace vsim;

int main(int argc, char **argv) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  for (int i = 1; i < argc; i++) parse_kv(argv[i]);
  if (plan.opts.find("fma") == std::string::npos) plan.opts += " fma";
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM}) signal(s, on_crash);
  alarm(60);
  image = generate(plan);
  if (plan.opts.find("trace") != std::string::npos) tail_max = 1000000;
  std::ostringstream console;
  auto *old = std::cout.rdbuf(console.rdbuf());
  static RefCpu cpu{};
  ref = &cpu;
  on_exit(on_exit_cb, nullptr);
  cpu.init(0x80000000u);
  memcpy(cpu.memory, image.words.data(), image.words.size() * 4);
  cpu.uart_print = true;
  cpu.ref_only = true;
  m.alloc();
  m.reset(0x80000000u);
  m.has_fma = true;
  memcpy(m.ram, image.words.data(), image.words.size() * 4);
  for (uint32_t a : {0u, 4u, 8u, 12u, A_UART + 4}) m.io[a] = cpu.load_word(a);
  Rng clk(plan.seed ^ 0xc10c);
  const int pace = clk.below(4);
  uint64_t waited = 0;
  const uint64_t limit = 400000;
  while (true) {
    if (commits >= limit) fail("timeout", "the program did not end within %llu instructions", (unsigned long long)limit);
    m.csr[C_MIP] = (m.csr[C_MIP] & ~0x80u) | (dev.timer_up() ? 0x80 : 0);
    m.sync_views();
    uint32_t mm, ss;
    m.takeable(m.csr[C_MIP], mm, ss);
    const uint32_t pc = m.pc;
    uint32_t ipa, inst = 0;
    if (m.translate(pc, 0, ipa)) inst = m.rd_word(ipa);
    cpu.exec();
    commits++;
    hash_ = mix64(hash_ ^ pc ^ (uint64_t)inst << 32);
    timed = mix64(timed ^ pc ^ (uint64_t)sim_time << 32);
    char b[96];
    snprintf(b, sizeof b, "t%lld pc=%08x inst=%08x priv=%d", sim_time, pc, inst, m.priv);
    tail.push_back(b);
    if (tail.size() > tail_max) tail.pop_front();

    bool taken = false;
    if (mm | ss) {
      bool to_s = !mm;
      uint32_t c = cpu.state.csr[to_s ? C_SCAUSE : C_MCAUSE];
      if ((c >> 31) && (c & 0x7fffffff) < 12 && ((to_s ? ss : mm) >> (c & 31) & 1)) {
        Model t = m;
        t.take_interrupt(to_s, c & 31);
        std::string d = compare(t, true);
        if (d.empty()) {
          taken = true;
          uint32_t at_once = to_s ? ss : mm;
          if (at_once & (at_once - 1)) cnt["irqs_at_once"]++;
          if (Model::first(at_once) != (c & 31))
            fail("irq_order", "interrupt %u to %c taken at pc=%08x although %u comes first (pending %03x)", c & 31, to_s ? 'S' : 'M', pc, Model::first(at_once), at_once);
          m.take_interrupt(to_s, c & 31);
          waited = 0;
          cnt[std::string("irq_") + (to_s ? "s" : "m") + std::to_string(c & 31)]++;
          hash_ = mix64(hash_ ^ c);
          if (cpu.state.store) fail("store", "pc=%08x a store was performed by an interrupted instruction", pc);
        }
      }
    }
    if (!taken) {
      uint32_t rd = inst >> 7 & 31;
      m.mmio_value = rd ? cpu.state.gpr[rd] : 0;
      m.sc_hint = cpu.state.store;
      StepOut o = m.step();
      m.sc_hint = -1;
      if (o.sc && cpu.state.store && !o.sc_may) fail("sc", "pc=%08x store-conditional succeeded without a reservation", pc);
      if (o.sc && !cpu.state.store && o.sc_must) fail("sc", "pc=%08x store-conditional failed right after its load-reserved", pc);
      if (o.mmio_load) {
        cnt["mmio_loads"]++;
        uint32_t want = dev.load(o.ld_addr, inst >> 12 & 7);
        if (rd && want != cpu.state.gpr[rd])
          fail("mmio_value", "pc=%08x load from device %08x returned %08x, device holds %08x", pc, o.ld_addr, cpu.state.gpr[rd], want);
      }
      if (o.mmio_store) { cnt["mmio_stores"]++; dev.store(o.st_addr, o.st_data, o.st_bytes); }
      if (o.irq_csr) {
        // a write to the pending register may not move the timer line
        m.csr[C_MIP] = (m.csr[C_MIP] & ~0x80u) | (dev.timer_up() ? 0x80 : 0);
        m.sync_views();
      }
      if (o.store != cpu.state.store) fail("store", "pc=%08x store performed: executor %d, model %d", pc, cpu.state.store, o.store);
      if (o.store && (cpu.state.store_addr != o.st_addr || cpu.state.store_data != o.st_data << ((o.st_addr & 3) * 8)))
        fail("store", "pc=%08x store executor [%08x]=%08x, model [%08x]=%08x", pc, cpu.state.store_addr, cpu.state.store_data, o.st_addr, o.st_data);
      if (o.store && cpu.load_word(o.st_addr & ~3u) != m.rd_word(o.st_addr) && o.st_addr - A_TIM >= 16)
        fail("memory", "pc=%08x [%08x] executor %08x, model %08x after the store", pc, o.st_addr, cpu.load_word(o.st_addr & ~3u), m.rd_word(o.st_addr));
      bool end = o.ebreak || o.wfi;
      std::string d = compare(m, !end);
      if (!d.empty())
        fail("state", "pc=%08x inst=%08x %s%s%s", pc, inst, o.trap ? "(trap) " : "", mm | ss ? "(interrupt pending) " : "", d.c_str());
      if (!o.trap && (cpu.is_br != o.is_branch || (o.is_branch && cpu.br_taken != o.taken)))
        fail("branch", "pc=%08x inst=%08x branch outcome reported %d/%d, model %d/%d", pc, inst, cpu.is_br, cpu.br_taken, o.is_branch, o.taken);
      if (mm | ss) {
        if (++waited > 8) fail("irq_lost", "pc=%08x an enabled pending interrupt (M %03x S %03x) is not taken", pc, mm, ss);
      } else waited = 0;
      if (o.trap) cnt["trap_" + std::to_string(o.cause)]++;
      if (o.xret) cnt["xrets"]++;
      if (o.is_branch) cnt["branches"]++;
      if (o.load && !o.mmio_load) cnt["loads"]++;
      if (o.store && !o.mmio_store) cnt["stores"]++;
      if (o.is_amo) cnt["amos"]++;
      if (o.is_fp) cnt["fp_ops"]++;
      if ((m.csr[C_SATP] >> 31) && m.priv < 3) cnt["commits_paged"]++;
      if (end != cpu.sim_end) fail("end", "pc=%08x inst=%08x end of program: executor %d, model %d", pc, inst, (int)cpu.sim_end, (int)end);
      if (end) break;
    }
    if (cpu.sim_end) fail("end", "the executor ended at pc=%08x, the program did not", pc);
    // the clock
    if (pace == 0) sim_time++;
    else if (clk.chance(1, pace == 1 ? 400 : pace == 2 ? 60 : 12)) { sim_time += 1 + clk.below(clk.chance(1, 4) ? 20000 : 300); cnt["clock_jumps"]++; }
    else sim_time++;
  }
  for (uint32_t i = 0; i < image.words.size(); i++)
    if (cpu.memory[i] != m.ram[i])
      fail("memory", "at end [%08x] executor %08x, model %08x", 0x80000000u + i * 4, cpu.memory[i], m.ram[i]);
  std::cout.rdbuf(old);
  if (console.str() != dev.console)
    fail("console", "the console shows %zu characters, the program wrote %zu", console.str().size(), dev.console.size());
  cnt["console_chars"] += dev.console.size();
  exit_code = (int)cpu.state.gpr[10];
  emit("ok", "", "");
  _exit(0);
}
