// One simulated run: reads a plan, builds the guest program and the fault
// schedule from it, runs the simulator in this process and reports the result.
#include "gen.h"
#include "monitor.h"
#include <algorithm>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <zlib.h>

extern long long sim_time;
int simulator_main(int, char **);

// The host clock is a seam: twin runs see it shifted by VERIF_CLOCK seconds.
static time_t clock_shift() {
  static const char *s = getenv("VERIF_CLOCK");
  return s ? (time_t)atoll(s) : 0;
}
extern "C" int clock_gettime(clockid_t id, struct timespec *t) noexcept {
  int r = (int)syscall(SYS_clock_gettime, id, t);
  if (!r) t->tv_sec += clock_shift(), t->tv_nsec = (t->tv_nsec + clock_shift() * 7919) % 1000000000;
  return r;
}
extern "C" int gettimeofday(struct timeval *t, void *) noexcept {
  struct timespec x;
  int r = clock_gettime(CLOCK_REALTIME, &x);
  if (t) t->tv_sec = x.tv_sec, t->tv_usec = x.tv_nsec / 1000;
  return r;
}
extern "C" time_t time(time_t *t) noexcept {
  struct timespec x;
  clock_gettime(CLOCK_REALTIME, &x);
  if (t) *t = x.tv_sec;
  return x.tv_sec;
}
extern "C" clock_t clock() noexcept {
  struct timespec x;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &x);
  return x.tv_sec * CLOCKS_PER_SEC + x.tv_nsec / 1000;
}
// Leaves a pattern in the stack area the simulator is about to use.
__attribute__((noinline)) static void fill_stack(int v) {
  volatile char b[512 << 10];
  for (size_t i = 0; i < sizeof b; i++) b[i] = (char)v;
}

namespace vsim {
std::string result_path;
static Plan plan;
static Image image;
static std::vector<Fault> faults;
static int out_fd = -1, exit_code = -1;
static bool emitted = false;

static std::string slurp_fd(int fd, size_t limit) {
  off_t n = lseek(fd, 0, SEEK_END);
  if (n < 0) return "";
  size_t from = (size_t)n > limit ? (size_t)n - limit : 0;
  std::string s((size_t)n - from, 0);
  ssize_t k = pread(fd, &s[0], s.size(), (off_t)from);
  s.resize(k > 0 ? (size_t)k : 0);
  return s;
}
static std::string jq(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}

void emit(const char *status, const std::string &kind, const std::string &msg) {
  if (emitted) return;
  emitted = true;
  fflush(stdout);
  std::cout.flush();
  auto &e = axi_env();
  std::ostringstream o;
  o << "{\"status\":" << jq(status) << ",\"kind\":" << jq(kind) << ",\"msg\":" << jq(msg)
    << ",\"cycles\":" << sim_time << ",\"commits\":" << mon.commits << ",\"exit\":" << exit_code
    << ",\"hash\":\"" << std::hex << mon.hash << "\",\"timed_hash\":\"" << mon.timed_hash
    << "\",\"bus_hash\":\"" << e.hash << std::dec << "\"";
  if (out_fd >= 0) {
    uint64_t h = 7;
    for (unsigned char c : slurp_fd(out_fd, 1u << 24)) h = mix64(h ^ c);
    o << ",\"outsum\":\"" << std::hex << h << std::dec << "\"";
  }
  o << ",\"features\":" << jq(image.features) << ",\"nitems\":" << image.item_names.size()
    << ",\"nfaults\":" << faults.size();
  o << ",\"fired\":{\"delayed_response\":" << e.delays_fired << ",\"port_stall_ticks\":" << e.stall_ticks_hit
    << ",\"reordered_response\":" << e.reordered << ",\"backpressure_ticks\":" << e.backpressured << "}";
  o << ",\"txns\":[";
  for (int i = 0; i < NPORT; i++) o << (i ? "," : "") << e.txns[i];
  o << "],\"max_outstanding\":[";
  for (int i = 0; i < NPORT; i++) o << (i ? "," : "") << e.max_outstanding[i];
  o << "],\"wb_words\":" << mon.wb_words << ",\"cnt\":{";
  bool first = true;
  for (auto &c : mon.cnt) { o << (first ? "" : ",") << jq(c.first) << ":" << c.second; first = false; }
  o << "}";
  bool bad = strcmp(status, "ok") != 0;
  if (bad || plan.opts.find("trace") != std::string::npos) {
    o << ",\"tail\":[";
    first = true;
    for (auto &t : mon.tail) { o << (first ? "" : ",") << jq(t); first = false; }
    o << "],\"items\":[";
    for (size_t i = 0; i < image.item_names.size(); i++) o << (i ? "," : "") << jq(image.item_names[i]);
    o << "],\"faults\":[";
    for (size_t i = 0; i < faults.size(); i++)
      o << (i ? "," : "") << jq(faults[i].kind + " port" + std::to_string(faults[i].port) + " at " +
                                std::to_string(faults[i].at) + " len " + std::to_string(faults[i].len));
    o << "]";
    if (out_fd >= 0) o << ",\"output\":" << jq(slurp_fd(out_fd, 3000));
  } else if (plan.opts.find("keepout") != std::string::npos && out_fd >= 0)
    o << ",\"output\":" << jq(slurp_fd(out_fd, 60000));
  o << "}\n";
  std::string s = o.str();
  FILE *f = result_path.empty() ? stderr : fopen(result_path.c_str(), "w");
  if (f) { fwrite(s.data(), 1, s.size(), f); fflush(f); if (f != stderr) fclose(f); }
}

static bool has(const char *o) { return (" " + plan.opts + " ").find(std::string(" ") + o + " ") != std::string::npos; }

// Compares the printed performance report with what the monitor saw retire.
static std::string judge_report() {
  std::string out = slurp_fd(out_fd, 1u << 24);
  size_t at = out.rfind("sim-time(cycle)= ");
  if (at == std::string::npos) return "no performance report was printed";
  unsigned long long cy, n, ld, st, jalr, cond, ret;
  if (sscanf(out.c_str() + at, "sim-time(cycle)= %llu, committed(total/load/store)= %llu / %llu / %llu", &cy, &n, &ld, &st) != 4)
    return "unreadable performance report";
  auto num = [&](const char *section, unsigned long long &v) {
    size_t p = out.find(section, at);
    p = p == std::string::npos ? p : out.find("num ", p);
    return p != std::string::npos && sscanf(out.c_str() + p, "num : %llu", &v) == 1;
  };
  if (!num("jalr  accuracy", jalr) || !num("br    accuracy", cond) || !num("ret    accuracy", ret)) return "unreadable branch report";
  const auto &t = mon.tally, &b = mon.mark;
  bool marked = b.total > 0;
  char m[200];
  auto bad = [&](const char *what, unsigned long long got, unsigned long long lo, unsigned long long hi) {
    if (got >= lo && got <= hi) return false;
    snprintf(m, sizeof m, "report says %llu %s, %llu..%llu happened", got, what, lo, hi);
    return true;
  };
  uint64_t f = t.fuzzy - b.fuzzy; // interrupt entries and fetch faults: their instruction may or may not be counted by kind
  uint64_t want = marked ? (uint64_t)sim_time - b.cycle : (uint64_t)sim_time + 1;
  // Branches are tallied at another point of the same cycle than the boundary.
  uint64_t s = marked ? 8 : 0;
  auto lo = [](uint64_t x, uint64_t d) { return x > d ? x - d : 0; };
  if (bad("cycles", cy, want, want)) return m;
  if (bad("retired instructions", n, t.total - b.total, t.total - b.total)) return m;
  if (bad("loads", ld, t.loads - b.loads, t.loads - b.loads + f)) return m;
  if (bad("stores", st, t.stores - b.stores, t.stores - b.stores + f)) return m;
  if (bad("conditional branches", cond, lo(t.cond - b.cond, s), t.cond - b.cond + f + s)) return m;
  if (bad("returns and indirect jumps", jalr + ret, lo(t.jalr - b.jalr + t.ret - b.ret, s), t.jalr - b.jalr + t.ret - b.ret + f + s)) return m;
  if (bad("returns", ret, lo(t.ret - b.ret, s), t.ret - b.ret + t.odd - b.odd + f + s)) return m;
  // Rates and breakdowns must agree with the counts.
  double ipc;
  size_t q = out.find("ipc ", at);
  if (q == std::string::npos || sscanf(out.c_str() + q, "ipc : %lf", &ipc) != 1) return "unreadable performance report";
  auto off = [](double a, double b) { return !(a - b < 2e-6 && b - a < 2e-6); };
  if (cy && off(ipc, (double)n / (double)cy)) return "report says " + std::to_string(ipc) + " instructions per cycle for " + std::to_string(n) + " in " + std::to_string(cy);
  unsigned long long allnum = 0, allmis = 0;
  for (const char *section : {"jalr  accuracy", "br    accuracy", "ret    accuracy"}) {
    double acc;
    unsigned long long k, mis, ad, dir;
    auto get = [&](const char *name, unsigned long long &v) {
      size_t p = out.find(section, at);
      p = out.find(name, p);
      p = p == std::string::npos ? p : out.find(": ", p);
      return p != std::string::npos && sscanf(out.c_str() + p, ": %llu", &v) == 1;
    };
    size_t p = out.find(": ", out.find(section, at));
    bool nan = out.compare(p + 2, 3, "nan") == 0 || out.compare(p + 2, 4, "-nan") == 0;
    if (!nan && sscanf(out.c_str() + p, ": %lf", &acc) != 1) return "unreadable branch report";
    if (!get("num ", k) || !get("mispred ", mis) || !get("addr error", ad) || !get("dir  error", dir)) return "unreadable branch report";
    allnum += k; allmis += mis;
    mon.cnt[std::string("n_") + std::string(section, 4)] += k; mon.cnt[std::string("m_") + std::string(section, 4)] += mis;
    if (has("learn") && k >= 600) { // regular branches: how many may be mispredicted, in a hundred
      struct Rule { const char *kind, *section; int percent; };
      static const Rule rules[] = {{"hfix", "br  ", 10}, {"hcall", "ret ", 50}, {"hdeep", "ret ", 10}, {"hind", "jalr", 10},
                                   {"hper", "br  ", 25}, {"hnest", "br  ", 25}, {"hcorr", "br  ", 33}};
      for (auto &q : rules)
        if (image.learn == q.kind && !strncmp(section, q.section, 4)) {
          mon.cnt["loops_learnt"]++;
          if (mis * 100 > k * q.percent)
            return std::to_string(mis) + " of " + std::to_string(k) + " regular branches (" + q.kind + ") were mispredicted, more than " + std::to_string(q.percent) + " in a hundred";
        }
    }
    if (mis > k) return std::string("more mispredictions than branches under ") + section;
    if (mis != ad + dir) return std::string("misprediction breakdown does not add up under ") + section;
    if (k && (nan || off(acc, 1 - (double)mis / (double)k))) return std::string("rate does not follow from the counts under ") + section;
  }
  double acc;
  q = out.find("bpu   accuracy", at);
  if (allnum && (q == std::string::npos || sscanf(out.c_str() + q, "bpu   accuracy : %lf", &acc) != 1 || off(acc, 1 - (double)allmis / (double)allnum)))
    return "overall prediction rate does not follow from the counts";
  mon.cnt["mispredicted_branches"] += allmis;
  // Memory-side figures. A figure that is not printed is not judged.
  std::string plain;
  for (size_t i = at; i < out.size(); i++) {
    if (out[i] == '\033') { while (i < out.size() && out[i] != 'm') i++; continue; }
    plain.push_back(out[i]);
  }
  auto fig = [&](const char *section, const char *name, double &v) {
    size_t p = plain.find(section);
    p = p == std::string::npos ? p : plain.find(std::string("\n") + name, p);
    p = p == std::string::npos ? p : plain.find(':', p);
    return p != std::string::npos && sscanf(plain.c_str() + p, ": %lf", &v) == 1;
  };
  auto samples = [&](const char *section, const char *name, double &v) {
    size_t p = plain.find(section);
    p = p == std::string::npos ? p : plain.find(std::string("\n") + name, p);
    if (p == std::string::npos) return false;
    std::string line = plain.substr(p + 1, plain.find('\n', p + 1) - p - 1);
    p = line.find("samples=");
    return p != std::string::npos && sscanf(line.c_str() + p, "samples=%lf", &v) == 1;
  };
  auto near = [](double a, double b, double d) { return a - b <= d && b - a <= d; };
  auto say = [](const char *what, double a, double b) {
    char m[200];
    snprintf(m, sizeof m, "report says %.6g %s, expected %.6g", a, what, b);
    return std::string(m);
  };
  const char *L1D = "L1D COUNTER", *L1I = "L1I COUNTER", *TD = "Top-Down Analysis (Level 1)", *IDU = "Level 1 - IDU";
  double reqs, all, again, miss, rate, x, y, z, w;
  const auto &env = axi_env();
  const double lines = (double)(env.txns[1] - b.lines), wbs = (double)(env.txns[3] - b.wbs);
  const double flight = 16; // misses on their way when the report is printed or starts anew
  if (fig(L1D, "L1D_REQ_INITIAL", reqs) && fig(L1D, "dcache miss", miss)) {
    if (fig(L1D, "L1D_REQ_ALL", all) && fig(L1D, "L1D_REQ_REPLAY", again) && all != reqs + again) return say("data cache requests", all, reqs + again);
    if (miss > lines + flight) return say("data cache misses", miss, lines);
    if (!mon.cnt.count("commits_paged") && miss + flight < lines) return say("data cache misses", miss, lines);
    if (fig(L1D, "L1D Hit Rate", rate) && reqs > 0 && !near(rate, 1 - miss / reqs, 2e-6)) return say("as data cache hit rate", rate, 1 - miss / reqs);
    if (fig(L1D, "L1D MPKI", x) && n && !near(x, miss * 1000 / (double)n, 1e-4)) return say("data cache misses in a thousand instructions", x, miss * 1000 / (double)n);
    if (fig(L1D, "Avg Miss Penalty", y) && fig(L1D, "L1D AMAT", x) && reqs > 0 && !near(x, 1 + miss / reqs * y, 1e-4 * (1 + x))) return say("as average data access time", x, 1 + miss / reqs * y);
    if (samples(L1D, "Avg Miss Penalty", x) && !near(x, miss, flight)) return say("measured data cache misses", x, miss);
    if (samples(L1D, "Avg AXI Write Latency", x) && !near(x, wbs, flight)) return say("measured write-backs", x, wbs);
    mon.cnt["cache_figures"]++;
  }
  if (fig(L1D, "MMIO Inst Count", x) && fig(L1D, "MMIO Load Count", y) && fig(L1D, "MMIO Store Count", z)) {
    const double dl = (double)(mon.cnt["mmio_loads"] - b.devld), ds = (double)(mon.cnt["mmio_stores"] - b.devst);
    if (x != y + z) return say("device accesses", x, y + z);
    if (y + (marked ? 4 : 0) < dl) return say("device loads", y, dl); // a squashed one may have been counted
    if (!near(z, ds, 20)) return say("device stores", z, ds);          // some may be queued
    mon.cnt["device_figures"] += (uint64_t)x;
  }
  if (fig(L1I, "L1I access", x) && fig(L1I, "L1I hit", y) && fig(L1I, "L1I miss", z)) {
    if (x != y + z) return say("instruction cache accesses", x, y + z);
    if (fig(L1I, "L1I accuracy", rate) && x > 0 && !near(rate, y / x, 2e-6)) return say("as instruction cache hit rate", rate, y / x);
  }
  for (const char *td : {TD, IDU}) {
    std::string pre = td == IDU ? "IDU " : "";
    double total;
    if (!fig(td, (pre + "Total Slots").c_str(), total) || !fig(td, (pre + "Frontend Bound").c_str(), x) || !fig(td, (pre + "Backend Bound").c_str(), y) ||
        !fig(td, (pre + "Bad Speculation").c_str(), z) || !fig(td, (pre + "Retiring").c_str(), w)) continue;
    if (!near(w, 100 * (double)n / total, 0.011 + (marked ? 100 * 80 / total : 0))) return say("percent of slots retiring", w, 100 * (double)n / total);
    if (n >= 500 && !near(x + y + z + w, 100, 0.05 + (marked ? 100 * 80 / total : 0))) return say("percent of slots in all", x + y + z + w, 100);
    mon.cnt["slot_figures"]++;
  }
  mon.cnt["reports"]++;
  if (marked) mon.cnt["reports_after_warmup"]++;
  return "";
}

// How long one pass of each judged loop takes once it is warm (milli-cycles),
// against what its dependences and the two-wide machine allow.
static std::string judge_pace() {
  struct Rule { const char *kind; double lo, per, plus; }; // n*lo <= pass <= n*per + plus
  static const Rule rules[] = {
    {"pind", 0.5, 0.6, 3}, {"pdep", 1, 1.15, 3}, {"ptwo", 0.5, 0.6, 3}, {"pld", 0.5, 0.6, 3}, {"pst", 0.5, 0.6, 3},
    {"pmul", 0.5, 1.2, 3}, {"pmuld", 1, 2.4, 3}, {"pdivd", 1, 24, 4}, {"pover", 0.5, 0.25, 18}, {"pwin", 0.5, 0.75, 14}, {"pchase", 1, 5, 3},
    {"pfwd", 1, 5.5, 4}, {"pbr", 0.5, 1.1, 4}, {"pmiss", 0.5, 20, 0}, {"pmissd", 30, 1000, 0}};
  for (auto &x : image.paces) {
    auto v = mon.pass_ends[x.pc];
    if (v.size() < 60) continue;
    std::vector<uint64_t> d;
    for (size_t i = v.size() / 2; i < v.size(); i++) d.push_back(v[i] - v[i - 1]);
    double pass;
    if (x.kind.compare(0, 5, "pmiss") == 0) pass = (double)(v.back() - v[9]) / (double)(v.size() - 10);
    else { std::sort(d.begin(), d.end()); pass = (double)d[d.size() / 2]; }
    mon.cnt["pace_" + x.kind + "_" + std::to_string(x.n)] = (uint64_t)pass;
    mon.cnt["loops_timed"]++;
    if (!has("pace") || (x.kind.compare(0, 5, "pmiss") == 0 && plan.env != "slow")) continue;
    for (auto &q : rules)
      if (x.kind == q.kind && (pass < q.lo * x.n || pass > q.per * x.n + q.plus)) {
        char m[200];
        snprintf(m, sizeof m, "a pass of the %s loop of %u at %08x takes %.1f cycles, expected %.1f to %.1f", q.kind, x.n, x.pc, pass, q.lo * x.n, q.per * x.n + q.plus);
        return m;
      }
  }
  return "";
}

static bool returned = false;
static int violation(const char *kind, const std::string &msg) {
  emit("violation", kind, msg);
  return 3;
}
static std::string console() {
  std::string got;
  for (unsigned char c : slurp_fd(out_fd, 1u << 24))
    if ((c >= 1 && c <= 8) || (c >= 14 && c <= 26) || c >= 248) got += (char)c;
  return got;
}
static int judge_end(int rc) {
  exit_code = rc;
  if (!plan.damage.empty()) {
    bool wants_zero = plan.damage == "help";
    if (mon.commits || mon.cnt["ref_steps"]) return violation("refuse", "execution began although the input was unusable (" + plan.damage + ")");
    if ((rc & 0xff) == 0 && !wants_zero) return violation("refuse", "unusable input (" + plan.damage + ") ended with a success status");
    if (rc && wants_zero) return violation("refuse", "asking for help ended with exit code " + std::to_string(rc));
    mon.cnt["refused_" + plan.damage]++;
    emit("ok", "", "");
    return 0;
  }
  if (has("nodiff") || plan.mode == "ref") {
    if (plan.mode == "ref") {
      uint64_t n = mon.cnt["ref_steps"];
      if (plan.limit ? n > plan.limit || (!mon.ended && n != plan.limit) : !mon.ended)
        return violation("early_end", "the sequential run ended after " + std::to_string(n) + " instructions" + (plan.limit ? ", limit " + std::to_string(plan.limit) : ""));
      if (rc) return violation("exit_code", "sequential run ended with exit code " + std::to_string(rc));
      if (console() != mon.uart_expect) return violation("console", "console of the sequential run differs from what the program wrote");
    }
    emit("ok", "", "");
    return 0;
  }
  if (plan.sigint && mon.cnt["sigint"]) {
    if (!mon.ended || rc == 130) {
      if (rc != 130) return violation("interrupted", "interrupted run ended with exit code " + std::to_string(rc));
      if ((uint64_t)sim_time > plan.sigint + 4) return violation("interrupted", "interrupted at cycle " + std::to_string(plan.sigint) + ", stopped at " + std::to_string(sim_time));
      std::string g = console(), w = mon.uart_expect;
      size_t k = std::min(g.size(), w.size());
      if (g.compare(0, k, w, 0, k)) return violation("console", "console of the interrupted run differs from what the program wrote");
      if (has("report")) { std::string m = judge_report(); if (!m.empty()) return violation("report", m); }
      emit("ok", "", "");
      return 0;
    }
  }
  if (mon.injected) {
    emit("violation", "missed", "an injected divergence of kind " + mon.inject_kind + " was not reported");
    return 3;
  }
  uint64_t from = plan.mode == "ckpt" ? plan.warm >= 0 ? (uint64_t)plan.warm : plan.interval : 0;
  uint64_t lim = plan.limit ? plan.limit : plan.mode == "ckpt" ? plan.interval : 0;
  bool reached = lim && mon.commits >= from + lim;
  { std::string m = judge_pace(); if (!m.empty()) return violation("pace", m); }
  if (lim && mon.commits && mon.commits_before >= from + lim)
    return violation("limit", "asked to stop after " + std::to_string(from) + "+" + std::to_string(lim) + " instructions, " + std::to_string(mon.commits) + " retired");
  if (!mon.ended && !reached)
    return violation("early_end", "the run ended although the program did not (" + std::to_string(mon.commits) + " retired, limit " + std::to_string(from) + "+" + std::to_string(lim) + ")");
  if (reached) mon.cnt["limit_reached"]++;
  if (!reached && !mon.ext_done.empty()) return violation("mmio_spurious", "the program ended and no load retired for a bus read of a device");
  if (reached && rc == 0) {
    // stopped at the limit
  } else if (!mon.ended)
    return violation("exit_code", "run stopped at its limit with exit code " + std::to_string(rc));
  else if (rc != (int)(uint8_t)mon.model->gpr[10] && rc != (int)mon.model->gpr[10]) {
    emit("violation", "exit_code", "exit code " + std::to_string(rc) + ", program asked for " + std::to_string(mon.model->gpr[10]));
    return 3;
  }
  if (out_fd >= 0) {
    std::string got = console();
    if (reached && !mon.ended && got != mon.uart_expect) { // a character may be on its way
      size_t k = std::min(got.size(), mon.uart_expect.size());
      if (k + 4 >= std::max(got.size(), mon.uart_expect.size()) && !got.compare(0, k, mon.uart_expect, 0, k)) got = mon.uart_expect;
    }
    if (got != mon.uart_expect) {
      emit("violation", "console", "console shows " + std::to_string(got.size()) + " characters, program wrote " + std::to_string(mon.uart_expect.size()) + (got.size() == mon.uart_expect.size() ? " (different ones)" : ""));
      return 3;
    }
    mon.cnt["console_chars"] += got.size();
    if (has("report") && mon.commits) {
      std::string m = judge_report();
      if (!m.empty()) return violation(m.find("regular branches") == std::string::npos ? "report" : "learn", m);
    }
  }
  emit("ok", "", "");
  return 0;
}
static void on_exit_cb(int code, void *) {
  if (emitted) return;
  fflush(stdout);
  std::cout.flush();
  if (returned) _exit(judge_end(code));
  exit_code = code;
  if (!plan.damage.empty()) _exit(judge_end(code));
  // The simulator gave up by itself.
  if (mon.injected) {
    if (code == 0) { emit("violation", "exit_code", "a divergence of kind " + mon.inject_kind + " ended the run with a successful exit status"); _exit(3); }
    emit("ok", "reported", "divergence reported");
    _exit(0);
  }
  emit("violation", "aborted", "the simulator stopped by itself with exit code " + std::to_string(code));
  _exit(3);
}
static void on_crash(int sig) {
  if (sig == SIGABRT && mon.injected) { emit("ok", "reported", "divergence reported"); _exit(0); }
  if (sig == SIGALRM) emit("violation", "hang", "host time limit reached");
  else emit("violation", "crash", std::string("the simulator died of signal ") + std::to_string(sig));
  _exit(3);
}

static void parse_set(const std::string &v, std::set<int> &s) {
  std::stringstream ss(v);
  std::string t;
  while (std::getline(ss, t, ',')) {
    if (t.empty()) continue;
    size_t d = t.find('-');
    if (d == std::string::npos) s.insert(std::stoi(t));
    else for (int i = std::stoi(t.substr(0, d)); i <= std::stoi(t.substr(d + 1)); i++) s.insert(i);
  }
}
static void parse_kv(const std::string &line) {
  if (line.empty() || line[0] == '#') return;
  size_t e = line.find('=');
  if (e == std::string::npos) return;
  std::string k = line.substr(0, e), v = line.substr(e + 1);
  if (k == "scenario") plan.scenario = v;
  else if (k == "seed") plan.seed = std::stoull(v);
  else if (k == "nitems") plan.nitems = std::stoi(v);
  else if (k == "drop") parse_set(v, plan.drop);
  else if (k == "fdrop") parse_set(v, plan.fdrop);
  else if (k == "env") plan.env = v;
  else if (k == "envseed") plan.envseed = std::stoull(v);
  else if (k == "mode") plan.mode = v;
  else if (k == "fast") plan.fast = std::stoull(v);
  else if (k == "at") plan.at = std::stoull(v);
  else if (k == "interval") plan.interval = std::stoull(v);
  else if (k == "warm") plan.warm = std::stoll(v);
  else if (k == "limit") plan.limit = std::stoull(v);
  else if (k == "damage") plan.damage = v;
  else if (k == "sigint") plan.sigint = std::stoull(v);
  else if (k == "inject") plan.inject = v;
  else if (k == "opts") plan.opts = v;
  else if (k == "result") result_path = v;
  else if (k == "maxcycles") mon.max_cycles = std::stoull(v);
}
static std::string optv(const std::string &name) {
  std::stringstream ss(plan.opts);
  std::string t;
  while (ss >> t)
    if (t.compare(0, name.size() + 1, name + ":") == 0) return t.substr(name.size() + 1);
  return "";
}

// ---- snapshot files
static void load_model(Model &m) {
  m.alloc();
  m.reset(0);
  memcpy(m.ram, image.words.data(), image.words.size() * 4);
  m.wr_word(0x0, 0xf1402573);
  m.wr_word(0x4, 0x83e005b7);
  m.wr_word(0x8, 0x800002b7);
  m.wr_word(0xc, 0x00028067);
  m.wr_word(0x10000004, 0x00006000);
}
struct Sink { // the snapshot as one stream, plain or as a series of gzip members
  int fd;
  bool gz;
  uint64_t n = 0, cut = ~0ull;
  std::string zero_member;
  static std::string squeeze(const void *p, size_t len) {
    z_stream z{};
    deflateInit2(&z, 1, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY);
    std::string o(deflateBound(&z, len) + 64, 0);
    z.next_in = (Bytef *)p; z.avail_in = (uInt)len;
    z.next_out = (Bytef *)&o[0]; z.avail_out = (uInt)o.size();
    deflate(&z, Z_FINISH);
    o.resize(z.total_out);
    deflateEnd(&z);
    return o;
  }
  void raw(const void *p, size_t len) {
    const char *c = (const char *)p;
    while (len) { ssize_t k = write(fd, c, len); if (k <= 0) _exit(2); c += k; len -= (size_t)k; }
  }
  void put(const void *p, size_t len) {
    if (n >= cut) return;
    if (n + len > cut) len = (size_t)(cut - n);
    n += len;
    if (gz) { std::string s = squeeze(p, len); raw(s.data(), s.size()); }
    else raw(p, len);
  }
  void zeros(size_t len) {
    if (n >= cut) return;
    if (n + len > cut) len = (size_t)(cut - n);
    n += len;
    if (!gz) {
      off_t e = lseek(fd, (off_t)len, SEEK_CUR);
      if (ftruncate(fd, e)) _exit(2);
      return;
    }
    std::string z(len, 0);
    if (len == 4u << 20) {
      if (zero_member.empty()) zero_member = squeeze(z.data(), len);
      raw(zero_member.data(), zero_member.size());
    } else { std::string s = squeeze(z.data(), len); raw(s.data(), s.size()); }
  }
};
// Moves the switch on to just after a load-reserved.
static void move_switch() {
  Model t;
  load_model(t);
  for (uint64_t n = 1; n < plan.fast + 4000; n++) {
    StepOut o;
    mon.ref_step(t, o, false);
    if (o.ebreak || o.wfi) break;
    if (n >= plan.fast && t.res_v && !t.res_open) { plan.fast = n; break; }
  }
  munmap(t.ram, RAM_BYTES);
  mon.cnt.clear();
  mon.uart_expect.clear();
}
// How many instructions the program has, up to the one that ends it.
static uint64_t program_length() {
  Model t;
  load_model(t);
  uint64_t n = 1;
  for (; n < 200000; n++) {
    StepOut o;
    mon.ref_step(t, o, false);
    if (o.ebreak || o.wfi) break;
  }
  munmap(t.ram, RAM_BYTES);
  mon.cnt.clear();
  mon.uart_expect.clear();
  return n;
}
static int make_snapshot() {
  static Model t;
  Rng r(plan.seed ^ 0xc4e7);
  load_model(t);
  for (uint32_t p = 0; p <= (image.words.size() * 4) >> 12; p++) mon.truth_pages.insert(p);
  uint64_t done = 0;
  for (; done < plan.at; done++) {
    StepOut o;
    Model before = t;
    mon.ref_step(t, o, false);
    if (o.store && !o.mmio_store) mon.truth_pages.insert((o.st_addr - RAM_LO) >> 12);
    if (done + 1 == plan.at && has("lr") && !(t.res_v && !t.res_open) && done < 20000) plan.at++;
    if (o.ebreak || o.wfi) { // the snapshot is taken before the program ends
      memcpy(t.gpr, before.gpr, sizeof t.gpr); memcpy(t.csr, before.csr, sizeof t.csr);
      t.pc = before.pc;
      break;
    }
  }
  mon.cnt["snapshot_steps"] = done;
  mon.uart_expect.clear();
  // A word of RAM no program touches, near the far end, and at page borders.
  for (int i = 0; i < 4; i++) {
    uint32_t a = i == 0 ? RAM_BYTES - 4 : (0x10000000 + r.below(0x2ffff000)) & ~3u;
    t.ram[a >> 2] = (uint32_t)r.next() | 1;
    mon.truth_pages.insert(a >> 12);
  }
  // Words of the device ranges no program touches: the last of each and others.
  struct { uint32_t base, size; } R[] = {{0, 0x2000}, {0x10000000, 0x100}, {0x0c000000, 0x210000}, {0x1fd0e000, 0x100}};
  for (auto &x : R) {
    t.io[x.base + x.size - 4] = (uint32_t)r.next() | 1;
    for (int i = 0; i < 3; i++) {
      uint32_t at = x.base + 0x40 + 4 * r.below((x.size - 0x40) / 4);
      if (at != 0x0c201004) t.io[at] = (uint32_t)r.next();
    }
  }
  const std::string &d = plan.damage;
  int fd = memfd_create("ckpt", 0);
  if (d == "empty") return fd;
  Sink s{fd, has("gz")};
  if (d == "short_header") s.cut = r.below(16);
  if (d == "short_state") s.cut = 16 + r.below(244);
  if (d == "short_ram") s.cut = 256 + 8 + (uint64_t)r.next() % RAM_BYTES;
  if (d == "short_devices") s.cut = 300 + (uint64_t)RAM_BYTES + r.below(0x2000);
  if (d == "short_last") s.cut = 16 + 236 + 8 + (uint64_t)RAM_BYTES + 4 * 8 + 0x2000 + 0x100 + 0x210000 + 0x100 - 1 - r.below(0x100);
  struct { uint32_t magic; uint16_t ver, priv; uint32_t ram, ranges; } h = {0x006d6552u, 2, t.priv, RAM_BYTES, 4};
  if (d == "bad_magic") h.magic ^= 1u << r.below(32);
  if (d == "bad_version") h.ver = r.chance(1, 2) ? 1 : 3;
  if (d == "bad_ram_size") h.ram = r.chance(1, 2) ? RAM_BYTES / 2 : RAM_BYTES + 4096;
  if (d == "bad_range_count") h.ranges = r.chance(1, 2) ? 3 : 5;
  struct { uint32_t gpr[32], csr[21], pc, sa, sd, ss; bool st, rv; uint32_t ra; } c{};
  memcpy(c.gpr, t.gpr, sizeof c.gpr);
  memcpy(c.csr, t.csr, sizeof c.csr);
  c.pc = t.pc; c.rv = t.res_v; c.ra = t.res_a;
  s.put(&h, sizeof h);
  s.put(&c, sizeof c);
  s.put(&plan.interval, 8);
  for (uint32_t o = 0; o < RAM_BYTES; o += 4u << 20) {
    auto it = mon.truth_pages.lower_bound(o >> 12);
    if (it == mon.truth_pages.end() || *it >= (o + (4u << 20)) >> 12) s.zeros(4u << 20);
    else s.put((char *)t.ram + o, 4u << 20);
  }
  int bad = r.below(4), badsz = r.below(3);
  for (int i = 0; i < 4; i++) {
    auto x = R[i];
    if (d == "bad_device_base" && i == bad) x.base += 0x1000;
    if (d == "bad_device_size" && i == badsz) x.size += r.chance(1, 2) ? 4 : -4;
    s.put(&x, 8);
    std::vector<uint32_t> w(x.size / 4);
    for (auto &e : t.io) if (e.first - R[i].base < std::min(R[i].size, x.size)) w[(e.first - R[i].base) / 4] = e.second;
    s.put(w.data(), w.size() * 4);
  }
  mon.truth = &t;
  return fd;
}
} // namespace vsim

using namespace vsim;

int main(int argc, char **argv) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  mon.max_cycles = 400000;
  for (int i = 1; i < argc; i++) {
    if (strchr(argv[i], '=')) { parse_kv(argv[i]); continue; }
    std::ifstream f(argv[i]);
    std::string l;
    while (std::getline(f, l)) parse_kv(l);
  }
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM}) signal(s, on_crash);
  std::string al = optv("alarm");
  alarm(al.empty() ? 120 : (unsigned)std::stoul(al));
  image = generate(plan);
  for (auto &x : image.paces) mon.pass_ends[x.pc];
  make_env(plan, axi_env(), faults);
  if (!plan.inject.empty()) {
    char k[32];
    unsigned long long at = 0;
    unsigned a = 0, b = 0;
    if (sscanf(plan.inject.c_str(), "%31[^:]:%llu:%u:%u", k, &at, &a, &b) >= 2) {
      mon.inject = true; mon.inject_kind = k; mon.inject_at = at; mon.inject_a = a; mon.inject_b = b;
    }
  }
  mon.keep = has("keep");
  on_mem_write = [](int port, uint32_t addr, uint32_t bytes, const uint32_t *d, uint64_t strb) {
    if (port == P_DW) mon.on_ram_write(addr, bytes, d, strb);
    else mon.on_bus(true, addr, strb == (1ull << bytes) - 1 ? bytes : 0, d[0]); // the enabled bytes are what a device sees
  };
  on_mem_read = [](int port, uint32_t addr, uint32_t bytes) {
    if (port == P_PR) mon.on_bus(false, addr, bytes, 0);
    else mon.on_line(port == P_IC, addr);
  };
  on_protocol = [](const char *what, int port, uint32_t addr) {
    mon.cnt["bus_rules_broken"]++;
    if (has("bus")) mon.fail("bus", "%s (port %d, address %x)", what, port, addr);
  };
  on_tick = [] {
    mon.on_cycle();
    if (plan.sigint && (uint64_t)sim_time >= plan.sigint && !mon.cnt["sigint"]) { mon.cnt["sigint"] = 1; raise(SIGINT); }
  };

  int img;
  if (plan.mode == "fast" && has("lr")) move_switch();
  if (has("end")) { // the switch or the limit falls on the last instruction or next to it
    uint64_t n = program_length() + plan.seed % 3 - 1;
    (plan.mode == "fast" ? plan.fast : plan.limit) = n ? n : 1;
  }
  mon.handed_over = plan.mode == "ckpt" || plan.mode == "fast";
  if (plan.mode == "ckpt") img = make_snapshot();
  else {
    for (uint32_t p = 0; p <= (image.words.size() * 4) >> 12; p++) mon.truth_pages.insert(p);
    img = memfd_create("image", 0);
    if (write(img, image.words.data(), image.words.size() * 4) != (ssize_t)(image.words.size() * 4)) return 2;
    if (plan.damage == "too_big" && ftruncate(img, (off_t)RAM_BYTES + 4096)) return 2;
  }
  std::string path = "/proc/self/fd/" + std::to_string(img);
  if (plan.damage == "missing") path += "0000";

  if (has("dump")) {
    FILE *f = fopen("/tmp/vsim_image.bin", "wb");
    fwrite(image.words.data(), 4, image.words.size(), f);
    fclose(f);
  }
  std::vector<std::string> args = {"simulator", "-m", plan.mode};
  auto arg = [&](const std::string &a, const std::string &b) { args.push_back(a); args.push_back(b); };
  if (plan.mode == "fast") arg("-f", std::to_string(plan.fast));
  if (plan.warm >= 0) arg("-w", std::to_string(plan.warm));
  if (plan.limit) arg("-c", std::to_string(plan.limit));
  if (has("nodiff")) args.push_back("--no-diff");
  mon.mark_at = plan.mode == "ckpt" ? plan.warm >= 0 ? (uint64_t)plan.warm : plan.interval : 0;
  mon.prerun = plan.mode == "ckpt" ? plan.interval - mon.mark_at : plan.mode == "fast" ? plan.fast : 0;
  const std::map<std::string, std::vector<std::string>> bad = {
      {"bad_mode", {"-m", "turbo"}}, {"bad_limit_zero", {"-c", "0"}}, {"bad_limit_negative", {"--max-commit", "-3"}},
      {"bad_limit_text", {"-c", "many"}}, {"bad_fast_text", {"-m", "fast", "-f", "soon"}}, {"bad_fast_none", {"-m", "fast"}},
      {"bad_fast_zero", {"-m", "fast", "-f", "0"}}, {"bad_warm_negative", {"-m", "ckpt", "-w", "-1"}}, {"bad_warm_text", {"-w", "warm"}},
      {"bad_option", {"--turbo"}}, {"bad_missing_value", {"-c"}}, {"help", {"-h"}}};
  auto b = bad.find(plan.damage);
  if (b != bad.end() && plan.damage != "bad_missing_value") args.insert(args.end(), b->second.begin(), b->second.end());
  if (plan.damage != "no_file") args.push_back(path);
  if (plan.damage == "bad_missing_value") args.push_back("-c");
  if (has("nodiff") || plan.mode == "ref") mon.strict_off = true;
  std::vector<char *> av;
  for (auto &a : args) av.push_back(&a[0]);
  av.push_back(nullptr);
  if (has("trace")) mon.tail_max = 1000000;
  if (!has("show")) {
    out_fd = memfd_create("out", 0);
    dup2(out_fd, 1);
    if (!result_path.empty()) dup2(out_fd, 2);
  }
  on_exit(on_exit_cb, nullptr);
  if (const char *f = getenv("VERIF_FILL")) fill_stack(atoi(f));
  int rc = simulator_main((int)args.size(), av.data());
  returned = true;
  exit(rc); // the simulator's own exit handlers print its report first
}
