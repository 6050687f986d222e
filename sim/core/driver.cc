// Driver: forks one pristine process per simulated run, collects its record, prints JSON lines.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>
#include <typeinfo>

#include "plan.h"

Shared* g_shared = nullptr;
static Shared* g_all = nullptr;
constexpr int MAXCHILD = 20;

const char* const counter_names[] = {"ops", "threads", "allocs", "live_end", "alloc_faults_armed", "alloc_faults_fired",
  "bad_alloc_reported", "fault_survived", "retries", "clock_jumps", "clock_reads", "file_faults", "scopes", "unique_symbols",
  "declarations", "declarations_failed", "callbacks", "callbacks_thrown", "cold_runs", "reentrant_calls", "exception_scopes",
  "bytes", "live_bytes_end", "cold_call_paths", "lost_blocks", "locales"};
constexpr int NNAMES = static_cast<int>(sizeof(counter_names) / sizeof(counter_names[0]));

std::string Plan::text() const {
  std::ostringstream o;
  o << "scenario " << scenario << "\nseed " << seed << "\n";
  for (const auto& [k, v] : kv) o << "set " << k << " " << v << "\n";
  for (const auto& x : ops) o << "op " << x.thread << " " << x.op << " " << x.seed << "\n";
  for (const auto& f : faults) o << "fault " << f.at << " " << f.count << "\n";
  if (script) o << "script 1\n";
  for (const auto& p : pre) o << "pre " << p.child << " " << p.step << " " << p.tid << "\n";
  return o.str();
}
bool parse_plan(const std::string& text, Plan& p) {
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string w;
    l >> w;
    if (w == "scenario") l >> p.scenario;
    else if (w == "seed") l >> p.seed;
    else if (w == "set") { std::string k; int64_t v; l >> k >> v; p.kv[k] = v; }
    else if (w == "op") { OpLine o; l >> o.thread >> o.op >> o.seed; p.ops.push_back(o); }
    else if (w == "fault") { FaultLine f; l >> f.at >> f.count; p.faults.push_back(f); }
    else if (w == "script") p.script = true;
    else if (w == "pre") { PreLine x; l >> x.child >> x.step >> x.tid; p.pre.push_back(x); }
    else if (w == "expect") {}
    else return false;
    if (l.fail()) return false;
  }
  return !p.scenario.empty();
}

static void fill_stats() {
  Shared* s = g_shared;
  s->st = sim::stats();
  s->sim_ns = sim::clock_total_ns();
  size_t n;
  const sim::Preempt* p = sim::preemptions(&n);
  s->npre = n < MAXPRE ? n : MAXPRE;
  for (size_t i = 0; i < s->npre; ++i) s->pre[i] = p[i];
}
static void sink(const char* kind, const char* detail, const uint64_t* pcs, int n, const uint64_t* pcs2, int n2) {
  Shared* s = g_shared;
  if (s->status == 2) _exit(0);  // a violation is already recorded
  s->status = strcmp(kind, "harness-error") == 0 ? 3 : 2;
  snprintf(s->kind, sizeof s->kind, "%s", kind);
  snprintf(s->detail, sizeof s->detail, "%s", detail);
  s->npcs = n;
  for (int i = 0; i < n; ++i) s->pcs[i] = pcs[i];
  s->npcs2 = n2;
  for (int i = 0; i < n2; ++i) s->pcs2[i] = pcs2[i];
  fill_stats();
}
static void on_signal(int sig) {
  char b[64];
  snprintf(b, sizeof b, "signal %d (%s)", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : "other");
  sim::violation("crash", b);
}
static void on_terminate() {
  sim::set_simulating(false);
  sim::alloc_fault_disarm();
  std::string what = "std::terminate called";
  if (std::exception_ptr e = std::current_exception()) {
    try { std::rethrow_exception(e); } catch (const std::exception& x) { what += std::string(" with ") + x.what(); } catch (...) { what += " with a non-standard exception"; }
  }
  sim::violation("terminate", what.c_str());
}

static void run_plan(const Plan& p) {
  const int n = child_count(p);
  for (int c = 0; c < n; ++c) {
    Shared* s = &g_all[c];
    memset(s, 0, offsetof(Shared, pre));
    s->text_len = 0;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      g_shared = s;
      struct rlimit rl{0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      sim::set_result_sink(sink);
      std::set_terminate(on_terminate);
      struct sigaction sa{};
      sa.sa_handler = on_signal;
      sa.sa_flags = SA_ONSTACK | SA_NODEFER;
      for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(sg, &sa, nullptr);
      alarm(300);
      run_child(p, c, g_all);
      sim::set_simulating(false);
      if (s->status == 0) s->status = 1;
      fill_stats();
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (s->status == 0) {
      s->status = 3;
      if (WIFSIGNALED(st)) {
        snprintf(s->kind, sizeof s->kind, WTERMSIG(st) == SIGALRM ? "wall-clock-limit" : "died");
        snprintf(s->detail, sizeof s->detail, "simulated process died of signal %d", WTERMSIG(st));
      } else {
        snprintf(s->kind, sizeof s->kind, "exited");
        snprintf(s->detail, sizeof s->detail, "simulated process exited with %d without a result", WEXITSTATUS(st));
      }
    }
    if (s->status != 1) return;
  }
}

static std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o;
}

struct Outcome { int status = 1; std::string kind, detail; int child = -1; uint64_t hash = 0, shash = 0; };
static Outcome outcome(const Plan& p) {
  Outcome o;
  const int n = child_count(p);
  for (int c = 0; c < n; ++c) {
    Shared& s = g_all[c];
    if (s.status == 0) break;
    o.hash = o.hash * 1099511628211ull + s.st.hash;
    o.shash = o.shash * 1099511628211ull + s.st.sched_hash;
    if (s.status != 1) { o.status = s.status; o.kind = s.kind; o.detail = s.detail; o.child = c; return o; }
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < s.text_len; ++i) h = (h ^ static_cast<unsigned char>(s.text[i])) * 1099511628211ull;
    o.hash ^= h;
  }
  if (compare(p, g_all, o.kind, o.detail)) o.status = 2;
  return o;
}
static void print_line(const Plan& p, const Outcome& o, bool full) {
  printf("{\"seed\":%llu,\"status\":%d,\"kind\":\"%s\",\"hash\":\"%016llx\",\"sched\":\"%016llx\"", static_cast<unsigned long long>(p.seed), o.status,
         esc(o.kind).c_str(), static_cast<unsigned long long>(o.hash), static_cast<unsigned long long>(o.shash));
  uint64_t tot[NCOUNT] = {};
  uint64_t steps = 0, sw = 0, pre = 0, at = 0, sy = 0, gi = 0, gw = 0, mw = 0;
  int64_t ns = 0;
  int runs = 0;
  for (int c = 0; c < child_count(p); ++c) {
    Shared& s = g_all[c];
    if (s.status == 0) break;
    ++runs;
    for (int i = 0; i < NNAMES; ++i) tot[i] += s.counters[i];
    steps += s.st.steps; sw += s.st.switches; pre += s.st.preemptions; at += s.st.atomics; sy += s.st.syncs;
    gi += s.st.guard_inits; gw += s.st.guard_waits; mw += s.st.mutex_waits; ns += s.sim_ns;
  }
  printf(",\"runs\":%d,\"sim_ns\":%lld,\"c\":{\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"atomics\":%llu,\"syncs\":%llu,\"static_inits\":%llu,\"static_init_waits\":%llu,\"lock_waits\":%llu",
         runs, static_cast<long long>(ns), static_cast<unsigned long long>(steps), static_cast<unsigned long long>(sw), static_cast<unsigned long long>(pre),
         static_cast<unsigned long long>(at), static_cast<unsigned long long>(sy), static_cast<unsigned long long>(gi), static_cast<unsigned long long>(gw), static_cast<unsigned long long>(mw));
  for (int i = 0; i < NNAMES; ++i) if (tot[i]) printf(",\"%s\":%llu", counter_names[i], static_cast<unsigned long long>(tot[i]));
  printf("}");
  if (o.status != 1 || full) {
    printf(",\"detail\":\"%s\",\"child\":%d", esc(o.detail).c_str(), o.child);
    if (o.child >= 0) {
      Shared& s = g_all[o.child];
      printf(",\"pcs\":[");
      for (int i = 0; i < s.npcs; ++i) printf("%s\"0x%llx\"", i ? "," : "", static_cast<unsigned long long>(s.pcs[i]));
      printf("],\"pcs2\":[");
      for (int i = 0; i < s.npcs2; ++i) printf("%s\"0x%llx\"", i ? "," : "", static_cast<unsigned long long>(s.pcs2[i]));
      printf("]");
    }
    printf(",\"plan\":\"%s\",\"pre\":[", esc(p.text()).c_str());
    bool first = true;
    for (int c = 0; c < child_count(p); ++c) {
      Shared& s = g_all[c];
      if (s.status == 0) break;
      for (size_t i = 0; i < s.npre && i < 20000; ++i) { printf("%s[%d,%llu,%d]", first ? "" : ",", c, static_cast<unsigned long long>(s.pre[i].step), s.pre[i].tid); first = false; }
    }
    printf("]");
  }
  printf("}\n");
  fflush(stdout);
}

int main(int argc, char** argv) {
  sim::boot_done();
  g_all = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * MAXCHILD, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (g_all == MAP_FAILED) { perror("mmap"); return 3; }
  const std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "batch" && argc >= 6) {
    // batch SCENARIO FIRST COUNT TIER [STRIDE [DUP [SECONDS]]]
    const std::string scen = argv[2];
    const uint64_t first = strtoull(argv[3], nullptr, 10), count = strtoull(argv[4], nullptr, 10);
    const int tier = atoi(argv[5]);
    const uint64_t stride = argc > 6 ? strtoull(argv[6], nullptr, 10) : 1;
    const uint64_t dup = argc > 7 ? strtoull(argv[7], nullptr, 10) : 0;
    const long secs = argc > 8 ? atol(argv[8]) : 0;
    const time_t t0 = time(nullptr);
    for (uint64_t i = 0; i < count; ++i) {
      if (secs && time(nullptr) - t0 > secs) break;
      const Plan p = make_plan(scen, first + i * stride, tier);
      run_plan(p);
      Outcome o = outcome(p);
      if (o.status == 1 && dup && i % dup == 0) {
        const uint64_t h = o.hash;
        run_plan(p);
        o = outcome(p);
        if (o.status == 1 && o.hash != h) { o.status = 3; o.kind = "nondeterministic"; o.detail = "the same plan gave two different executions"; }
      }
      print_line(p, o, false);
    }
    return 0;
  }
  if (mode == "plan" && argc >= 5) {
    std::cout << make_plan(argv[2], strtoull(argv[3], nullptr, 10), atoi(argv[4])).text();
    return 0;
  }
  if ((mode == "run" || mode == "show") && argc >= 3) {
    std::ifstream f(argv[2]);
    std::stringstream ss;
    ss << f.rdbuf();
    Plan p;
    if (!parse_plan(ss.str(), p)) { fprintf(stderr, "bad plan file\n"); return 3; }
    run_plan(p);
    print_line(p, outcome(p), true);
    if (mode == "show") for (int c = 0; c < child_count(p); ++c) { printf("--- child %d status %d\n", c, g_all[c].status); fwrite(g_all[c].text, 1, g_all[c].text_len, stdout); }
    return 0;
  }
  fprintf(stderr, "usage: batch|plan|run ...\n");
  return 3;
}
