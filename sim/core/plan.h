// A plan is one exactly repeatable simulated run: everything a run depends on is in it.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

#include "rt.h"

struct OpLine { int thread; int op; uint64_t seed; };
struct FaultLine { uint64_t at; uint64_t count; };
struct PreLine { int child; uint64_t step; int tid; };

struct Plan {
  std::string scenario;
  uint64_t seed = 0;
  std::map<std::string, int64_t> kv;
  std::vector<OpLine> ops;
  std::vector<FaultLine> faults;
  std::vector<PreLine> pre;
  bool script = false;  // replay `pre` instead of drawing the schedule

  int64_t get(const std::string& k, int64_t d = 0) const {
    auto it = kv.find(k);
    return it == kv.end() ? d : it->second;
  }
  std::string text() const;
};
bool parse_plan(const std::string& text, Plan& out);

// Shared between the driver and the forked simulated process.
constexpr size_t MAXPRE = 400000;
constexpr size_t TEXTCAP = size_t(32) << 20;
constexpr int NCOUNT = 48;
struct Shared {
  int status;  // 0 nothing, 1 ok, 2 violation, 3 harness error
  char kind[64];
  char detail[8192];
  int npcs, npcs2;
  uint64_t pcs[48], pcs2[48];
  sim::Stats st;
  uint64_t counters[NCOUNT];
  int64_t sim_ns;
  uint64_t ncold, cold[4096];
  size_t npre;
  sim::Preempt pre[MAXPRE];
  size_t text_len;
  char text[TEXTCAP];
};
enum Counter {
  K_OPS, K_THREADS, K_ALLOCS, K_LIVE_END, K_FAULTS_ARMED, K_FAULTS_FIRED, K_BADALLOC, K_SURVIVED, K_RETRIES, K_JUMPS,
  K_CLOCKREADS, K_FILEFAULTS, K_SCOPES, K_UNIQUE, K_DECLS, K_DECL_FAILED, K_CALLBACKS, K_CB_THROWN, K_COLD, K_REENTRANT,
  K_EXC_SCOPES, K_BYTES, K_LIVEBYTES_END, K_COLD_PATHS, K_LEAKED, K_LOCALES
};
extern const char* const counter_names[];

// Scenario interface (scen.cc; compiled with instrumentation).
int child_count(const Plan& p);
Plan make_plan(const std::string& scenario, uint64_t seed, int tier);
// Runs in the forked process.
void run_child(const Plan& p, int child, Shared* all);
// Runs in the driver after all children: may turn a pass into a violation.
bool compare(const Plan& p, Shared* all, std::string& kind, std::string& detail);
extern Shared* g_shared;
