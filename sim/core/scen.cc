// The simulated scenarios. Compiled with instrumentation, like the code under test.
#include <atomic>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <functional>
#include <locale>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <sstream>

#include "plan.h"
#include "workload.h"

#include "wf/code_generation/function_description.h"
#include "wf/code_generation/function_evaluator.h"
#include "wf/cse.h"
#include "wf/expressions/all_expressions.h"
#include "wf/utility/scoped_trace.h"
#include "wf/utility_visitors.h"

using sim::Rng;
using work::OpSpec;
using work::Pool;
using namespace wf;

namespace {

void emit(const std::string& s) { sim::out_append(g_shared->text, &g_shared->text_len, TEXTCAP, s.data(), s.size()); }
void count(Counter c, uint64_t n = 1) { g_shared->counters[c] += n; }
[[noreturn]] void fail(const char* kind, const std::string& detail) { sim::violation(kind, detail.c_str()); }

std::string diff_context(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  size_t from = i > 160 ? i - 160 : 0;
  return "expected <<" + a.substr(from, 400) + ">> got <<" + b.substr(from, 400) + ">>";
}

// -------------------------------------------------------------------------------- plan building ---
void random_schedule(Plan& p, Rng& r) {
  switch (r.below(5)) {
    case 0: p.kv["gap"] = 30 + static_cast<int64_t>(r.below(200)); break;
    case 1: p.kv["gap"] = 500 + static_cast<int64_t>(r.below(8000)); break;
    case 2: p.kv["p_atomic"] = 2000 + static_cast<int64_t>(r.below(60000)); break;
    case 3: p.kv["p_static"] = 50000; p.kv["p_atomic"] = 3000; break;
    default: p.kv["gap"] = 20000 + static_cast<int64_t>(r.below(60000)); break;
  }
  p.kv["p_sync"] = r.chance(0.7) ? 500000 : 50000;
  if (r.chance(0.3)) p.kv["p_alloc"] = 5000;
  if (r.chance(0.5)) p.kv["p_park"] = 300000;
}
void random_layout(Plan& p, Rng& r, const std::string& pre, int fixed_reuse = -1) {
  p.kv[pre + "lseed"] = static_cast<int64_t>(r.next() >> 20);
  p.kv[pre + "page"] = static_cast<int64_t>(r.below(5000));
  p.kv[pre + "reuse"] = fixed_reuse >= 0 ? fixed_reuse : static_cast<int64_t>(r.below(4));
  p.kv[pre + "gap"] = r.chance(0.5) ? 0 : static_cast<int64_t>(r.below(400));
  p.kv[pre + "fill"] = static_cast<int64_t>(r.chance(0.3) ? 0 : r.below(256));
}
sim::LayoutConfig layout(const Plan& p, const std::string& pre) {
  sim::LayoutConfig l;
  l.seed = static_cast<uint64_t>(p.get(pre + "lseed"));
  l.page_offset = static_cast<int>(p.get(pre + "page"));
  l.reuse = static_cast<int>(p.get(pre + "reuse"));
  l.gap = static_cast<double>(p.get(pre + "gap")) / 1000.0;
  l.quarantine = p.get(pre + "quarantine") != 0;
  l.fill = static_cast<unsigned char>(p.get(pre + "fill"));
  return l;
}
std::vector<sim::Preempt> g_script;
sim::SchedConfig schedule(const Plan& p, int child, bool serial) {
  sim::SchedConfig c;
  c.seed = p.seed * 8 + static_cast<uint64_t>(child);
  c.step_limit = 4000000000ull;
  if (serial) { c.script_mode = true; return c; }
  if (p.script) {
    g_script.clear();
    for (const auto& x : p.pre) if (x.child == child) g_script.push_back(sim::Preempt{x.step, x.tid});
    c.script_mode = true;
    c.script = g_script.data();
    c.script_len = g_script.size();
    return c;
  }
  auto ppm = [&](const char* k) { return static_cast<double>(p.get(k)) * 1e-6; };
  c.p_atomic = ppm("p_atomic");
  c.p_sync = ppm("p_sync");
  c.p_static = ppm("p_static");
  c.p_alloc = ppm("p_alloc");
  c.p_park = ppm("p_park");
  c.gap = static_cast<uint64_t>(p.get("gap"));
  return c;
}

struct Runner {
  const std::function<void(int)>* fn;
};
void thread_entry(void* a, int i) { (*static_cast<Runner*>(a)->fn)(i); }
void go(const sim::SchedConfig& c, int n, const std::function<void(int)>& fn) {
  Runner r{&fn};
  sim::run_threads(c, n, thread_entry, &r);
}
// Runs `fn` on one simulated thread.
void alone(const Plan& p, const std::function<void(int)>& fn) { go(schedule(p, 0, true), 1, fn); }

constexpr uint64_t ALL = (uint64_t(1) << work::OP_COUNT) - 1;
// Mostly all operations, otherwise a few kinds of operations only.
uint64_t random_mask(Rng& r) {
  if (r.chance(0.75)) return ALL;
  uint64_t m = 0;
  for (int i = r.range(1, 3); i-- > 0;) m |= uint64_t(1) << r.below(work::OP_COUNT);
  return m;
}

std::string pool_text(const Pool& p) {
  std::string s;
  for (const auto& e : p.scalars) s += e.to_string() + ";";
  for (const auto& e : p.matrices) s += e.to_string() + ";";
  return s;
}

// ------------------------------------------------------------------------------------------ C01 ---
void plan_c01(Plan& p, Rng& r, int tier) {
  int n = r.range(2, tier ? 5 : 4);
  p.kv["threads"] = n;
  p.kv["pool_level"] = static_cast<int64_t>(r.below(3));
  p.kv["pool_seed"] = static_cast<int64_t>(r.next() >> 20);
  p.kv["ownpool"] = r.chance(0.4);
  random_layout(p, r, "", r.chance(0.5) ? 0 : -1);
  if (r.chance(0.25)) p.kv["quarantine"] = 1;
  random_schedule(p, r);
  int k = r.range(1, tier ? 5 : 3);
  const bool same = r.chance(0.5);
  const uint64_t mask = random_mask(r);
  auto ops = work::make_ops(r.next(), k, mask);
  for (int t = 0; t < n; ++t) {
    if (!same && t) ops = work::make_ops(r.next(), k, mask);
    for (const auto& o : ops) p.ops.push_back(OpLine{t, o.op, o.seed});
  }
}
void child_c01(const Plan& p, int child) {
  const bool serial = child == 0;
  sim::arena_setup(layout(p, ""));
  sim::set_simulating(true);
  const int n = static_cast<int>(p.get("threads"));
  {
    Pool pool;
    std::vector<Pool> own(static_cast<size_t>(n));
    std::vector<std::string> text(static_cast<size_t>(n));
    const bool ownpool = p.get("ownpool") != 0;
    // The pool is filled on a simulated thread of its own, so that its stack is at a fixed place.
    alone(p, [&](int) {
      work::fill_pool(pool, static_cast<uint64_t>(p.get("pool_seed")), static_cast<int>(p.get("pool_level")));
      if (ownpool) {
        for (auto& o : own) o = pool;
        pool = Pool{};
      }
    });
    auto body = [&](int t) {
      const Pool& mine = ownpool ? own[static_cast<size_t>(t)] : pool;
      for (const auto& o : p.ops) {
        if (o.thread != t) continue;
        std::string s;
        work::run_op(OpSpec{o.op, o.seed}, &mine, s);
        text[static_cast<size_t>(t)] += work::normalise(s);
        count(K_OPS);
      }
      if (ownpool) own[static_cast<size_t>(t)] = Pool{};  // the last reference may be dropped anywhere
    };
    if (serial) {
      alone(p, [&](int) { for (int t = 0; t < n; ++t) body(t); });
    } else {
      count(K_THREADS, static_cast<uint64_t>(n));
      go(schedule(p, child, false), n, body);
    }
    alone(p, [&](int) {
      for (int t = 0; t < n; ++t) emit("[[thread " + std::to_string(t) + "]]\n" + text[static_cast<size_t>(t)]);
      emit("[[pool]]\n" + pool_text(pool));
      pool = Pool{};
      text.clear();
      text.shrink_to_fit();
    });
  }
  sim::set_simulating(false);
  count(K_LIVE_END, sim::heap_stats().live_blocks);
  count(K_ALLOCS, sim::heap_stats().total_allocs);
}
bool compare_c01(const Plan&, Shared* a, std::string& kind, std::string& detail) {
  const std::string x(a[0].text, a[0].text_len), y(a[1].text, a[1].text_len);
  if (x != y) {
    kind = "concurrent-result-differs";
    detail = "results obtained by concurrent threads differ from those of running alone: " + diff_context(x, y);
    return true;
  }
  return false;
}

// ------------------------------------------------------------------------------------------ C02 ---
void plan_c02(Plan& p, Rng& r, int tier) {
  int n = r.range(2, 5);
  p.kv["threads"] = n;
  random_layout(p, r, "");
  random_schedule(p, r);
  if (r.chance(0.5)) { p.kv["p_static"] = 200000; p.kv["p_atomic"] = 200000; p.kv["gap"] = 0; }
  p.kv["check_diff"] = 1;
  for (int t = 0; t < n; ++t) {
    int k = r.range(1, tier ? 12 : 8);
    for (int i = 0; i < k; ++i) p.ops.push_back(OpLine{t, static_cast<int>(r.below(4)), r.next() >> 20});
  }
  if (r.chance(0.02)) {
    // very many symbols
    static constexpr uint64_t amounts[] = {300, 1100, 5000, 20000, 70000};
    const uint64_t a = r.chance(0.9) ? amounts[r.below(3)] : amounts[3 + r.below(2)];
    for (int t = 0; t < (a > 5000 ? 1 : n); ++t) p.ops.push_back(OpLine{t, 4, a + r.below(100)});
    if (a > 1100) { p.kv["p_static"] = 0; p.kv["p_atomic"] = 100; p.kv["gap"] = 100000; }
  } else if (r.chance(0.002)) {
    // very many symbols, most of which are gone again before the next ones are made
    const uint64_t a = uint64_t(1) << (r.chance(0.5) ? 24 : r.chance(0.5) ? 20 : 16);
    p.kv["reuse"] = 0;
    p.ops.push_back(OpLine{0, 5, a - 200});
    p.ops.push_back(OpLine{0, 4, 600});
    p.kv["p_static"] = 0; p.kv["p_atomic"] = 0; p.kv["gap"] = 100000000;
  }
}
void child_c02(const Plan& p, int child) {
  sim::arena_setup(layout(p, ""));
  sim::set_simulating(true);
  const int n = static_cast<int>(p.get("threads"));
  {
    std::vector<std::vector<scalar_expr>> made(static_cast<size_t>(n));
    std::vector<std::vector<scalar_expr>> bulk(static_cast<size_t>(n));
    std::vector<std::string> err(static_cast<size_t>(n));
    count(K_THREADS, static_cast<uint64_t>(n));
    go(schedule(p, child, false), n, [&](int t) {
      auto& mine = made[static_cast<size_t>(t)];
      for (const auto& o : p.ops) {
        if (o.thread != t) continue;
        try {
          static constexpr number_set sets[] = {number_set::unknown, number_set::real, number_set::real_positive, number_set::complex};
          const int k = 1 + static_cast<int>(o.seed % 3);
          if (o.op == 4) {
            auto& b = bulk[static_cast<size_t>(t)];
            b.reserve(b.size() + o.seed);
            for (uint64_t i = 0; i < o.seed; ++i) b.push_back(make_unique_variable_symbol(sets[i & 3]));
          } else if (o.op == 5) {
            for (uint64_t i = 0; i < o.seed; ++i) make_unique_variable_symbol(number_set::unknown);
          } else if (o.op == 3) {
            // derivative of a symbolic function with a compound argument creates a fresh symbol
            const scalar_expr x{"x"};
            const scalar_expr e = symbolic_function{"f"}(x * 2, pow(x, 2)).diff(x);
            for (const scalar_expr& u : get_expressions_by_predicate(e, [](const scalar_expr& q) { return q.is_type<unique_variable>(); })) mine.push_back(u);
          } else {
            for (int i = 0; i < k; ++i) mine.push_back(make_unique_variable_symbol(sets[o.op + (i & 1)]));
          }
        } catch (const std::exception& e) {
          err[static_cast<size_t>(t)] = e.what();
        }
        sim::yield_point();
      }
    });
    alone(p, [&](int) {
      std::vector<std::pair<int, scalar_expr>> all;
      for (int t = 0; t < n; ++t) {
        if (!err[static_cast<size_t>(t)].empty()) fail("unique-symbol-creation-failed", err[static_cast<size_t>(t)]);
        for (const auto& e : made[static_cast<size_t>(t)]) all.emplace_back(t, e);
      }
      count(K_UNIQUE, all.size());
      for (size_t i = 0; i < all.size(); ++i) {
        for (size_t j = i + 1; j < all.size(); ++j) {
          const scalar_expr &a = all[i].second, &b = all[j].second;
          // A derivative reports each of its symbols once, so all collected symbols are distinct.
          const scalar_expr d = a - b;
          if (are_identical(a, b) || d.is_type<integer_constant>() || determine_order(a, b) == relative_order::equal ||
              a.to_string() == b.to_string()) {
            fail("unique-symbols-collide", "thread " + std::to_string(all[i].first) + " and thread " + std::to_string(all[j].first) + " both obtained " + a.to_string() + " / " + b.to_string());
          }
          const scalar_expr q = a * b;
          if (q.is_type<power>()) fail("unique-symbols-merge", "the product of two distinct unique symbols merged into a power");
        }
      }
      // large amounts: by name, and neighbours in the canonical order
      std::vector<std::pair<std::string, scalar_expr>> names;
      for (const auto& b : bulk) for (const auto& e : b) names.emplace_back(e.to_string(), e);
      if (!names.empty()) {
        for (const auto& [t, e] : all) names.emplace_back(e.to_string(), e);
        count(K_UNIQUE, names.size());
        std::sort(names.begin(), names.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
        for (size_t i = 1; i < names.size(); ++i) {
          if (names[i].first == names[i - 1].first) fail("unique-symbols-collide", "two of " + std::to_string(names.size()) + " symbols are named " + names[i].first);
        }
        std::sort(names.begin(), names.end(), [](const auto& a, const auto& b) { return determine_order(a.second, b.second) == relative_order::less_than; });
        for (size_t i = 1; i < names.size(); ++i) {
          if (are_identical(names[i].second, names[i - 1].second)) fail("unique-symbols-collide", names[i].first + " and " + names[i - 1].first + " are identical");
        }
      }
      emit("unique " + std::to_string(all.size() + names.size()));
      names.clear();
      bulk.clear();
      all.clear();
      made.clear();
    });
  }
  sim::set_simulating(false);
}

// ------------------------------------------------------------------------------------------ C03 ---
void plan_c03(Plan& p, Rng& r, int tier) {
  int k = r.range(1, tier ? 4 : 3);
  const uint64_t hashcmp = uint64_t(1) << work::OP_HASHCMP;
  uint64_t mask = random_mask(r) & ~hashcmp;
  if (!mask) mask = ALL & ~hashcmp;
  for (const auto& o : work::make_ops(r.next(), k, mask)) p.ops.push_back(OpLine{0, o.op, o.seed});
  p.kv["envs"] = tier ? 5 : 3;
  for (int e = 0; e < (tier ? 5 : 3); ++e) {
    const std::string pre = "e" + std::to_string(e) + ".";
    if (e == 0) {
      p.kv[pre + "page"] = 0;
      continue;
    }
    if (e > 0) random_layout(p, r, pre);
    p.kv[pre + "hist"] = r.chance(0.5) ? static_cast<int64_t>(r.below(4)) : 0;
    p.kv[pre + "hseed"] = static_cast<int64_t>(r.next() >> 20);
    p.kv[pre + "uniq"] = r.chance(0.5) ? static_cast<int64_t>(r.below(1000)) : 0;
    p.kv[pre + "thread"] = r.chance(0.4);
    p.kv[pre + "keep"] = r.chance(0.5);
    p.kv[pre + "twice"] = r.chance(0.3);
    p.kv[pre + "locale"] = r.chance(0.3);
  }
  p.kv["gap"] = 700;
}
// What a program that embeds the library may have installed: numbers as people write them.
struct local_numbers final : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
  std::string do_truename() const override { return "wahr"; }
  std::string do_falsename() const override { return "falsch"; }
};
void child_c03(const Plan& p, int child) {
  if (p.get("e" + std::to_string(child) + ".locale")) {
    std::locale::global(std::locale(std::locale::classic(), new local_numbers()));
    count(K_LOCALES);
  }
  const std::string pre = "e" + std::to_string(child) + ".";
  sim::arena_setup(layout(p, pre));
  sim::set_simulating(true);
  {
    std::string text;
    auto history = [&](bool keep) {
      std::string junk;
      auto ops = work::make_ops(static_cast<uint64_t>(p.get(pre + "hseed")), static_cast<int>(p.get(pre + "hist")), ALL);
      static Pool held;  // kept alive: the heap is not in a pristine state
      if (keep) work::fill_pool(held, static_cast<uint64_t>(p.get(pre + "hseed")), 2);
      for (const auto& o : ops) work::run_op(o, nullptr, junk);
      for (int64_t i = 0; i < p.get(pre + "uniq"); ++i) make_unique_variable_symbol(number_set::real);
    };
    auto body = [&] {
      text.clear();
      for (const auto& o : p.ops) {
        std::string s;
        work::run_op(OpSpec{o.op, o.seed}, nullptr, s);
        text += work::normalise(s);
        count(K_OPS);
      }
    };
    if (p.get(pre + "thread")) {
      go(schedule(p, child, false), 2, [&](int t) { if (t == 0) history(p.get(pre + "keep") != 0); else body(); });
    } else {
      alone(p, [&](int) {
        history(p.get(pre + "keep") != 0);
        body();
        if (p.get(pre + "twice")) body();
      });
    }
    alone(p, [&](int) { emit(text); });
  }
  sim::set_simulating(false);
}
bool compare_c03(const Plan& p, Shared* a, std::string& kind, std::string& detail) {
  const std::string x(a[0].text, a[0].text_len);
  for (int e = 1; e < child_count(p); ++e) {
    const std::string y(a[e].text, a[e].text_len);
    if (x != y) {
      kind = "output-not-reproducible";
      detail = "the same input gave different output in environments 0 and " + std::to_string(e) + ": " + diff_context(x, y);
      return true;
    }
  }
  return false;
}

// ------------------------------------------------------------------------------------------ C04 ---
void plan_c04(Plan& p, Rng& r, int tier) {
  const bool cold = r.chance(0.4);
  p.kv["cold"] = cold;
  p.kv["pool_level"] = static_cast<int64_t>(r.below(3));
  p.kv["pool_seed"] = static_cast<int64_t>(r.next() >> 20);
  random_layout(p, r, "", 0);
  p.kv["gap"] = 0;
  const uint64_t ops = cold && r.chance(0.25) ? uint64_t(1) << work::OP_CONSTANTS | uint64_t(1) << work::OP_API : ALL;
  for (const auto& o : work::make_ops(r.next(), 1, ops)) p.ops.push_back(OpLine{0, o.op, o.seed});
  int nf = cold ? (tier ? 16 : 10) : (tier ? 60 : 24);
  for (int i = 0; i < nf; ++i) {
    uint64_t c = r.chance(0.6) ? 1 : r.chance(0.5) ? r.below(5) + 2 : 1000000000ull;
    p.faults.push_back(FaultLine{r.next() >> 24, c});
  }
}
constexpr uint64_t RECMAX = 1 << 16;
uint64_t g_first[RECMAX], g_again[RECMAX];
void cold_c04(const Plan& p, int child, Shared* all) {
  sim::arena_setup(layout(p, ""));
  sim::set_simulating(true);
  count(K_COLD);
  {
    Pool pool;
    alone(p, [&](int) { work::fill_pool(pool, static_cast<uint64_t>(p.get("pool_seed")), 0); });
    alone(p, [&](int) {
      const OpSpec spec{p.ops[0].op, p.ops[0].seed};
      if (child > 0) {
        const FaultLine f = p.faults[static_cast<size_t>(child - 1)];
        const uint64_t n = std::max<uint64_t>(all[0].counters[K_ALLOCS], 1);
        std::string out;
        bool bad = false;
        count(K_FAULTS_ARMED);
        // most of them at an allocation that only the first use makes
        const bool special = all[0].ncold && f.at % 4;
        count(K_COLD_PATHS, special);
        sim::alloc_fault_arm(special ? all[0].cold[(f.at / 4) % all[0].ncold] : f.at % n + 1, f.count);
        try { work::run_op(spec, &pool, out); } catch (const std::bad_alloc&) { bad = true; }
        sim::alloc_fault_disarm();
        count(K_FAULTS_FIRED, sim::alloc_fault_fired());
        count(bad ? K_BADALLOC : K_SURVIVED);
        const std::string want(all[0].text, all[0].text_len);
        if (!bad && work::normalise(out) + pool_text(pool) != want) fail("wrong-result-after-allocation-failure", diff_context(want, work::normalise(out)));
        count(K_RETRIES);
      } else {
        sim::alloc_record(g_first, RECMAX);
        sim::alloc_fault_arm(~0ull, 0);
      }
      std::string out;
      work::run_op(spec, &pool, out);
      if (child == 0) {
        count(K_ALLOCS, sim::alloc_fault_seen());
        const uint64_t n1 = std::min(sim::alloc_fault_seen(), RECMAX);
        std::string again;
        sim::alloc_record(g_again, RECMAX);
        sim::alloc_fault_arm(~0ull, 0);
        work::run_op(spec, &pool, again);
        const uint64_t n2 = std::min(sim::alloc_fault_seen(), RECMAX);
        sim::alloc_fault_disarm();
        sim::alloc_record(nullptr, 0);
        std::sort(g_again, g_again + n2);
        for (uint64_t i = 0; i < n1 && all[0].ncold < std::size(all[0].cold); ++i)
          if (!std::binary_search(g_again, g_again + n2, g_first[i])) all[0].cold[all[0].ncold++] = i + 1;
      }
      emit(work::normalise(out));
      emit(pool_text(pool));
      pool = Pool{};
    });
  }
  count(K_OPS);
  sim::set_simulating(false);
  count(K_LIVE_END, sim::heap_stats().live_blocks);
  count(K_LIVEBYTES_END, sim::heap_stats().live_bytes);
  count(K_LEAKED, sim::heap_unreachable());
}
// After a failed attempt left more blocks allocated twice in a row: are they lost, or does every
// further attempt keep more of them? (A bounded cache does neither.)
template <typename F>
bool really_leaks(uint64_t unreachable_before, F&& attempt) {
  if (sim::heap_unreachable() > unreachable_before) return true;
  for (int i = 0; i < 300; ++i) {
    const uint64_t live = sim::heap_stats().live_blocks;
    attempt();
    if (sim::heap_stats().live_blocks <= live) return false;
  }
  return true;
}
void warm_c04(const Plan& p) {
  sim::alloc_fault_third_party(p.get("absl") != 0);
  sim::arena_setup(layout(p, ""));
  sim::set_simulating(true);
  {
    Pool pool;
    alone(p, [&](int) {
      work::fill_pool(pool, static_cast<uint64_t>(p.get("pool_seed")), static_cast<int>(p.get("pool_level")));
      const std::string before = pool_text(pool);
      for (const auto& o : p.ops) {
        const OpSpec spec{o.op, o.seed};
        std::string base;
        for (int i = 0; i < 2; ++i) {
          base.clear();
          work::run_op(spec, &pool, base);
        }
        base = work::normalise(base);
        uint64_t n;
        {
          std::string s;
          sim::alloc_fault_arm(~0ull, 0);
          work::run_op(spec, &pool, s);
          sim::alloc_fault_disarm();
          n = std::max<uint64_t>(sim::alloc_fault_seen(), 1);
        }
        count(K_ALLOCS, n);
        const uint64_t lost = sim::heap_unreachable();
        uint64_t live = sim::heap_stats().live_blocks;
        for (const auto& f : p.faults) {
          uint64_t grown = 0;
          const auto attempt_once = [&] {
              std::string out;
              bool bad = false;
              count(K_FAULTS_ARMED);
              sim::alloc_fault_arm(f.at % n + 1, f.count);
              try { work::run_op(spec, &pool, out); } catch (const std::bad_alloc&) { bad = true; }
              sim::alloc_fault_disarm();
              count(K_FAULTS_FIRED, sim::alloc_fault_fired());
              count(bad ? K_BADALLOC : K_SURVIVED);
              if (!bad) {
                const std::string got = work::normalise(out);
                if (got != base) fail("wrong-result-after-allocation-failure", diff_context(base, got));
              }
          };
          for (int attempt = 0; attempt < 2; ++attempt) {
            attempt_once();
            const uint64_t now = sim::heap_stats().live_blocks;
            grown = now > live ? now - live : 0;
            live = now;
            if (!grown) break;
          }
          if (grown && really_leaks(lost, attempt_once)) fail("leak-after-allocation-failure", std::to_string(grown) + " heap blocks are never released after a failed allocation (" + work::op_names[o.op] + ")");
          if (sim::Rng(f.at).chance(0.34)) {
            std::string again;
            work::run_op(spec, &pool, again);
            again = work::normalise(again);
            count(K_RETRIES);
            if (again != base) fail("retry-differs", diff_context(base, again));
          }
          live = sim::heap_stats().live_blocks;
        }
        std::string again;
        work::run_op(spec, &pool, again);
        again = work::normalise(again);
        count(K_RETRIES);
        if (again != base) fail("retry-differs", diff_context(base, again));
        count(K_OPS);
        emit(base);
      }
      const std::string after = pool_text(pool);
      if (after != before) fail("object-changed-by-allocation-failure", diff_context(before, after));
      pool = Pool{};
    });
  }
  sim::set_simulating(false);
}
bool compare_c04(const Plan& p, Shared* a, std::string& kind, std::string& detail) {
  if (!p.get("cold")) return false;
  const std::string x(a[0].text, a[0].text_len);
  for (int e = 1; e < child_count(p); ++e) {
    const std::string y(a[e].text, a[e].text_len);
    if (x != y) {
      kind = "cold-retry-differs";
      detail = "after an allocation failure in the first use of a feature, the repeated operation differs: " + diff_context(x, y);
      return true;
    }
    // (A cache may keep another number of blocks than without the failure; those can be reached.)
    if (a[e].counters[K_LEAKED] > a[0].counters[K_LEAKED]) {
      kind = "cold-leak";
      detail = "after an allocation failure in the first use of a feature, " + std::to_string(a[e].counters[K_LEAKED] - a[0].counters[K_LEAKED]) + " more heap blocks are lost (allocated, but no pointer leads to them) than without it";
      return true;
    }
  }
  return false;
}

// ------------------------------------------------------------------------------------------ C05 ---
void plan_c05(Plan& p, Rng& r, int tier) {
  random_layout(p, r, "", 0);
  int n = r.range(3, tier ? 16 : 10);
  p.kv["mask"] = static_cast<int64_t>(1 + r.below(127));
  p.kv["ternaries"] = r.chance(0.5);
  for (int i = 0; i < n; ++i) {
    // thread field: position of the allocation that fails (0: none)
    int f = r.chance(0.6) ? r.range(1, 14) : 0;
    p.ops.push_back(OpLine{f, static_cast<int>(r.below(9)), r.next() >> 20});
  }
}
const char* const arg_names[] = {"a", "b", "c", "a_rather_long_argument_name_that_needs_the_heap", "another_rather_long_argument_name", "d", "e"};
struct DeclModel {
  struct A { std::string name, type; int dir; };
  std::vector<A> args;
  std::optional<std::string> ret;
  std::map<std::string, std::string> outs;
  std::string text() const {
    std::string s;
    int i = 0;
    for (const auto& a : args) s += std::to_string(i++) + ":" + a.name + ":" + a.type + ":" + std::to_string(a.dir) + "\n";
    s += "ret " + (ret ? *ret : std::string("none")) + "\n";
    for (const auto& [k, v] : outs) s += k + "=" + v + "\n";
    return s;
  }
};
std::string type_text(const type_variant& t) {
  if (const scalar_type* s = std::get_if<scalar_type>(&t)) return "scalar" + std::to_string(static_cast<int>(s->numeric_type()));
  if (const matrix_type* m = std::get_if<matrix_type>(&t)) return "matrix" + std::to_string(m->rows()) + "x" + std::to_string(m->cols());
  return "custom " + std::string(std::get<custom_type>(t).name());
}
std::string any_text(const any_expression& e) {
  return std::visit([](const auto& x) { return x.to_string(); }, e);
}
std::string real_text(const function_description& d) {
  std::string s;
  for (const auto& a : d.arguments()) s += std::to_string(a.index()) + ":" + a.name() + ":" + type_text(a.type()) + ":" + std::to_string(static_cast<int>(a.direction())) + "\n";
  s += "ret " + (d.return_value_type() ? type_text(*d.return_value_type()) : std::string("none")) + "\n";
  std::map<std::string, std::string> outs;
  for (const auto& [k, v] : d.output_expressions()) outs[std::to_string(static_cast<int>(k.usage)) + "/" + k.name] = any_text(v);
  for (const auto& [k, v] : outs) s += k + "=" + v + "\n";
  return s;
}
struct Decl {  // one declaration, fully prepared before any fault is armed
  int kind;
  std::string name;
  std::optional<type_variant> type;
  bool optional = false;
  std::optional<any_expression> expr;
};
scalar_expr some_expr(Rng& r, const std::vector<scalar_expr>& in) {
  scalar_expr s{r.range(1, 5)};
  for (const auto& x : in) {
    switch (r.below(5)) {
      case 0: s = s * x; break;
      case 1: s = s + cos(x); break;
      case 2: s = s + pow(x, 2); break;
      case 3: s = where(x < s, x, s); break;
      default: break;
    }
  }
  return s;
}
void child_c05(const Plan& p) {
  sim::arena_setup(layout(p, ""));
  sim::set_simulating(true);
  alone(p, [&](int) {
    const custom_type pt = work::sample_custom_type();
    std::vector<scalar_expr> inputs;
    function_description d{"described_function"};
    DeclModel model;
    std::vector<Decl> done;
    auto apply = [](function_description& fd, const Decl& c, std::vector<scalar_expr>* in) {
      switch (c.kind) {
        case 0: {
          if (const scalar_type* s = std::get_if<scalar_type>(&*c.type)) {
            scalar_expr e = fd.add_input_argument(c.name, *s);
            sim::alloc_fault_disarm();
            if (in) in->push_back(e);
          } else if (const matrix_type* m = std::get_if<matrix_type>(&*c.type)) {
            matrix_expr e = fd.add_input_argument(c.name, *m);
            sim::alloc_fault_disarm();
            if (in) in->push_back(e(0, 0));
          } else {
            compound_expr e = fd.add_input_argument(c.name, std::get<custom_type>(*c.type));
            sim::alloc_fault_disarm();
            if (in) in->push_back(create_expression_elements(e, 2)[1]);
          }
          break;
        }
        case 1: fd.add_output_argument(c.name, *c.type, c.optional, *c.expr); break;
        default: fd.set_return_value(*c.type, *c.expr); break;
      }
    };
    for (const auto& o : p.ops) {
      Rng r(o.seed);
      Decl c;
      c.name = arg_names[r.below(7)];
      c.kind = o.op < 4 ? 0 : o.op < 7 ? 1 : 2;
      switch (r.below(4)) {
        case 0: c.type = type_variant{matrix_type{r.range(1, 2), r.range(1, 3)}}; break;
        case 1: c.type = type_variant{pt}; break;
        default: c.type = type_variant{scalar_type{c.kind == 0 && r.chance(0.2) ? numeric_primitive_type::integral : numeric_primitive_type::floating_point}}; break;
      }
      c.optional = r.chance(0.3);
      if (c.kind) {
        const scalar_expr a = some_expr(r, inputs), b = some_expr(r, inputs);
        if (const matrix_type* m = std::get_if<matrix_type>(&*c.type)) {
          std::vector<scalar_expr> el;
          for (int i = 0; i < m->rows() * m->cols(); ++i) el.push_back(i & 1 ? a : b + i);
          c.expr = any_expression{matrix_expr::create(m->rows(), m->cols(), std::move(el))};
        } else if (std::holds_alternative<custom_type>(*c.type)) {
          c.expr = any_expression{create_custom_type_construction(pt, std::vector<scalar_expr>{a, b})};
        } else {
          c.expr = any_expression{a * b};
        }
      }
      bool rejected_by_model = false;
      if (c.kind == 2) rejected_by_model = model.ret.has_value();
      else for (const auto& a : model.args) rejected_by_model |= a.name == c.name;
      const std::string before = real_text(d);
      int result = 0;  // 0 ok, 1 rejected, 2 bad_alloc
      std::string what;
      count(K_DECLS);
      if (o.thread > 0) { count(K_FAULTS_ARMED); sim::alloc_fault_arm(static_cast<uint64_t>(o.thread), o.seed & 1 ? 1 : 1000000); }
      try {
        apply(d, c, &inputs);
      } catch (const std::bad_alloc&) {
        result = 2;
      } catch (const std::exception& e) {
        sim::alloc_fault_disarm();
        result = 1;
        what = e.what();
      }
      sim::alloc_fault_disarm();
      if (o.thread > 0) count(K_FAULTS_FIRED, sim::alloc_fault_fired());
      if (result == 2) count(K_BADALLOC);
      if (result) count(K_DECL_FAILED);
      if (result == 2 && sim::alloc_fault_fired() == 0) fail("bad-alloc-without-fault", "a declaration reported out-of-memory although no allocation failed");
      if (result == 1 && !rejected_by_model) fail("declaration-wrongly-rejected", "declaration of `" + c.name + "` rejected: " + what + "; description: " + before);
      if (result == 0 && rejected_by_model) fail("duplicate-declaration-accepted", "declaration of `" + c.name + "` accepted twice; description: " + real_text(d));
      if (result == 0) {
        if (c.kind == 0) model.args.push_back({c.name, type_text(*c.type), static_cast<int>(argument_direction::input)});
        if (c.kind == 1) {
          model.args.push_back({c.name, type_text(*c.type), static_cast<int>(c.optional ? argument_direction::optional_output : argument_direction::output)});
          model.outs[std::to_string(static_cast<int>(c.optional ? expression_usage::optional_output_argument : expression_usage::output_argument)) + "/" + c.name] = any_text(*c.expr);
        }
        if (c.kind == 2) {
          model.ret = type_text(*c.type);
          model.outs[std::to_string(static_cast<int>(expression_usage::return_value)) + "/"] = any_text(*c.expr);
        }
        done.push_back(c);
      }
      const std::string after = real_text(d);
      if (result && after != before) fail("failed-declaration-changed-description", "a declaration that failed (" + std::string(result == 2 ? "out of memory" : what) + ") changed the description: " + diff_context(before, after));
      if (after != model.text()) fail("description-differs-from-model", diff_context(model.text(), after));
    }
    // Code generated from the survivor equals code generated from a description that never saw a failure.
    function_description clean{"described_function"};
    for (const auto& c : done) apply(clean, c, nullptr);
    std::string got, want;
    auto gen = [&](const function_description& fd, std::string& out) {
      try { work::generate_description(fd, static_cast<unsigned>(p.get("mask")), p.get("ternaries") != 0, out); } catch (const std::bad_alloc&) { throw; } catch (const std::exception& e) { out += std::string("EXC:") + e.what(); }
    };
    gen(d, got);
    gen(clean, want);
    if (got != want) fail("generated-code-differs", diff_context(want, got));
    emit(want);
    count(K_OPS);
  });
  sim::set_simulating(false);
}

// ------------------------------------------------------------------------------------------ C09 ---
struct Json {  // strict parser for the subset of values a trace may hold
  const std::string& s;
  size_t i = 0;
  explicit Json(const std::string& t) : s(t) {}
  struct Val { int k = 0; std::string str; int64_t num = 0; std::vector<Val> arr; std::map<std::string, Val> obj; };
  [[noreturn]] void bad(const char* m) { fail("invalid-json", std::string(m) + " at offset " + std::to_string(i) + ": " + s.substr(i > 60 ? i - 60 : 0, 120)); }
  void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) ++i; }
  char peek() { if (i >= s.size()) bad("unexpected end"); return s[i]; }
  void expect(char c) { if (peek() != c) bad("unexpected character"); ++i; }
  std::string string() {
    expect('"');
    std::string o;
    while (peek() != '"') {
      if (static_cast<unsigned char>(s[i]) < 32) bad("control character in a string");
      if (s[i] == '\\') {
        ++i;
        char c = peek();
        if (c == 'u') {
          for (int k = 1; k <= 4; ++k) if (i + static_cast<size_t>(k) >= s.size() || !isxdigit(s[i + static_cast<size_t>(k)])) bad("bad escape");
          const long u = strtol(s.substr(i + 1, 4).c_str(), nullptr, 16);
          if (u < 128) o += static_cast<char>(u);
          else if (u < 2048) { o += static_cast<char>(0xC0 | (u >> 6)); o += static_cast<char>(0x80 | (u & 63)); }
          else { o += static_cast<char>(0xE0 | (u >> 12)); o += static_cast<char>(0x80 | ((u >> 6) & 63)); o += static_cast<char>(0x80 | (u & 63)); }
          i += 4;
        } else if (const char* q = strchr("\"\\/bfnrt", c)) o += "\"\\/\b\f\n\r\t"[q - "\"\\/bfnrt"];
        else bad("bad escape");
        ++i;
      } else o += s[i++];
    }
    ++i;
    return o;
  }
  Val value() {
    ws();
    Val v;
    char c = peek();
    if (c == '{') {
      v.k = 1; ++i; ws();
      if (peek() == '}') { ++i; return v; }
      for (;;) {
        ws();
        std::string k = string();
        ws(); expect(':');
        if (v.obj.count(k)) bad("duplicate key");
        v.obj[k] = value();
        ws();
        if (peek() == ',') { ++i; continue; }
        expect('}');
        return v;
      }
    }
    if (c == '[') {
      v.k = 2; ++i; ws();
      if (peek() == ']') { ++i; return v; }
      for (;;) {
        v.arr.push_back(value());
        ws();
        if (peek() == ',') { ++i; continue; }
        expect(']');
        return v;
      }
    }
    if (c == '"') { v.k = 3; v.str = string(); return v; }
    if (c == '-' || (c >= '0' && c <= '9')) {
      v.k = 4;
      size_t st = i;
      if (c == '-') ++i;
      if (peek() < '0' || peek() > '9') bad("bad number");
      if (s[i] == '0' && i + 1 < s.size() && isdigit(s[i + 1])) bad("leading zero");
      while (i < s.size() && isdigit(s[i])) ++i;
      if (i < s.size() && s[i] == '.') { ++i; if (i >= s.size() || !isdigit(s[i])) bad("bad number"); while (i < s.size() && isdigit(s[i])) ++i; }
      v.num = strtoll(s.substr(st, i - st).c_str(), nullptr, 10);
      return v;
    }
    bad("unexpected character");
  }
  Val document() { Val v = value(); ws(); if (i != s.size()) bad("trailing text"); return v; }
};

struct ScopeRec { std::string name; int parent; bool completed; };
struct ThrownByTest { int x; };

void plan_c09(Plan& p, Rng& r, int tier) {
  int n = r.range(1, 4);
  p.kv["threads"] = n;
  random_layout(p, r, "");
  random_schedule(p, r);
  if (r.chance(0.7)) p.kv["gap"] = 200 + static_cast<int64_t>(r.below(400));
  p.kv["jump_ppm"] = r.chance(0.7) ? 50000 + static_cast<int64_t>(r.below(400000)) : 0;
  p.kv["max_jump_us"] = r.chance(0.5) ? 2000000 : 50;
  p.kv["tick"] = r.chance(0.45) ? 300 : r.chance(0.8) ? 100000 : 5000000000;
  p.kv["names"] = r.chance(0.3);
  p.kv["file"] = r.chance(0.35) ? static_cast<int64_t>(1 + r.below(7)) : 0;
  p.kv["file_n"] = static_cast<int64_t>(r.chance(0.5) ? r.below(40) : r.below(3000));
  p.kv["core"] = r.chance(0.25);
  if (r.chance(0.35)) p.faults.push_back(FaultLine{1 + r.below(60), r.chance(0.7) ? 1 : r.below(8) + 2});
  for (int t = 0; t < n; ++t) {
    int k = r.range(0, tier ? 30 : 14);
    for (int i = 0; i < k; ++i) p.ops.push_back(OpLine{t, static_cast<int>(r.below(6)), r.next() >> 20});
  }
  if (r.chance(0.01)) {
    // very many scopes of one name in one thread
    static constexpr uint64_t amounts[] = {300, 5000, 20000, 70000, 140000};
    const uint64_t a = r.chance(0.9) ? amounts[r.below(3)] : amounts[3 + r.below(2)];
    p.ops.push_back(OpLine{r.range(0, n - 1), 6, a + r.below(100)});
    p.faults.clear();
    p.kv["core"] = 0;
    p.kv["gap"] = 100000;
    p.kv["p_sync"] = p.kv["p_atomic"] = 10;
  }
  if (p.kv["core"]) {
    const uint64_t mask = (1ull << work::OP_DIFF) | (1ull << work::OP_SUBS) | (1ull << work::OP_CODEGEN_SAMPLE) | (1ull << work::OP_IR) | (1ull << work::OP_SUMS) | (1ull << work::OP_REBUILD);
    for (int t = 0; t < n; ++t) for (const auto& o : work::make_ops(r.next(), 1, mask)) p.ops.push_back(OpLine{t, 100 + o.op, o.seed});
  }
}
// A destructor that runs traced code: during unwinding, these scopes complete normally.
struct TracedCleanup {
  std::function<void()> f;
  ~TracedCleanup() { f(); }
};
void child_c09(const Plan& p, int child) {
  const bool reference = child == 0 && p.get("core");
  const bool faults = !reference;
  sim::ClockConfig k;
  k.enabled = true;
  k.seed = p.seed;
  k.max_tick_ns = p.get("tick", 1000);
  k.p_jump = static_cast<double>(p.get("jump_ppm")) * 1e-6;
  k.max_jump_ns = p.get("max_jump_us") * 1000;
  sim::clock_setup(k);
  sim::arena_setup(layout(p, ""));
  char cwd[256];
  const bool have_cwd = getcwd(cwd, sizeof cwd) != nullptr;
  if (!have_cwd || strncmp(cwd, "/tmp/", 5) != 0) sim::harness_error("tracing scenarios must run in a scratch directory");
  const int devnull = open("/dev/null", O_WRONLY);
  dup2(devnull, 1);
  close(devnull);
  unlink("trace.json");
  const int n = static_cast<int>(p.get("threads"));
  const int ff = faults ? static_cast<int>(p.get("file")) : 0;
  std::vector<std::string> storage;
  std::vector<std::vector<ScopeRec>> rec(static_cast<size_t>(n));
  // All names exist before the simulation starts; a scope only keeps a view of its name.
  static const char* const odd[] = {"", "\"", "\\", " operator\"\"_s", "a\\\"b", "\n\t", "\x01", "{}", "{0} %s %n", "\xC3\xA9", "[]},", "\\u0041", " with a name that is rather long, so that it is certainly not kept inside a small string: 0123456789012345678901234567890123456789"};
  for (size_t i = 0; i < p.ops.size() * 4 + 4; ++i) storage.push_back("scope_" + std::to_string(i) + (p.get("names") ? odd[(p.seed + i) % (sizeof odd / sizeof odd[0])] : ""));
  const std::string bulk_name = "scope_bulk";
  std::vector<int64_t> bulk(static_cast<size_t>(n));
  for (auto& v : rec) v.reserve(p.ops.size() * 160 + 4);
  std::vector<int> core_count(static_cast<size_t>(n));
  sim::set_simulating(true);
  const std::string path = ff == 5 ? "missing_directory/trace.json" : ff == 6 ? std::string(300, 'n') + "/trace.json" : ff == 7 ? "plain_file/trace.json" : "trace.json";
  if (ff == 7) { std::ofstream f("plain_file"); f << "x"; }
  // Some runs let the first scope create the collector, possibly while an allocation fails.
  const bool cold = (p.seed >> 3) % 3 == 0;
  if (!cold) alone(p, [&](int) { trace_collector::get_instance()->set_output_path(path); });
  uint64_t fired = 0;
  std::atomic<bool> arm{false};
  {
    auto body = [&](int t) {
      if (arm.exchange(false)) sim::alloc_fault_arm(p.faults[0].at, p.faults[0].count);
      auto& mine = rec[static_cast<size_t>(t)];
      size_t base = 0;
      for (const auto& o : p.ops) {
        const size_t id = 4 * base++;
        if (o.thread != t) continue;
        if (o.op >= 100) {
          std::string s;
          try { work::run_op(OpSpec{o.op - 100, o.seed}, nullptr, s); } catch (const std::bad_alloc&) {}
          ++core_count[static_cast<size_t>(t)];
          continue;
        }
        auto mark = [&](size_t q, int parent) { mine.push_back(ScopeRec{storage[id + q], parent, false}); return mine.size() - 1; };
        try {
        switch (o.op) {
          case 0: {  // a flat scope
            size_t a = mark(0, -1);
            { scoped_trace s{storage[id]}; sim::yield_point(); }
            mine[a].completed = true;
            break;
          }
          case 1: {  // nested scopes
            size_t a = mark(0, -1), b = mark(1, static_cast<int>(a)), c = mark(2, static_cast<int>(b));
            {
              scoped_trace s0{storage[id]};
              {
                scoped_trace s1{storage[id + 1]};
                sim::yield_point();
                { scoped_trace s2{storage[id + 2]}; }
                mine[c].completed = true;
              }
              mine[b].completed = true;
              sim::yield_point();
            }
            mine[a].completed = true;
            break;
          }
          case 2: {  // left by an exception, inside a scope that completes
            size_t a = mark(0, -1), b = mark(1, static_cast<int>(a));
            (void)b;
            {
              scoped_trace s0{storage[id]};
              try {
                scoped_trace s1{storage[id + 1]};
                count(K_EXC_SCOPES);
                throw ThrownByTest{1};
              } catch (const ThrownByTest&) {
              }
            }
            mine[a].completed = true;
            break;
          }
          case 3: {  // completes normally inside a destructor that runs because of an exception
            size_t a = mark(0, -1);
            try {
              TracedCleanup cleanup{[&] { scoped_trace s0{storage[id]}; }};
              count(K_EXC_SCOPES);
              throw ThrownByTest{2};
            } catch (const ThrownByTest&) {
            }
            mine[a].completed = true;
            break;
          }
          case 5: {  // deeply nested
            const int depth = 3 + static_cast<int>(o.seed % (o.seed % 5 ? 20 : 150));
            const size_t first = mine.size();
            for (int q = 0; q < depth; ++q) mark(static_cast<size_t>(q ? 1 : 0), q ? static_cast<int>(first) + q - 1 : -1);
            std::function<void(int)> enter = [&](int q) {
              { scoped_trace s{q ? storage[id + 1] : storage[id]}; if (q + 1 < depth) enter(q + 1); else sim::yield_point(); }
              mine[first + static_cast<size_t>(q)].completed = true;
            };
            enter(0);
            break;
          }
          case 6: {
            for (uint64_t q = 0; q < o.seed; ++q) { scoped_trace s{bulk_name}; }
            bulk[static_cast<size_t>(t)] += static_cast<int64_t>(o.seed);
            break;
          }
          default: {  // siblings in a scope
            size_t a = mark(0, -1), b = mark(1, static_cast<int>(a)), c = mark(2, static_cast<int>(a)), d = mark(3, static_cast<int>(a));
            {
              scoped_trace s0{storage[id]};
              { scoped_trace s1{storage[id + 1]}; }
              mine[b].completed = true;
              { scoped_trace s1{storage[id + 2]}; sim::yield_point(); }
              mine[c].completed = true;
              { scoped_trace s1{storage[id + 3]}; }
              mine[d].completed = true;
            }
            mine[a].completed = true;
            break;
          }
        }
        } catch (const std::bad_alloc&) {
          // the harness' own allocation failed; nothing to record
        }
        count(K_OPS);
      }
    };
    if (faults && !p.faults.empty()) { count(K_FAULTS_ARMED); arm = true; }
    if (reference) alone(p, [&](int) { for (int t = 0; t < n; ++t) body(t); });
    else { count(K_THREADS, static_cast<uint64_t>(n)); go(schedule(p, child, false), n, body); }
    if (p.get("late_faults", 0) == 0) sim::alloc_fault_disarm();
    fired = faults ? sim::alloc_fault_fired() : 0;
    count(K_FAULTS_FIRED, fired);
  }
  if (cold) {
    const bool late = p.get("late_faults", 0) != 0;
    if (late) sim::alloc_fault_disarm();
    alone(p, [&](int) { trace_collector::get_instance()->set_output_path(path); });
  }
  // The collector writes its file when it is destroyed (at process exit in a real program).
  sim::FileFault fc;
  fc.kind = ff == 4 ? 0 : ff <= 4 ? ff : 0;
  fc.n = static_cast<uint64_t>(p.get("file_n"));
  fc.seed = p.seed;
  if (ff == 4) { mkdir("trace.json", 0700); }
  sim::file_setup(fc);
  uint64_t write_fault = 0;
  alone(p, [&](int) {
    trace_collector* collector = nullptr;
    try {
      collector = trace_collector::get_instance();
    } catch (const std::bad_alloc&) {
      sim::alloc_fault_disarm();
      collector = trace_collector::get_instance();
    }
    if (faults && p.faults.size() > 0 && (p.seed & 3) == 0) { sim::alloc_fault_arm(1 + p.faults[0].at % 12, p.faults[0].count); write_fault = 1; }
    collector->~trace_collector();
  });
  if (write_fault) { sim::alloc_fault_disarm(); write_fault = sim::alloc_fault_fired(); count(K_FAULTS_FIRED, write_fault); }
  const uint64_t ffired = sim::file_faults_fired() + (ff >= 4 ? 1 : 0);
  sim::file_setup(sim::FileFault{});
  sim::set_simulating(false);
  count(K_FILEFAULTS, ffired);
  count(K_JUMPS, sim::clock_jumps());
  count(K_CLOCKREADS, sim::clock_reads());
  if (ff == 4) rmdir("trace.json");
  if (ff == 7) unlink("plain_file");
  std::string content;
  struct stat st;
  const bool exists = ff < 4 && stat("trace.json", &st) == 0;
  if (exists) {
    std::ifstream f("trace.json", std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    content = ss.str();
  }
  unlink("trace.json");
  // Short and interrupted writes must be completed; only real errors excuse a damaged file.
  const bool file_excused = ff >= 4 || ((ff == 1 || ff == 2) && ffired > 0) || write_fault > 0;
  if (file_excused) { emit("excused"); return; }
  if (!exists) fail("trace-missing", "no trace file was written");
  Json js(content);
  const Json::Val doc = js.document();
  auto ev = doc.obj.find("traceEvents");
  if (ev == doc.obj.end() || ev->second.k != 2) fail("invalid-json", "no traceEvents array");
  struct E { int64_t ts, dur; };
  auto inside = [](const E& c, const E& q) { return c.ts >= q.ts && c.ts * 1000 + c.dur <= q.ts * 1000 + q.dur + 1000; };
  std::vector<int64_t> bulk_seen(static_cast<size_t>(n));
  std::vector<std::map<std::string, std::vector<E>>> seen(static_cast<size_t>(n));
  std::vector<std::map<std::string, int>> core(static_cast<size_t>(n));
  for (const auto& e : ev->second.arr) {
    auto f = [&](const char* key, int kind) -> const Json::Val& {
      auto it = e.obj.find(key);
      if (it == e.obj.end() || it->second.k != kind) fail("malformed-event", std::string("event without ") + key);
      return it->second;
    };
    const std::string name = f("name", 3).str;
    if (f("ph", 3).str != "X") fail("malformed-event", "phase is not X");
    const int64_t dur = f("dur_ns", 4).num, ts = f("ts", 4).num;
    if (f("pid", 4).num != 4242) fail("wrong-process", "event of another process id");
    const int64_t tid = f("tid", 4).num - 7001;
    if (dur < 0 || f("dur", 4).num < 0) fail("negative-duration", "scope " + name + " has duration " + std::to_string(dur) + " ns");
    if (f("dur", 4).num != dur / 1000) fail("malformed-event", "dur and dur_ns disagree");
    if (tid < 0 || tid >= n) fail("wrong-thread", "scope " + name + " is attributed to unknown thread " + std::to_string(tid + 7001));
    if (name.compare(0, 6, "scope_") != 0) { ++core[reference ? 0 : static_cast<size_t>(tid)][name]; continue; }
    if (name == bulk_name) { ++bulk_seen[reference ? 0 : static_cast<size_t>(tid)]; continue; }
    seen[reference ? 0 : static_cast<size_t>(tid)][name].push_back(E{ts, dur});
  }
  uint64_t missing = 0;
  for (int t = 0; t < n; ++t) {
    const size_t st2 = static_cast<size_t>(t);
    if (!reference) {
      if (bulk_seen[st2] > bulk[st2]) fail("scope-recorded-twice", bulk_name + " appears " + std::to_string(bulk_seen[st2]) + " times, expected " + std::to_string(bulk[st2]));
      missing += static_cast<uint64_t>(bulk[st2] - bulk_seen[st2]);
      count(K_SCOPES, static_cast<uint64_t>(bulk[st2]));
    }
    auto& s = seen[reference ? 0 : st2];
    std::map<std::string, std::pair<size_t, size_t>> expected;  // entered, completed
    for (const auto& x : rec[st2]) { ++expected[x.name].first; expected[x.name].second += x.completed; }
    if (!reference) for (const auto& [name, e] : s) if (!expected.count(name)) fail("unknown-scope", "the trace has a scope `" + name + "` on a thread that did not enter it");
    for (const auto& [name, want] : expected) {
      count(K_SCOPES, want.first);
      auto it = s.find(name);
      const size_t got = it == s.end() ? 0 : it->second.size();
      if (got > want.first) fail("scope-recorded-twice", name + " appears " + std::to_string(got) + " times, expected " + std::to_string(want.first));
      if (got < want.second) missing += want.second - got;
      if (got > 1) {  // one inside the other
        auto& v = it->second;
        std::sort(v.begin(), v.end(), [](const E& a, const E& b) { return std::make_pair(a.ts, -a.dur) < std::make_pair(b.ts, -b.dur); });
        for (size_t i = 1; i < v.size(); ++i) if (!inside(v[i], v[i - 1])) fail("bad-nesting", "nested scopes of the name " + name + " do not lie inside each other");
      }
    }
    for (const auto& x : rec[st2]) {
      if (x.parent < 0) continue;
      auto it = s.find(x.name), pit = s.find(rec[st2][static_cast<size_t>(x.parent)].name);
      if (it == s.end() || pit == s.end() || it == pit || it->second.size() != 1 || pit->second.size() != 1) continue;
      if (!inside(it->second[0], pit->second[0])) fail("bad-nesting", x.name + " is not inside its enclosing scope " + pit->first);
    }
  }
  if (missing > fired) fail("scope-lost", std::to_string(missing) + " completed scopes are missing from the trace, " + std::to_string(fired) + " allocation failures were injected");
  std::map<std::string, int> total;
  for (const auto& c : core) for (const auto& [k2, v] : c) total[k2] += v;
  if (p.get("core") && fired == 0) {
    std::string s = "core\n";
    for (const auto& [k2, v] : total) s += k2 + " " + std::to_string(v) + "\n";
    emit(s);
  } else emit("excused");
}
bool compare_c09(const Plan& p, Shared* a, std::string& kind, std::string& detail) {
  if (!p.get("core")) return false;
  const std::string x(a[0].text, a[0].text_len), y(a[1].text, a[1].text_len);
  if (x == "excused" || y == "excused" || x == y) return false;
  kind = "core-scopes-lost-or-repeated";
  detail = diff_context(x, y);
  return true;
}

// ------------------------------------------------------------------------------------------ C13 ---
struct Boom { uint64_t id; };
void plan_c13(Plan& p, Rng& r, int tier) {
  random_layout(p, r, "", 0);
  p.kv["gap"] = 0;
  p.kv["pool_seed"] = static_cast<int64_t>(r.next() >> 20);
  int n = r.range(1, tier ? 4 : 2);
  for (int i = 0; i < n; ++i) p.ops.push_back(OpLine{0, static_cast<int>(r.below(5)), r.next() >> 20});
  int nf = tier ? 24 : 10;
  for (int i = 0; i < nf; ++i) p.faults.push_back(FaultLine{r.next() >> 24, r.below(5)});
}
// One library call that takes a callback; `hook` runs at every invocation of the callback.
void with_callback(int op, uint64_t seed, const Pool& pool, const std::function<void()>& hook, std::string& out) {
  Rng r(seed);
  auto mk = [&hook](std::size_t i) { hook(); return scalar_expr{"t" + std::to_string(i)}; };
  switch (op) {
    case 0: {
      const scalar_expr a = work::random_scalar(r, &pool, 3), b = work::random_scalar(r, &pool, 2);
      auto [e, reps] = eliminate_subexpressions(a * b + cos(a) - pow(b, 3) + sin(b) * a + cos(a * b), mk, static_cast<std::size_t>(r.range(1, 2)));
      out += e.to_string();
      for (const auto& [k, v] : reps) out += "; " + k.to_string() + "=" + v.to_string();
      break;
    }
    case 1: {
      const scalar_expr a = work::random_scalar(r, &pool, 2), b = work::random_scalar(r, &pool, 2);
      auto [e, reps] = eliminate_subexpressions(make_vector(a * b, cos(a * b), a + cos(a), sin(b) + cos(a)), mk, static_cast<std::size_t>(r.range(1, 3)));
      out += e.to_string();
      for (const auto& [k, v] : reps) out += "; " + k.to_string() + "=" + v.to_string();
      break;
    }
    case 2: {
      const scalar_expr a = work::random_scalar(r, &pool, 4);
      for (const auto& x : get_expressions_by_predicate(a, [&](const scalar_expr& e) { hook(); return e.is_type<power, variable, addition, multiplication>(); })) out += x.to_string() + ", ";
      break;
    }
    case 3: {
      auto f = [&](scalar_expr x, type_annotations::static_matrix<2, 1> v) {
        hook();
        const scalar_expr a = x * v[0] + cos(v[1]);
        hook();
        const scalar_expr b = where(a > 0, pow(a, 3), work::random_scalar(r, nullptr, 2).subs(scalar_expr{"x"}, x));
        hook();
        scalar_expr c = b;
        for (const char* s : {"x", "y", "z", "w", "u", "v"}) c = c.subs(scalar_expr{s}, x);
        return std::make_tuple(return_value(a * c), output_arg("o", c));
      };
      const function_description d = build_function_description(std::move(f), "fn", arg("x"), arg("v"));
      for (const auto& [k, v] : std::map<std::string, std::string>{{"args", std::to_string(d.arguments().size())}}) out += k + v;
      work::generate_description(d, 1 + 4 + 8, true, out);
      break;
    }
    default: {
      const scalar_expr a = work::random_scalar(r, &pool, 3);
      auto sub = [&](std::size_t i) { hook(); return scalar_expr{"q" + std::to_string(i)} + 1; };
      auto [e, reps] = eliminate_subexpressions(a * a + sin(a) * cos(a), sub, 1);
      out += e.to_expression_tree_string();
      break;
    }
  }
}
void child_c13(const Plan& p) {
  sim::arena_setup(layout(p, ""));
  sim::set_simulating(true);
  alone(p, [&](int) {
    Pool pool;
    work::fill_pool(pool, static_cast<uint64_t>(p.get("pool_seed")), 2);
    const std::string before = pool_text(pool);
    // `out` strings are created before the live block counts are taken
    for (const auto& o : p.ops) {
      uint64_t calls = 0;
      std::string base;
      auto run = [&](const std::function<void()>& hook, std::string& out) -> int {
        try {
          with_callback(o.op, o.seed, pool, hook, out);
        } catch (const Boom& b) {
          return static_cast<int>(b.id);
        } catch (int x) {
          return x;
        } catch (const std::bad_alloc&) {
          return -2;
        } catch (const std::exception& e) {
          out += std::string("EXC:") + e.what();
          return -1;
        }
        return 0;
      };
      for (int i = 0; i < 2; ++i) { base.clear(); calls = 0; run([&] { ++calls; }, base); }
      count(K_CALLBACKS, calls);
      if (!calls) continue;
      std::string warm_nested;
      for (int i = 0; i < 2; ++i) {
        for (const auto& f : p.faults) if (f.count == 4) { warm_nested.clear(); work::run_op(OpSpec{static_cast<int>(f.at % 6), f.at}, &pool, warm_nested); }
      }
      for (const auto& f : p.faults) {
        const uint64_t at = f.at % calls + 1;
        const uint64_t lost = sim::heap_unreachable();
        uint64_t live = sim::heap_stats().live_blocks, grown = 0;
        if (f.count == 4) {  // re-entrant
          std::string out;
          uint64_t i = 0;
          count(K_REENTRANT);
          run([&] { if (++i == at) { std::string junk; work::run_op(OpSpec{static_cast<int>(f.at % 6), f.at}, &pool, junk); } }, out);
          if (out != base) fail("reentrant-callback-changes-result", diff_context(base, out));
          continue;
        }
        const auto attempt_once = [&] {
            std::string out;
            uint64_t i = 0;
            const int id = 100 + static_cast<int>(f.at % 1000);
            count(K_CB_THROWN);
            const int got = run([&] {
              if (++i != at) return;
              if (f.count == 0) throw id;
              if (f.count == 1) throw std::bad_alloc();
              throw Boom{static_cast<uint64_t>(id)};
            }, out);
            const int want = f.count == 1 ? -2 : id;
            if (got != want) fail("callback-error-changed", "the callback's error arrived as " + std::to_string(got) + " instead of " + std::to_string(want) + " " + out);
            if (i != at) fail("callback-called-after-error", "the callback is invoked again after it failed");
        };
        for (int attempt = 0; attempt < 2; ++attempt) {
          attempt_once();
          const uint64_t now = sim::heap_stats().live_blocks;
          grown = now > live ? now - live : 0;
          live = now;
          if (!grown) break;
        }
        if (grown && really_leaks(lost, attempt_once)) fail("leak-after-callback-error", std::to_string(grown) + " heap blocks are never released after a callback failed");
        std::string again;
        run([] {}, again);
        if (again != base) fail("retry-differs", diff_context(base, again));
        count(K_RETRIES);
      }
      emit(base);
      count(K_OPS);
    }
    const std::string after = pool_text(pool);
    if (after != before) fail("input-changed", diff_context(before, after));
  });
  sim::set_simulating(false);
}

}  // namespace

int child_count(const Plan& p) {
  if (p.scenario == "C01") return 2;
  if (p.scenario == "C03") return static_cast<int>(p.get("envs", 2));
  if (p.scenario == "C04" && p.get("cold")) return 1 + static_cast<int>(p.faults.size());
  if (p.scenario == "C09" && p.get("core")) return 2;
  return 1;
}
Plan make_plan(const std::string& s, uint64_t seed, int tier) {
  Plan p;
  p.scenario = s;
  p.seed = seed;
  Rng r(seed ^ (static_cast<uint64_t>(s[1]) << 40) ^ (static_cast<uint64_t>(s[2]) << 48));
  if (s == "C01") plan_c01(p, r, tier);
  else if (s == "C02") plan_c02(p, r, tier);
  else if (s == "C03") plan_c03(p, r, tier);
  else if (s == "C04") plan_c04(p, r, tier);
  else if (s == "C05") plan_c05(p, r, tier);
  else if (s == "C09") plan_c09(p, r, tier);
  else if (s == "C13") plan_c13(p, r, tier);
  else { fprintf(stderr, "unknown scenario\n"); exit(3); }
  return p;
}
void run_child(const Plan& p, int child, Shared* all) {
  // libstdc++'s classic locale caches narrow() results in its own facet without synchronisation
  // (GCC PR 77704); the same value is always stored. That is the C++ library, not wrenfold.
  const auto& ct = std::use_facet<std::ctype<char>>(std::locale::classic());
  sim::race_exclude(&ct, sizeof(ct));
  if (p.scenario == "C01") child_c01(p, child);
  else if (p.scenario == "C02") child_c02(p, child);
  else if (p.scenario == "C03") child_c03(p, child);
  else if (p.scenario == "C04") { if (p.get("cold")) cold_c04(p, child, all); else warm_c04(p); }
  else if (p.scenario == "C05") child_c05(p);
  else if (p.scenario == "C09") child_c09(p, child);
  else if (p.scenario == "C13") child_c13(p);
}
bool compare(const Plan& p, Shared* a, std::string& kind, std::string& detail) {
  if (p.scenario == "C01") return compare_c01(p, a, kind, detail);
  if (p.scenario == "C03") return compare_c03(p, a, kind, detail);
  if (p.scenario == "C04") return compare_c04(p, a, kind, detail);
  if (p.scenario == "C09") return compare_c09(p, a, kind, detail);
  return false;
}
