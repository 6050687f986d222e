"""Writes the ninja file of the C++ simulator (instrumented core + runtime + driver)."""
import glob, os, re, sys

def generate(build_dir, repo="/repo"):
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "core")
    core = os.path.join(repo, "components/core")
    inc = f"-I{core} -I{repo}/components/runtime -I{here} -DFMT_HEADER_ONLY=1"
    base = "-std=gnu++20 -g1 -DNDEBUG -fno-pie -fno-PIC -w"
    inst = f"{base} -O1 -fsanitize=thread -fno-omit-frame-pointer -D_GLIBCXX_EXTERN_TEMPLATE=0 {inc} -include {here}/absl_shim.h"
    wraps = ("syscall clock_gettime pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock "
             "pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_once "
             "pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast sched_yield nanosleep clock_nanosleep "
             "__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort memcpy memmove memset memcmp "
             "write writev getpid gettid malloc calloc realloc free").split()
    wrap = " ".join(f"-Wl,--wrap={w}" for w in wraps)
    out = [
        "rule inst", f"  command = ccache g++ {inst} $extra -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
        "rule plain", f"  command = ccache g++ {base} -O2 -I{here} -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
        "rule link", f"  command = g++ -static -no-pie {wrap} $in -o $out -Wl,--start-group -labsl_raw_hash_set -labsl_hash -labsl_city -labsl_low_level_hash -labsl_hashtablez_sampler -labsl_exponential_biased -labsl_raw_logging_internal -labsl_throw_delegate -labsl_synchronization -labsl_stacktrace -labsl_symbolize -labsl_debugging_internal -labsl_demangle_internal -labsl_malloc_internal -labsl_base -labsl_spinlock_wait -labsl_graphcycles_internal -labsl_time -labsl_time_zone -labsl_civil_time -labsl_int128 -labsl_strings -labsl_strings_internal -labsl_bad_optional_access -labsl_bad_variant_access -lpthread -Wl,--end-group",
    ]
    srcs = sorted(glob.glob(f"{core}/wf/**/*.cc", recursive=True))
    objs, tobjs = [], []
    for s in srcs:
        name = os.path.relpath(s, f"{core}/wf").replace("/", "_")
        o = f"o/{name}.o"
        out.append(f"build {o}: inst {s}")
        objs.append(o)
        text = open(s, encoding="utf-8", errors="replace").read()
        if re.search(r"\bWF_(FUNCTION|SCOPED)_TRACE", text):
            t = f"o/{name}.trace.o"
            out += [f"build {t}: inst {s}", "  extra = -DWF_ENABLE_TRACING"]
            tobjs.append(t)
        else:
            tobjs.append(o)
    harness = []
    for n in ("workload", "scen", "driver"):
        out.append(f"build o/sim_{n}.o: inst {here}/{n}.cc")
        harness.append(f"o/sim_{n}.o")
    out.append(f"build o/sim_rt.o: plain {here}/rt.cc")
    harness.append("o/sim_rt.o")
    out.append("build simcore: link " + " ".join(harness + objs))
    out.append("build simtrace: link " + " ".join(harness + tobjs))
    out.append("default simcore simtrace")
    os.makedirs(build_dir, exist_ok=True)
    path = os.path.join(build_dir, "build.ninja")
    new = "\n".join(out) + "\n"
    if not os.path.exists(path) or open(path).read() != new:
        open(path, "w").write(new)

if __name__ == "__main__":
    generate(sys.argv[1], *(sys.argv[2:3]))
