"""Table of the checks: which monitors decide which property."""
import glob
import os

DEFS = ["-DJENT_CONF_ENABLE_INTERNAL_TIMER", "-DJENT_CONF_ENABLE_MOCK_TIMER"]
ASAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "LSAN_OPTIONS": "exitcode=97",
}
VARIANT = {
    "plain": {"cc": "gcc", "opt": "-O2", "flags": []},
    "o0": {"cc": "gcc", "opt": "-O0", "flags": []},	# every read of a shared variable the source makes is made
    "clang": {"cc": "clang", "opt": "-O2", "flags": []},
    "asan": {"cc": "clang", "opt": "-O1", "flags": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=function"], "env": ASAN_ENV},
    "msan": {"cc": "clang", "opt": "-O1", "flags": ["-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-sanitize-recover=all"], "env": {"MSAN_OPTIONS": "halt_on_error=1:exitcode=95"}},
    "tsan": {"cc": "clang", "opt": "-O1", "flags": ["-fsanitize=thread"], "env": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=96:second_deadlock_stack=1:suppressions=" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "tsan.supp")}},
}
SIMWRAP = ["jent_shake256_init", "jent_sha3_dealloc", "jent_sha3_update", "jent_sha3_final",
           "jent_drbg_generate_block", "jent_fips_enabled", "mlock", "jent_sha3_tester", "jent_gcd_selftest"]
API_WRAP = ["jent_zalloc", "jent_zfree", "mmap", "munmap", "mlock", "pthread_create", "pthread_join", "jent_fips_enabled", "jent_get_nstime_internal"]
REPO = os.environ.get("VERIF_REPO", "/repo")
CSHIM = ["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "cshim")]
KFLAGS = ["-fno-strict-aliasing", "-DLINUX_KERNEL", '-DKBUILD_MODNAME="jitter_rng"']
KON = ["-DCONFIG_EXTERNAL_JITTERENTROPY_" + x for x in ("TESTINTERFACE", "KCAPI", "CHARDEV", "HWRNG")]
KFS = ["-DCONFIG_PROC_FS", "-DCONFIG_DEBUG_FS"]
KWRAP = ["jent_entropy_collector_alloc", "jent_entropy_collector_alloc_raw", "jent_entropy_collector_free", "jent_read_entropy_safe", "jent_read_entropy", "jent_status", "jent_uuid",
         "jent_selftest", "jent_entropy_init_ex", "jent_measure_jitter", "jent_measure_jitter_ntg1_memaccess", "jent_measure_jitter_ntg1_sha3"]


def ksrc(leave=()):
    # everything of linux_kernel/ plus the core sources the module is linked from
    fs = sorted(glob.glob(REPO + "/linux_kernel/*.c") + glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/arch/*.c"))
    return [f for f in fs if os.path.basename(f) not in leave]


ENVWRAP = ["open", "read", "close", "sysconf", "sched_getaffinity", "getrandom", "mlock", "mmap"]
PSHIM = ["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "pshim")]


def psrc():
    # the cache discovery alone: the rest of the library is not built for these platforms here
    return [REPO + "/arch/jitterentropy-arch-cache.c", REPO + "/arch/jitterentropy-arch-atomic.c"]


# time source back ends, each with its own stand-in of the counter
TSHIM = ["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "tshim")]
TGEN = TSHIM + ["-include", os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "tshim", "gen.h")]
TWRAP = ["clock_gettime", "gettimeofday", "time", "clock", "timespec_get"]


def tsrc():
    return [REPO + "/arch/jitterentropy-arch-timer.c"]


def stamp(defs=(), lib=(), h=(), kernel=False):
    d = {"ksrc": tsrc, "src": ["vf.c", "h_stamp.c"], "libflags": list(lib), "hflags": ["-D" + x for x in h], "wrap": TWRAP}
    d.update({"kernel": True, "kflags": KFLAGS + list(defs)} if kernel else {"defs": list(defs)})
    return d


STAMPS = {"stamp-x86": stamp(h=["S_TSC"]), "stamp-mock": stamp(DEFS[1:], h=["S_TSC", "S_MOCK"]), "stamp-kx86": stamp(h=["S_TSC"], kernel=True),
          "stamp-gen": stamp(lib=TGEN), "stamp-genmock": stamp(DEFS[1:], lib=TGEN, h=["S_MOCK"]), "stamp-kgen": stamp(lib=TGEN, kernel=True),
          **{"stamp-" + n: stamp(lib=TGEN + ["-DS_" + n.upper()]) for n in ("ppc", "aix", "xlc", "mach", "qpc")}}
PROBES = ["probe-kx86", "probe-karm", "probe-cpuid", "probe-apple", "probe-win", "probe-aix"]
HARNESS = {
    "kern": {"kernel": True, "kflags": KFLAGS + KON + KFS, "ksrc": ksrc, "src": ["vf.c", "h_kern.c"], "wrap": KWRAP},
    "kern-real": {"kernel": True, "kflags": KFLAGS + KON + KFS, "ksrc": ksrc, "src": ["vf.c", "h_kern.c"], "hflags": ["-DKERN_REAL"], "wrap": KWRAP + ["jent_get_nstime"]},
    "kern-hw": {"kernel": True, "kflags": KFLAGS + KON[3:] + KFS[:1], "ksrc": lambda: ksrc(["jitterentropy_testing.c", "jitterentropy_kcapi.c", "jitterentropy_chardev.c"]), "src": ["vf.c", "h_kern.c"], "wrap": KWRAP},
    "kern-nofs": {"kernel": True, "kflags": KFLAGS + KON, "ksrc": ksrc, "src": ["vf.c", "h_kern.c"], "wrap": KWRAP},
    "model": {"src": ["vf.c", "h_model.c"], "wrap": SIMWRAP},
    "model-prod": {"src": ["vf.c", "h_model.c"], "wrap": SIMWRAP, "defs": [], "hflags": ["-DVF_PROD"]},
    "health": {"src": ["vf.c", "h_health.c"], "wrap": ["jent_random_data"]},
    "cond": {"src": ["vf.c", "h_cond.c"]},
    "mem": {"src": ["vf.c", "h_mem.c"], "wrap": ["mmap", "munmap", "madvise", "mlock", "jent_shake256_init", "jent_sha3_update", "jent_sha3_dealloc",
            "jent_drbg_generate_block", "jent_fips_enabled"], "ldflags": ["-Wl,-z,now"]},
    "timer": {"src": ["vf.c", "h_timer.c"], "wrap": ["sched_getaffinity", "sched_setaffinity", "sysconf", "pthread_create", "pthread_join",
              "pthread_attr_init", "jent_get_nstime_internal", "jent_sha3_tester", "mmap", "munmap"]},
    "fault": {"src": ["vf.c", "h_fault.c"], "wrap": ["mmap", "munmap", "mprotect", "madvise", "mlock", "pthread_attr_init", "pthread_attr_destroy", "pthread_create", "pthread_join",
              "sched_getaffinity", "sched_setaffinity", "getrandom", "open", "read", "sysconf", "__sched_cpualloc"]},
    "hooks": {"src": ["vf.c", "h_hooks.c"], "wrap": ["sched_getaffinity", "sched_setaffinity", "pthread_create", "pthread_join", "mlock", "jent_get_nstime_internal", "jent_sha3_tester"]},
    "api": {"src": ["vf.c", "h_api.c"], "wrap": API_WRAP},
    "api-notimer": {"src": ["vf.c", "h_api.c"], "wrap": API_WRAP, "defs": ["-DJENT_CONF_ENABLE_MOCK_TIMER"]},
    "race": {"src": ["vf.c", "h_race.c"], "wrap": ["mlock", "jent_sha3_update", "jent_sha3_tester", "jent_fips_enabled", "jent_atomic_load_int", "jent_atomic_store_int",
             "jent_atomic_exchange_int", "jent_atomic_cmpxchg_int", "jent_atomic_load_u32", "jent_atomic_store_u32"]},
    "be-gcrypt": {"src": ["vf.c", "h_backend.c"], "defs": DEFS + CSHIM + ["-DLIBGCRYPT"]},
    "be-openssl": {"src": ["vf.c", "h_backend.c"], "defs": DEFS + CSHIM + ["-DOPENSSL"]},
    "be-awslc": {"src": ["vf.c", "h_backend.c"], "defs": DEFS + CSHIM + ["-DAWSLC"]},
    "be-bare": {"src": ["vf.c", "h_backend.c"], "defs": DEFS[1:] + ["-DJENT_BAREMETAL"], "wrap": ["malloc", "calloc", "free"]},
    "probe-kx86": {"kernel": True, "kflags": KFLAGS + ["-DKPROBE", "-DCONFIG_X86", "-DP_KX86"], "ksrc": psrc, "src": ["vf.c", "h_probe.c"]},
    "probe-karm": {"kernel": True, "kflags": KFLAGS + ["-DKPROBE", "-DCONFIG_ARM64", "-DP_KARM"], "ksrc": psrc, "src": ["vf.c", "h_probe.c"]},
    "probe-cpuid": {"ksrc": psrc, "src": ["vf.c", "h_probe.c"], "defs": ["-DJENT_BAREMETAL"], "libflags": PSHIM, "hflags": ["-DP_CPUID"]},
    "probe-apple": {"ksrc": psrc, "src": ["vf.c", "h_probe.c"], "defs": [], "libflags": PSHIM + ["-U__linux__", "-D__APPLE__"], "hflags": ["-DP_APPLE"]},
    "probe-win": {"ksrc": psrc, "src": ["vf.c", "h_probe.c"], "defs": [], "libflags": PSHIM + ["-U__linux__", "-D__MINGW32__", "-D_SSIZE_T_DEFINED"], "hflags": ["-DP_WIN"]},
    "probe-aix": {"ksrc": psrc, "src": ["vf.c", "h_probe.c"], "defs": [], "libflags": PSHIM + ["-U__linux__", "-D_AIX"], "hflags": ["-DP_AIX"]},
    "env-noglibc": {"src": ["vf.c", "h_env.c"], "hflags": ["-DNOGLIBC"], "libflags": ["-include", os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "noglibc", "noglibc.h")], "wrap": ENVWRAP},
    "env": {"src": ["vf.c", "h_env.c"], "wrap": ENVWRAP},
    **STAMPS,
}
for _h in HARNESS:
    if _h.startswith("probe-") or _h in ("stamp-kgen", "stamp-ppc", "stamp-aix", "stamp-xlc", "stamp-mach", "stamp-qpc"):
        HARNESS[_h]["optional"] = True


def job(harness, profile, quick, thorough, variant="plain", **kw):
    return dict(harness=harness, profile=profile, quick=quick, thorough=thorough, variant=variant, **kw)


KRULE = ("A case is a fresh process that loads the module's own sources against stand-ins of the kernel interfaces, lets one to six tasks work on shared files, transforms and the periodic work under a seeded scheduler that may switch at every kernel call, and unloads it; allocation, registration, user-memory and library failures, signals and clock steps are injected. Every call is judged from the recorded events it caused. Non-trivial: a judged call or a refused load; distinct by the folded (call, result) and schedule sequence. ")
# which property's oracle raises a report; anything not listed concerns all of them
KOWN = {k: p for p, ks in {
    "C20": ["read-count", "read-data", "read-eof", "read-short", "nonblock-long", "nonblock-sleeps", "lock-hog", "signal-ignored", "overproduction", "status-room", "status-data", "status-length", "status-overflow", "status-arg", "ioctl-unknown", "compat"],
    "C21": ["hwrng-data", "hwrng-count", "hwrng-eof", "hwrng-overrun", "hwrng-ops", "kcapi-data", "kcapi-result", "kcapi-overrun"],
    "C22": ["self-test-late", "self-test-queued", "self-test-interval", "self-test-skipped", "self-test-runs", "self-test-unbound", "self-test-again", "self-test-verdict", "privilege", "statistics"],
    "C23": ["left-registered", "left-proc", "left-debugfs", "registered-twice", "unregistered", "not-registered", "proc-content", "proc-flags", "proc-json", "proc-name", "proc-writable", "proc-gone", "init-fails", "init-unchecked", "open-at-unwind", "open-at-exit", "parameters", "debugfs-gone", "hwrng-quality"],
    "C24": ["raw-data", "raw-count", "raw-short", "raw-eof", "raw-pos", "raw-size", "raw-loop", "raw-stale", "raw-routine", "raw-health", "raw-instance", "raw-mode", "raw-unsafe", "raw-status", "lockdown", "session-overlap"],
}.items() for k in ks}


def kjobs(profile, require):
    return [job("kern", profile, 2400, 40000, chunk=100, require=require), job("kern", profile, 320, 6000, variant="asan"), job("kern", profile, 240, 4000, variant="msan"), job("kern", profile, 640, 8000, variant="o0", chunk=80),
            job("kern-real", profile, 64, 1500), job("kern-real", profile, 24, 500, variant="asan")]


MODEL_RULE = ("A case is a fresh process that drives the public interface with a scripted timer and compares every time stamp read, "
              "pool insertion, hash operation, output block, return value, buffer byte, callback and status field with an executable "
              "specification. Non-trivial: at least one judged operation; distinct by the folded sequence of (result, failure mask, configuration). ")
ONLINE = "runtime monitoring: online model-based trace checker over a scripted timer"
MEM_RULE = ("A case is a fresh process running a history of initialisations, allocations, reads, recoveries, failures and releases on up to four instances with library calls on a stack of their own. Non-trivial: at least one call judged; distinct by the folded (operation, result, flags) sequence. ")
CHECKS = {
    "C01": {"level": "exploration", "technique": ONLINE, "jobs": [job("model", "gate", 1500, 20000), job("model", "ladder", 60, 2000), job("model", "selftest", 100, 2000), job("model", "long", 48, 1500, timeout=240, require={"long_read_bytes": 50000})],
            "rule": MODEL_RULE + "Timer disturbances straddling the cutoffs are placed anywhere inside multi-block reads."},
    "C02": {"level": "exploration", "technique": "runtime monitoring: per-sample differential oracle of the health tests", "jobs": [job("health", "direct", 400, 6000), job("model", "gate", 300, 4000), job("model", "ladder", 60, 1500), job("model", "lagwin", 40, 1000), job("model", "startup", 60, 1000)],
            "rule": "A case feeds a few hundred thousand deltas (runs, periods, proportions and window fills around each cutoff) through the real tests and compares stuck flag and failure mask after every sample with the definitions; distinct by the sequence of (pattern, mask, osr, mode). The other jobs: " + MODEL_RULE},
    "C03": {"level": "exploration", "technique": ONLINE, "jobs": [job("model", "noise", 400, 20000), job("model", "gate", 250, 4000), job("model", "ladder", 80, 2000), job("model", "startup", 80, 2000), job("model", "long", 48, 1500, timeout=240, require={"long_read_bytes": 50000})], "rule": MODEL_RULE},
    "C04": {"level": "exploration", "technique": "runtime monitoring: differential oracle against an independent FIPS 202 / XDRBG-256", "jobs": [job("cond", "direct", 600, 20000), job("model", "noise", 200, 4000), job("model", "gate", 100, 2000), job("model", "ladder", 40, 1000), job("model", "long", 24, 600, timeout=240, require={"long_read_bytes": 50000})],
            "rule": "A case runs a batch of digests, extendable outputs and generate/reseed histories over random lengths, alignments and chunkings; distinct by the folded (length, output size) sequence. The model job: " + MODEL_RULE},
    "C05": {"level": "exploration", "technique": ONLINE, "jobs": [job("model", "startup", 1500, 20000), job("model", "selftest", 150, 2000), job("model", "scale", 150, 2000), job("model", "ladder", 40, 1000), job("model-prod", "startup", 500, 6000)],
            "rule": MODEL_RULE + "Every class of unusable timer, sequences of attempts, refused memory."},
    "C06": {"level": "exploration", "technique": ONLINE, "jobs": [job("model", "ladder", 600, 8000), job("model", "climb", 16, 600, timeout=240, require={"climbs": 4}), job("model", "carry", 160, 4000, require={"carry_overs_probed": 100}), job("model", "gate", 200, 4000), job("model", "startup", 150, 2000)], "rule": MODEL_RULE + "Repeated, nested and failing recoveries."},
    "C07": {"level": "exploration", "technique": ONLINE, "jobs": [job("model", "selftest", 1500, 20000), job("model", "ladder", 40, 1000)], "rule": MODEL_RULE + "Known-answer verdicts injected at arbitrary points including from the failure callback."},
    "C08": {"level": "exploration", "technique": ONLINE, "jobs": [job("model", "config", 1500, 20000), job("model", "ladder", 40, 1000), job("mem", "guard", 250, 4000, only=["unlocked-instance", "instance-refused", "status-secure", "not-locked"]),
            job("model-prod", "config", 500, 8000), job("timer", "life", 250, 3000, par=5, only=["contradiction-allocated", "ntg1-internal", "disabled-but-used", "disabled-after-forced", "ntg1-on-internal-timer", "alloc-refused", "init-refused", "not-internal"], require={"instances": 100})],
            "rule": MODEL_RULE + "Arbitrary flag words, oversampling rates, lock failures."},
    "C19": {"level": "exploration", "technique": ONLINE, "jobs": [job("model", "scale", 1000, 20000), job("model", "startup", 200, 4000), job("model", "ladder", 60, 2000), job("model", "gate", 100, 2000)], "rule": MODEL_RULE + "Timers ticking in multiples of arbitrary divisors."},
    "C09": {"level": "exploration", "technique": "runtime monitoring: memory-image search and release-time content monitor",
            "jobs": [job("mem", "wipe", 300, 6000, require={"scans": 100, "mappings": 100}), job("mem", "wipe", 150, 3000, variant="clang"),
                     job("fault", "wipe", 690, 10000, chunk=115, require={"released_pages_checked": 500})], "rule": MEM_RULE + "Every mapping must be all zero when unmapped; no generator state, undelivered output or pool input in stack, static or released memory."},
    "C10": {"level": "exploration", "technique": "runtime monitoring: memory-image search for recomputed earlier states",
            "jobs": [job("mem", "backtrack", 300, 6000, require={"scans": 100, "reads": 100}), job("mem", "backtrack", 150, 3000, variant="clang")], "rule": MEM_RULE + "No state or pool an earlier block came from, nor the block, anywhere in writable memory."},
    "C12": {"level": "exploration", "technique": "runtime monitoring: protection state of every mapping from the kernel's view (smaps)",
            "jobs": [job("mem", "guard", 1200, 20000, require={"regions_seen_guarded_locked": 500})], "rule": MEM_RULE + "Guard pages, dump exclusion and locks of every live region are read from the kernel between calls and in the middle of collections, under real lock limits."},
    "C15": {"level": "exploration", "technique": "runtime monitoring: trace specification over timer life-cycle events and time readings, with fault injection and sanitizers",
            "jobs": [job("timer", "life", 500, 12000, par=5, require={"timer_starts": 500, "calls_with_fault": 50, "instances": 100}),
                     job("timer", "life", 120, 2500, variant="asan", par=5, require={"timer_starts": 100}),
                     job("timer", "real", 40, 1000, par=3, require={"timer_starts": 50, "fresh_stamps": 100})],
            "rule": "A case is a fresh process running a history of initialisations, allocations, reads and releases on the built-in or a replaced timer implementation, over synthetic processor sets, with failing starts and set-ups and disturbed time values that trigger recoveries. Non-trivial: at least one judged call; distinct by the folded (operation, result, fault) sequence."},
    "C11": {"level": "fault_enumeration", "technique": "runtime monitoring: enumerated fault injection at the system interface with ledgers and result oracle",
            "jobs": [job("fault", "fault", 3036, 40000, chunk=115, require={"faults_fired_cases": 2000, "instances_judged": 3000}),
                     job("fault", "fault", 460, 6000, variant="asan", require={"faults_fired_cases": 300}),
                     job("timer", "life", 200, 4000, par=5, only=["refused-alloc-leaks", "mapping-leak", "thread-leak", "timer-leak"], require={"allocs_failed_by_timer_during_startup": 8})],
            "rule": "A case runs one scenario (initialisation, allocation, recovery, start-up recovery, internal timer, fallback, reads, status, second instance) undisturbed to count its operating-system calls, then again with the k-th call of one kind failing once, a few times or for good (later indices add a second fault), then in the recovered environment. Indices enumerate (scenario, call, mode). Distinct by the folded (scenario, fault, results)."},
    "C17": {"level": "exploration", "technique": "runtime monitoring: strict parser and exact-size oracle on the status document, injected randomness failures",
            "jobs": [job("env", "status", 400, 6000, require={"status_sizes": 10000, "uuid_nil": 50, "uuid_random": 300}),
                     job("env", "status", 120, 1500, variant="asan"),
                     job("model", "ladder", 100, 3000), job("model", "config", 300, 6000),
                     job("timer", "life", 250, 3000, par=5, only=["not-internal", "timer-changed"], require={"instances": 100})],
            "rule": "A case creates up to five instances with random flags and rates while the sources of randomness deliver, deliver in pieces, are interrupted or fail, and takes status and identifier into buffers of every kind of size. Non-trivial: at least one judged call; distinct by the folded (flags, randomness, document length). The model jobs compare every status field with the specification through recoveries and refused configurations. " + MODEL_RULE},
    "C18": {"level": "exploration", "technique": "runtime monitoring: synthetic environment with reference derivation and descriptor ledger",
            "jobs": [job("env", "probe", 2500, 40000, require={"cache_derivations": 2000, "fips_indicated": 300, "interrupted_calls": 500}),
                     job("env", "probe", 300, 6000, variant="asan"),
                     job("env-noglibc", "probe", 600, 10000, require={"online_lists": 200})] +
                    [job(p, "machine", q, t, variant=v, chunk=250, require={"machines": 100}) for p in PROBES for q, t, v in ((2000, 40000, "plain"), (400, 8000, "asan"))],
            "rule": "A case is a fresh process in a generated environment (cache attributes per processor and index, processor counts, affinity mask width and error, FIPS indicator), well-formed or with up to 90 per cent of the attributes missing, unreadable, empty, interrupted, malformed or extreme; the derived values are read back from one to four instances. Distinct by the folded (rounded sizes, memory, processors, mode, flags). The machine jobs build the cache discovery of the kernel (x86, arm64), other x86, macOS, Windows and AIX against stand-ins that answer from a generated machine (heterogeneous processors, hot-plugged and refusing ones, leaf limits, malformed records) and compare the derived sizes with it."},
    "C16": {"level": "exploration", "technique": "runtime monitoring: automaton over setter results and their observed effects",
            "jobs": [job("hooks", "order", 3000, 60000, require={"late_refusals": 3000, "callbacks_judged": 60, "timer_starts_replaced": 1000, "pins": 500, "failed_known_answer_tests": 100}),
                     job("hooks", "order", 300, 6000, variant="asan"),
                     job("model", "gate", 300, 6000)],
            "rule": "A case is a fresh process running a random order of configuration calls (also from inside an attempt under way), passing, failing and contradictory initialisations and allocations, and disturbed reads. Non-trivial: at least one judged call; distinct by the folded (setter, window state, result, flags). The model job compares every callback invocation with the specification."},
    "C14": {"level": "exploration", "technique": "runtime monitoring: ThreadSanitizer plus replay comparison and start-up evidence monitor under injected orders",
            "jobs": [job("race", "indep", 80, 2500, par=3, require={"calls_compared": 1500, "recoveries_compared": 10}), job("race", "indep", 60, 2000, variant="tsan", par=3, require={"calls_compared": 1000}),
                     job("race", "first", 150, 5000, par=3, require={"racing_threads": 300, "orders_forced": 1}), job("race", "first", 80, 2500, variant="tsan", par=3),
                     job("race", "selftest", 80, 3000, par=3, require={"self_test_failures_in_flight": 30}), job("race", "selftest", 60, 2000, variant="tsan", par=3),
                     job("race", "timer", 30, 800, variant="tsan", par=2)],
            "rule": "A case is a fresh process in which two to six threads with scripted time sources of their own use instances at once (reads, recoveries, self tests, status, initialisations, refused late configuration), race the first start-up test with one of them paused inside it, fail a self test bound from another thread in the middle of a read, or run internal timer threads. Non-trivial: at least one judged call; distinct by the folded (call, result, flags) sequence; calls_compared counts calls whose result, bytes, status, callbacks and time readings were compared with the same calls made one after another."},
    "C13": {"level": "exploration", "technique": "runtime monitoring: address, undefined-behaviour and memory sanitizers with byte-exact bounds under hostile workloads",
            "jobs": [job("api", "any", 320, 12000, variant="asan", require={"reads": 400, "reads_failed": 10, "bounded_allocations": 1500, "misuses": 25}),
                     job("api", "any", 120, 5000, variant="msan"), job("api-notimer", "any", 110, 4000, variant="asan"), job("api", "any", 160, 8000),
                     job("model", "gate", 120, 3000, variant="asan"), job("model", "ladder", 24, 800, variant="asan"), job("model", "config", 150, 3000, variant="asan"), job("model", "selftest", 60, 1500, variant="asan"),
                     job("cond", "direct", 80, 3000, variant="asan"), job("cond", "direct", 60, 2000, variant="msan"), job("health", "direct", 40, 1000, variant="asan"), job("health", "direct", 24, 500, variant="msan"),
                     job("env", "status", 120, 2000, variant="asan"), job("env", "probe", 300, 6000, variant="asan"),
                     job("timer", "life", 80, 1500, variant="asan", par=5), job("fault", "fault", 345, 6000, variant="asan"), job("hooks", "order", 150, 3000, variant="asan")],
            "rule": "A case is a fresh process making six to twenty-two calls with random and corner-value arguments and time stamps (frozen, zero, backwards, wrapping, extreme, random) on up to four instances. Library allocations are poisoned beyond their last byte, caller buffers end at an inaccessible page, every mapping and timer thread must be returned. Non-trivial: at least one call; distinct by the folded (call, flags, rate, result, timer) sequence. The other jobs are the monitors of the other properties in sanitizer builds. " },
    "C20": {"level": "exploration", "technique": "runtime monitoring: online oracle over recorded kernel-interface events, seeded scheduler, fault injection, sanitizers", "owner": KOWN,
            "jobs": kjobs("chardev", {"opens": 5000, "bytes_delivered": 400000, "partial_reads": 800, "user_faults": 800, "status_overflows": 1000, "fields_read": 3000}), "rule": KRULE + "Mostly operations on shared open files of the character device."},
    "C21": {"level": "exploration", "technique": "runtime monitoring: online oracle over recorded kernel-interface events, seeded scheduler, fault injection, sanitizers", "owner": KOWN,
            "jobs": kjobs("service", {"tfms": 5000, "core_reads": 30000, "panics": 50, "reallocations": 2000}), "rule": KRULE + "Mostly hw_random reads (waiting and not) and crypto API transforms, in and outside FIPS mode."},
    "C22": {"level": "exploration", "technique": "runtime monitoring: trace specification of self-test runs over a virtual clock, seeded scheduler, fault injection, sanitizers", "owner": KOWN,
            "jobs": kjobs("selftest", {"periodic_runs": 8000, "self_test_failures": 1000, "sticky_verdicts": 80, "quiescent_checks": 1500, "statistics_read": 2000}) + [job("kern-hw", "selftest", 400, 6000, require={"periodic_runs": 300})], "rule": KRULE + "Most cases have a self-test interval set and failing self tests."},
    "C23": {"level": "fault_enumeration", "technique": "runtime monitoring: ledger of memory, locks, work items and registrations with a failure injected at every set-up step, seeded scheduler, sanitizers", "owner": KOWN,
            "jobs": kjobs("init", {"init_failures": 1500, "registrations": 1500}) + kjobs("any", {"quiescent_checks": 1000, "proc_files_read": 20000}) + [job("kern-nofs", "init", 600, 8000), job("kern-hw", "init", 400, 6000)], "rule": KRULE + "Profile init makes one registration, instance or directory creation fail during load; the unload runs against readers of everything that does not pin the module."},
    "C24": {"level": "exploration", "technique": "runtime monitoring: online oracle over recorded measurements and copies, seeded scheduler, fault injection, sanitizers", "owner": KOWN,
            "jobs": kjobs("raw", {"raw_opens": 5000, "samples_delivered": 500000}), "rule": KRULE + "Mostly the raw noise file, with parameters and lockdown changing at run time."},
    "C25": {"level": "exploration", "technique": "runtime monitoring: ledger of every block by kind and content, fault injection into the crypto library, differential replay across memory kinds, sanitizers",
            "jobs": [job(b, p, q, t, variant=v, par=8, require=r)
                     for b, n in (("be-gcrypt", 1), ("be-openssl", 1), ("be-awslc", 0), ("be-bare", 0))
                     for p, q, t, v, r in (("fault", 480, 12000, "plain", {"states_judged": 500, "recovered_environments": 100, "ordinary_refused": 10, **({"secure_refused": 300, "wipes_judged": 200} if n else {})}),
                                           ("same", 160, 4000, "plain", {"scenarios_compared": 300}),
                                           ("fault", 96, 2000, "asan", {"states_judged": 100}), ("fault", 48, 1000, "msan", {"states_judged": 50}))],
            "rule": "A case is a fresh process running the library built for one back end (libgcrypt, OpenSSL, AWS-LC, freestanding) through up to 14 initialisations, allocations, reads, recoveries, self tests and releases while the arena is ample, absent, small, exhausted at some point or answering with ordinary memory, and ordinary memory runs out at some point; then again in a recovered environment. Profile same repeats one scenario in three environments and compares all results. Every block is judged when handed out and given back, every instance after every call. Distinct by the folded (flags, blocks held per kind, environment)."},
    "C26": {"level": "exploration", "technique": "runtime monitoring: trapped counter instruction and stand-in clocks, per-stamp value oracle, model-based trace checker on the shipped configuration",
            "jobs": [job(h, "any", q, t, variant=v, require={"platform_stamps": 1000, "wide_stamps": 500}) for h in STAMPS for q, t, v in ((80, 2000, "plain"), (40, 1000, "clang"))] +
                    [job("model-prod", "noise", 150, 4000, require={"timer_reads": 1000000}), job("model-prod", "gate", 200, 4000), job("model-prod", "startup", 150, 3000), job("model-prod", "ladder", 30, 1000), job("model-prod", "config", 200, 4000)],
            "rule": "A case of the first jobs takes 4000 time stamps from one back end of the time source (x86 in user space and in the kernel with the counter instruction trapping into the case; the generic clock, the kernel's generic path, PowerPC, AIX, macOS and Windows on stand-ins), with and without a replaced source, while the counter shows values of every width and the clock fails. Distinct by the folded (width, failure, source) sequence. The model jobs build the library as shipped, without mock and internal timer, and trap the counter instruction: " + MODEL_RULE},
}
