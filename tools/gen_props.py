#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables here and in checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks

B = "src/jitterentropy-base.c"; HL = "src/jitterentropy-health.c"; N = "src/jitterentropy-noise.c"
S3 = "src/jitterentropy-sha3.c"; TM = "src/jitterentropy-timer.c"; GC = "src/jitterentropy-gcd.c"
ST = "src/jitterentropy-status.c"; UU = "src/jitterentropy-uuid.c"; ME = "arch/jitterentropy-arch-memory.c"
TH = "arch/jitterentropy-arch-thread.c"; K = "linux_kernel/"


def P(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    return d


PROPS = [
P("C01", "No data past a failed health test in the compliance modes",
  "In an instance running in FIPS or NTG.1 mode, once any health test has raised a failure, every read that still needs a block returns the documented negative error code of the most severe failed test (permanent before intermittent) instead of a byte count, no byte of a block collected at or after the failure reaches the caller, and reads on that instance keep failing until a recovery replaces its state. Permanent failures are never recovered from by the self-recovering read. Outside the compliance modes a read is never failed by a health test.",
  ["inputs", "histories", "configurations"], "every time-stamp sequence, oversampling rate, flag set, read size and order of plain and self-recovering reads",
  "The unit tests set failure bits by hand on a handful of instances; they do not drive real time-stamp sequences through the tests in the middle of multi-block reads.",
  [B, HL, N], [("read loop checks the health verdict before each block is released", B + " jent_read_entropy"), ("collection loop stops on failure", N + " jent_random_data"), ("verdict only reported in compliance modes", HL + " jent_health_failure")],
  ["return value and buffer of the read calls", "time stamps read", "blocks generated"]),
P("C02", "Health tests fire exactly at their specified cutoffs",
  "For every sequence of time deltas the stuck classification and the verdicts of the repetition count test, the adaptive proportion test, the lag predictor and the repetition count test with memory - which test fails, intermittent or permanent, and at which sample - are exactly those of their definitions with the cutoffs derived from the oversampling rate and mode. No failure is raised earlier and none is missed or raised later, across window boundaries and across recovery.",
  ["inputs", "configurations", "histories"], "every delta sequence up to many windows long, every oversampling rate 3..20, regular and NTG.1 cutoffs",
  "The induced-failure tests feed one constant pattern per test and the cutoff script only checks the tables, not the state machines that apply them.",
  [HL, "src/jitterentropy-health.h"], [("APT window", HL + " jent_apt_insert"), ("RCT counter", HL + " jent_rct_insert"), ("lag predictor scoreboard", HL + " jent_lag_insert"), ("RCT with memory", HL + " jent_rct_mem_insert")],
  ["health verdict after every inserted delta"]),
P("C03", "Every output block is backed by fresh, fully oversampled noise",
  "Between two output blocks the instance takes at least (256, in compliance modes 256+65) x oversampling-rate non-stuck measurements, each computed from time stamps taken for it, and each measurement - stuck or not - enters the entropy pool exactly once, in order, tagged with its noise source. Stuck measurements never count towards that number, and in the compliance modes the memory-access and hash noise sources are each fully sampled on their own before the first output. Every measurement runs the configured number of hash operations and memory accesses, the latter spread over all of the configured memory.",
  ["inputs", "configurations", "histories"], "every timer behaviour, oversampling rate, hash-loop and memory configuration and read size",
  "Unit tests check that data comes out; the number, order and content of what was mixed in is invisible to them.",
  [N, B], [("oversampling loop", N + " jent_random_data_one"), ("measurement and insertion", N + " jent_measure_jitter"), ("start-up stages", N + " jent_random_data")],
  ["time stamps handed out", "data absorbed by the pool", "hash invocations", "output generation events"]),
P("C04", "Output is exactly XDRBG-256 over the collected noise",
  "Every byte delivered equals the XDRBG-256 output computed from the instance's previous state and exactly the noise absorbed since, for any read length and split into requests; a partial block delivers a prefix. The SHA3-256 and SHAKE-256 primitives beneath give the FIPS 202 result for every message, in whatever pieces it is fed.",
  ["inputs", "histories"], "every absorbed data sequence, message length and chunking, read length and request history",
  "The known-answer tests cover a few fixed messages fed in one or two pieces.",
  [S3, N], [("sponge absorb/squeeze", S3 + " jent_sha3_update, jent_sha3_final"), ("XDRBG generate", S3 + " jent_drbg_generate_block")],
  ["returned bytes versus an independent implementation"]),
P("C05", "No usable instance without a passed start-up test",
  "Initialisation succeeds only if the conditioning self tests pass and the timer test over 1024 measurements (after 100 warm-up ones) finds a working, sufficiently fine, monotonic (at most three backward steps), varying, healthy and not predominantly stuck time source, and otherwise returns the code of the first failed criterion. Unless the most recent initialisation attempt of the process succeeded, allocating an instance runs the full test itself and yields no instance when it fails.",
  ["inputs", "histories", "configurations"], "every time-stamp sequence presented at start-up and every order of initialisation and allocation attempts, including refused memory",
  "Tests run on a machine with a good timer; only a few synthetic timers are tried and never sequences of failing and succeeding attempts.",
  [B, GC], [("timer test", B + " jent_time_entropy_init"), ("verdict latch", B + " jent_entropy_init_common_pre/post"), ("GCD and variation analysis", GC + " jent_gcd_analyze")],
  ["return values of init and alloc over scripted time stamps"]),
P("C06", "Recovery ladder escalates, preserves identity and stays bounded",
  "When a self-recovering read or the allocation meets an intermittent health failure, the replacement instance passes a new start-up test and start-up phase and runs with the oversampling rate raised by at least one (never above 20), the hash loop raised one step and the memory one step larger unless the caller fixed its size, keeping mode flags, identifier, output accounting and the pre-loaded health-test state (what the tests had counted when the instance was replaced still counts afterwards), and counting one more re-initialisation. The request is then served in full from the replacement. If no replacement can be made the original error is returned and the handle stays valid and in error state.",
  ["inputs", "histories", "fault_sequences"], "every failure sequence during reads, start-up phases and the recovery itself, from every starting configuration",
  "Unit tests force single resets on a real timer; repeated, nested and failing recoveries are not reachable that way.",
  [B, HL], [("reset", B + " jent_health_failure_reset"), ("retry loop", B + " jent_read_entropy_safe"), ("start-up retry", B + " _jent_entropy_collector_alloc"), ("state duplication", HL + " jent_*_duplicate")],
  ["status document", "return values", "samples taken with the new configuration"]),
P("C07", "A failed conditioning self test silences its instance for good",
  "After a self test bound to an instance has failed, every later non-empty read of that instance, in any mode and including through recoveries that replace its state, returns the self-test error and delivers no further block; a request in flight stops before its next block. An unbound run, a passing run, or a run bound to another instance never affects an instance's output, and a failing run during initialisation makes it fail.",
  ["histories", "schedules"], "every interleaving of self-test runs (passing, failing, bound, unbound, from callbacks or other threads) with reads and recoveries",
  "The unit test sets the flag once by hand; failing runs, recoveries and concurrent runs are never driven.",
  [B], [("bound verdict", B + " jent_selftest"), ("per-block gate", B + " jent_read_entropy"), ("carry-over", B + " jent_health_failure_reset")],
  ["return values and buffers of reads after injected self-test failures"]),
P("C08", "Configuration is honoured as documented or refused",
  "An instance is created only from a consistent request - oversampling rate at most 20 (below 3 is raised to 3), not both forcing and disabling the internal timer, NTG.1 only without the internal timer, memory access enabled in compliance modes, locked memory available when demanded or implied by a compliance mode - and then runs and reports exactly the requested oversampling rate, modes, hash-loop count and memory size. Any other request yields no instance (or an initialisation error), and a contradictory request leaves later valid requests unaffected.",
  ["configurations", "histories"], "every flag combination and oversampling rate, in any order within a process, with and without lockable memory and system-wide FIPS mode",
  "Tests sample a few flag combinations individually, each in a favourable environment.",
  [B, "jitterentropy.h", ST], [("flag validation", B + " jent_entropy_collector_alloc_internal"), ("secure memory implication", B + " jent_update_secure_mem"), ("memory size and hash loop decoding", B + " jent_update_memsize")],
  ["alloc/init results", "status document", "sampling behaviour"]),
P("C09", "Secrets are wiped before their memory leaves the library",
  "No byte of an instance's entropy pool, generator state, noise memory or buffered time deltas is ever left behind in memory the library hands back: every region is all zero when it is returned to the operating system, on the normal, recovery and every failure path. After a public call returns, neither its stack frames nor static memory hold generator state, pool input in clear, or output bytes that were not delivered to the caller.",
  ["histories", "fault_sequences", "configurations"], "every call sequence, read length, recovery and error path, with regular and locked memory",
  "Tests cannot look at released mappings or dead stack; a wipe that is dropped, shortened or optimised away changes no test result.",
  [B, S3, N, GC, ME], [("wipe before unmap", ME + " jent_zfree"), ("context wipe", S3 + " jent_drbg_generate_block"), ("stack buffers wiped", B + " jent_read_entropy; " + N + " jent_hash_insert, jent_hash_loop")],
  ["contents of each mapping at the moment it is unmapped", "dead stack, static data and live mappings after each call"]),
P("C10", "Past output cannot be reconstructed from a captured instance",
  "At every moment between two calls, everything the library keeps - all of its heap, static and stack memory together - does not contain the generator state from which any already delivered output block was produced, nor that block itself: each generation replaces the state by a one-way step and discards the old one.",
  ["histories", "inputs", "configurations"], "every read history, partial block, error return and recovery, at every point between calls",
  "It is a statement about what memory does not contain; unit tests only look at return values.",
  [S3, B], [("state replaced on generation", S3 + " jent_xdrbg256_generate_block"), ("extra generation after the last block of a request", B + " jent_read_entropy")],
  ["complete memory image between calls searched for earlier states and outputs"]),
P("C11", "Every operating-system failure ends in a clean, documented error",
  "Whichever memory, locking, protection, thread, affinity, random or file operation of the environment fails, at any point and any number of times, the library call either succeeds with its full guarantees or reports a documented failure (no instance, an initialisation code, a negative read code, a nil identifier), never crashing, hanging or handing out a half-initialised instance. Nothing is leaked - mappings, threads, descriptors - and the library works normally once the environment recovers.",
  ["fault_sequences", "configurations", "histories"], "every single and repeated failure position in every public operation, over the configurations",
  "Tests run in a healthy environment and inject at most one hand-picked failure.",
  [B, ME, TH, TM, GC, UU], [("unwinding of a failed allocation", B + " jent_entropy_collector_alloc_internal"), ("failed initialisation leaves no verdict behind", B + " jent_entropy_init_common_post"), ("thread creation failure", TH + " jent_thread_create"), ("failed lock or protection undone", ME + " jent_zalloc")],
  ["return values", "ledger of mappings, threads and descriptors"]),
P("C12", "Collector memory is guarded, locked as demanded and kept out of dumps",
  "Every memory region holding collector state lies between two inaccessible guard pages, is excluded from core dumps, and, when locked memory was demanded or a compliance mode implies it, is locked in RAM for its whole life or the instance is refused; without that demand an environment that does not permit locking still yields a working instance. Reported memory-protection status matches this.",
  ["configurations", "fault_sequences", "histories"], "every flag combination, memory size, lock limit and recovery",
  "Tests check that allocation works, not the protection of each mapping over its life.",
  [ME, B], [("guarded mapping", ME + " jent_zalloc"), ("implied locking", B + " jent_update_secure_mem")],
  ["protection and lock state of every live mapping between calls"]),
P("C13", "No undefined behaviour and no write outside the caller's buffer",
  "For every sequence of public calls with arguments within their documented types - any flags, oversampling rate, lengths including zero and maximal, null handles, any time-stamp values - the library performs no out-of-bounds, use-after-free, uninitialised or otherwise undefined operation, writes only within the buffer it was given and at most the stated length, and leaks no memory.",
  ["inputs", "histories", "configurations"], "every call sequence and argument value, every timer behaviour",
  "The suite runs few argument combinations; corner values and long histories are not reached.",
  [B, HL, N, S3, ST, GC, TM, ME, "arch/jitterentropy-arch-cache.c"], [("argument checks", B + " jent_read_entropy, jent_read_entropy_safe"), ("table bounds", HL + " jent_*_init")],
  ["address and undefined-behaviour sanitizer reports", "canaries around buffers", "uninitialised-value reports"]),
P("C14", "Instances are independent and the interface is thread-safe",
  "Instances used concurrently from different threads, along with concurrent initialisation, self tests, status queries and callback registration, never race: the bytes, verdicts and accounting of an instance are the same as if it ran alone, process-wide state is established once and never observed half-written, and identifiers are distinct. A self test bound to an instance may run in another thread while that instance is read.",
  ["schedules", "histories"], "every interleaving of calls on different instances and of the calls documented as callable concurrently",
  "The multi-threaded test runs one workload once; data races and interference need schedules it does not visit and an oracle it does not have.",
  [B, GC, HL, TM, "arch/jitterentropy-arch-atomic.h"], [("process-wide latches are atomic", B + " jent_selftest_run; " + GC + "; " + HL), ("per-instance state", "src/jitterentropy-internal.h struct rand_data")],
  ["race-detector reports", "per-thread replay of each instance against the model"]),
P("C15", "The internal timer thread never outlives or misses its work",
  "An instance using the internal timer has its timer running during every collection and stopped again when the call returns, on success, failure and recovery; it is shut down exactly once and never leaked, is only used with at least two processors (the call failing otherwise), runs on the configured or a permitted processor, gives strictly growing readings that keep up with its own progress, and a timer that cannot be started makes the call fail instead of hanging or returning data.",
  ["histories", "fault_sequences", "schedules"], "every sequence of allocation, reads, recoveries and frees, with built-in and replaced timer implementations and any failing start",
  "Tests start it on a healthy machine; failing starts, replacements and recoveries in the middle are not combined.",
  [TM, TH, B], [("start/stop bracket", TM + " jent_notime_settick/unsettick"), ("restart after recovery", B + " _jent_entropy_collector_alloc"), ("processor choice", TH)],
  ["init/start/stop/fini events of the timer implementation", "threads alive between calls", "affinity of the timer thread"]),
P("C16", "Process-wide hooks are fixed by the first initialisation",
  "The failure callback, the timer-thread implementation and the timer-thread processor can be set until the first initialisation or allocation attempt that gets as far as the known-answer or start-up tests, whether those pass or not, and are refused with an error and without effect from the beginning of that attempt on; incomplete implementations are always refused. In the compliance modes (and in the start-up test, which runs in one) the registered callback is told every health failure with the instance and exact failure mask before the failing call returns, and is never called without a failure or for an instance outside those modes.",
  ["histories", "inputs", "schedules"], "every order of configuration calls, initialisations, allocations and reads, with failing and passing timers",
  "Tests check one order; the reports over real failure sequences are not compared.",
  [B, HL, TM], [("switch latch", HL + " jent_health_cb_block_switch; " + TM + " jent_notime_block_switch"), ("report", HL + " jent_health_failure")],
  ["return values of the setters", "recorded callback invocations"]),
P("C17", "Status and identifier are truthful, well-formed and bounded",
  "For every instance state and buffer size the status call either fills the buffer with a complete, valid JSON document describing the actual state or fails, never writing past the buffer and always leaving a terminated string; for a null instance it describes the library alone. The identifier is a well-formed random version-4 UUID, unique per instance, unchanged through recoveries, and the all-zero one only when no randomness was available; too small buffers are refused without a write.",
  ["inputs", "histories", "configurations"], "every buffer length, instance configuration and history, and availability of randomness",
  "Tests use one ample buffer and a handful of instances.",
  [ST, UU], [("bounded formatter", ST + " jent_status"), ("UUID formatting", UU)],
  ["status text parsed and compared with the model", "canaries around the buffer"]),
P("C18", "Environment probing is tolerant and its results bounded",
  "Whatever the operating system reports - missing, truncated, malformed or extreme cache descriptions, processor counts and masks, FIPS indicator, random device behaviour - probing terminates without crashing or leaking descriptors, derives from well-formed data the documented values (the cache size rounded up to a power of two, FIPS mode exactly when the indicator says so), falls back to defaults otherwise, and the noise memory size derived from it stays within the documented range. This holds for each platform's discovery: where several processors can be asked, the largest data cache of each level counts, each processor is asked about its own caches, and answers beyond what a processor or record supports are not believed.",
  ["inputs", "fault_sequences", "configurations"], "every content and fault of the probed files and calls",
  "Tests read the one machine they run on.",
  ["arch/jitterentropy-arch-cache.c", "arch/jitterentropy-arch-fips.c", "arch/jitterentropy-arch-ncpu.c", "arch/jitterentropy-arch-random.c", B], [("cache probing", "arch/jitterentropy-arch-cache.c"), ("memory size derivation", B + " jent_update_memsize")],
  ["probe results against a reference parser over synthetic files", "descriptor ledger"]),
P("C19", "A common timer divisor is found once and divided out everywhere",
  "If all time stamps of the platform are multiples of a common divisor, the instance behaves exactly as it would with the divided time stamps: the divisor is the greatest common one of the start-up deltas, is established by the first successful start-up test of the process and applied to every later instance's measurements, is never zero and never changes, and a refused start-up test establishes nothing.",
  ["inputs", "histories"], "every divisor, offset and time-stamp sequence and every order of initialisations and instances",
  "Test machines tick in ones; the scaled behaviour and its persistence are not observable there.",
  [GC, N, B], [("analysis", GC + " jent_gcd_analyze"), ("division of the delta", N + " jent_measure_jitter")],
  ["deltas entering the pool against the time stamps handed out"]),
P("C20", "Kernel character device honours its read and ioctl contract",
  "Every open file of /dev/jitterentropy has an instance of its own, never used by two calls at once or after it is gone, and a read returns exactly the bytes that instance generated for it, in order, with a count equal to what was copied to the caller; once bytes were delivered an error, signal or fault ends the read with that count, otherwise with the matching error code, and buffers holding output are wiped before they are freed. A blocking read is short only for such a reason, never returns end of file, and yields the instance between internal chunks; a non-blocking read never sleeps on the instance and is capped at one internal buffer. The status and single-field ioctls answer for the instance of that file with values it had during the call, never write past the caller's buffer, report the needed length when it is too small, and unknown requests give ENOTTY; requests of 32-bit programs are answered the same way.",
  ["inputs", "schedules", "fault_sequences", "histories"], "every read size, flag, user-memory fault, pending signal, failing allocation or core failure, and every interleaving of readers, ioctls, status files, self tests and close on shared files",
  "The repository has no behavioural tests of the kernel module; it is only compiled.",
  [K + "jitterentropy_chardev.c", K + "jitterentropy_ioctl.c", K + "jitterentropy_error.h"], [("read loop", K + "jitterentropy_chardev.c jent_chardev_read"), ("status ioctl", K + "jitterentropy_chardev.c jent_chardev_ioctl_status"), ("fields", K + "jitterentropy_ioctl.c jent_ioctl_field_get")],
  ["results, user memory, locks, library calls and allocations of each call"]),
P("C21", "hw_random and crypto API deliver only genuine output and map errors right",
  "A hw_random read and a crypto API generate deliver exactly what their own instance generated for that request or report a failure: permanent health failures and failed self tests as EFAULT, unrecovered intermittent ones as EAGAIN, generic errors as EINVAL; success is never reported without the data and a failure never as data. A hw_random caller that must not wait never sleeps on the instance, a waiting one can be interrupted, and instances are used by one call at a time, also while recovery replaces them, and released with the transform or the module. In FIPS mode the kernel panics exactly when a permanent health failure, a failed self test or a failed module initialisation is met, and never otherwise.",
  ["inputs", "schedules", "fault_sequences"], "every library result, request size, waiting mode, kernel FIPS setting and interleaving of requests, self tests, status reads, transform creation and release",
  "The module is only compiled by the repository's tests; library failures cannot be provoked there.",
  [K + "jitterentropy_hwrng.c", K + "jitterentropy_kcapi.c", K + "jitterentropy_error.h"], [("error mapping", K + "jitterentropy_error.h jent_map_read_error"), ("hwrng read", K + "jitterentropy_hwrng.c jent_hwrng_read"), ("generate", K + "jitterentropy_kcapi.c jent_kcapi_random")],
  ["results and buffers of each request, library calls, locks, panics"]),
P("C22", "Kernel self tests run on schedule, bind to their instance and stay failed",
  "With an interval set (clamped to 30 days) every conditioned kernel instance - open file, transform, hw_random - is self-tested once per interval as long as it lives and has not failed; without one no periodic run happens; a released instance is not tested any more and never freed under a run. Each run is bound to its instance, excludes output of that instance while it runs, and an on-demand run needs CAP_SYS_ADMIN and returns its verdict. After a failed run the instance is never tested again and never delivers again, while other instances go on; the statistics file counts the runs, failures, open instances and cumulative opens that happened.",
  ["schedules", "histories", "configurations"], "every interval, order and interleaving of opens, closes, reads, on-demand and periodic runs, failing at any point",
  "Timers, workqueues and concurrent release cannot be driven by the repository's tests.",
  [K + "jitterentropy_selftest.c", K + "jitterentropy_proc.c"], [("work item", K + "jitterentropy_selftest.c jent_selftest_instance_work_fn"), ("on demand", K + "jitterentropy_selftest.c jent_selftest_instance_run"), ("cancel on release", K + "jitterentropy_selftest.c jent_selftest_instance_exit")],
  ["self-test runs over a virtual clock, results, statistics file"]),
P("C23", "Module load, unwind and unload leave nothing behind",
  "Loading initialises the library with the effective parameters (shortcut options folded into the flags) before any interface exists, registers every interface once, and either succeeds or returns an error after undoing every step made so far in an order that is safe against concurrent users; missing status files alone never fail an interface. Unloading removes everything: no registration, proc or debugfs entry, work item, lock or memory is left or used afterwards, and collector state is wiped when freed. The proc files show the effective configuration, version, compiled-in interfaces and status of the instance they are named after, read-only.",
  ["fault_sequences", "configurations", "schedules"], "every parameter set and build selection, a failure of any set-up step, and unload concurrent with readers of anything that does not pin the module",
  "Load failures of single steps cannot be provoked by tests; the module is only compiled.",
  [K + "jitterentropy_mod.c", K + "jitterentropy_proc.c", K + "jitterentropy_hwrng.c", K + "jitterentropy_chardev.c", K + "jitterentropy_testing.c"], [("load and unwind", K + "jitterentropy_mod.c jent_mod_init"), ("unload", K + "jitterentropy_mod.c jent_mod_exit"), ("proc tree", K + "jitterentropy_proc.c jent_proc_init")],
  ["ledgers of registrations, entries, work items, locks and memory", "contents of the proc files"]),
P("C24", "The kernel raw noise interface records exactly what was measured",
  "The raw noise file is readable by root only, is not created on a locked-down kernel and cannot be opened once lockdown is raised; each open gets an instance without the start-up procedure, with exactly the test parameters of that moment and health tests on, and the measurement routine those parameters select. A read delivers whole 64-bit deltas, verbatim, in order and one per measurement of that session, none spanning the gap before a measurement round; sizes that are no multiple of 8 are refused. Status and field queries on it answer for that instance as on the character device. A session excludes other sessions and uses one loop count throughout, the last one set (bounded to 32 bits), and result, file position and delivered data agree also after a fault or signal part-way.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "every read size, test flag word, loop count, user-memory fault, signal, lockdown change and interleaving of sessions and parameter updates",
  "The interface exists in the kernel module only, which the tests merely compile.",
  [K + "jitterentropy_testing.c"], [("extract session", K + "jitterentropy_testing.c jent_testing_extract_user"), ("open", K + "jitterentropy_testing.c jent_testing_open"), ("loop count", K + "jitterentropy_testing.c jent_testing_ioctl_loopcnt")],
  ["measurement calls and their deltas, user memory, position, locks"]),
P("C25", "Builds on a crypto library or freestanding keep the memory and mode guarantees",
  "Built against libgcrypt or OpenSSL, the library always asks the secure arena first; when secure memory is demanded (flag, or implied by forced FIPS or NTG.1) every block of the instance lies in the arena or there is no instance, otherwise ordinary memory stands in when the arena is absent or full, and the status claims secure memory only when demanded. The process is never ended for want of memory. On every back end (also AWS-LC, which never claims secure memory, and freestanding, where all memory counts as secure) ordinary memory is wiped before it is given back, every block is given back exactly once and with the right call, also when memory runs out at any point of an initialisation, allocation or recovery; FIPS mode is what the crypto library says; results do not depend on the kind of memory; and service returns once memory does.",
  ["fault_sequences", "histories", "configurations"], "every state of the arena and heap, a refusal at any allocation, every mode and sequence of calls",
  "The tests build and run one back end; arena exhaustion and its interaction with recovery cannot be sampled there.",
  ["arch/jitterentropy-arch-memory.c", "arch/jitterentropy-arch-fips.c"], [("allocation", "arch/jitterentropy-arch-memory.c jent_zalloc"), ("release", "arch/jitterentropy-arch-memory.c jent_zfree"), ("claim", "arch/jitterentropy-arch-memory.c jent_memory_is_secure"), ("mode", "arch/jitterentropy-arch-fips.c jent_fips_enabled")],
  ["blocks by kind, content when given back, results, status fields"]),
P("C26", "Every time stamp is the platform's own counter, whole and fresh",
  "Without a replaced time source, every time stamp the library takes is the full value the platform's best counter shows at that moment: the processor's counter instruction on x86 in user space and in the kernel, the kernel's entropy counter or, when that answers zero, its nanosecond clock on other processors, the timebase on PowerPC, and a clock nobody can set (in nanoseconds, zero when it fails, which no start-up test accepts) elsewhere. No bit is dropped, scaled or cached, and no other clock contributes. A mocked source can be registered only in builds made for it; while registered it alone, asked once per stamp, provides the stamps, and the platform's counter does so again once it is deregistered. The library as shipped (no mock, no internal timer) measures, tests, conditions, refuses and recovers exactly as specified over these stamps, and refuses the internal timer it does not have.",
  ["inputs", "configurations", "histories"], "every counter value and width, clock failure, order of registrations and build configuration",
  "The tests cannot control the processor's counter and so never compare a stamp with it; the shipped configuration is only smoke-tested.",
  ["arch/jitterentropy-arch-timer.c", "src/jitterentropy-timer.h"], [("time stamp", "arch/jitterentropy-arch-timer.c jent_get_nstime"), ("replaced source", "arch/jitterentropy-arch-timer.c jent_set_mock_timer"), ("no internal timer", "src/jitterentropy-timer.h jent_notime_enable")],
  ["counter readings answered by the monitor, time stamps, everything derived from them"]),
]
LEVEL_NOTE = "Runtime monitoring: holds on every execution explored (counts in the evidence file), for any input of the generated classes; not a proof. Trusts the reference models in harness/, the wrapped call boundary and the compilers."
NA = [
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            if p["id"] in checks.CHECKS or p["id"] in [n["property"] for n in NA]:
                f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": NA,
         "notes": "No hooks in /repo: the monitors observe the library through its mock timer, linker-wrapped calls and sanitizers. See DESIGN.md."}
    for p in PROPS:
        c = checks.CHECKS.get(p["id"])
        if not c:
            continue
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
                            "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": c["technique"], "level": c["level"], "level_note": c.get("note", LEVEL_NOTE)})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

def design():
    sys.path.insert(0, os.path.join(HERE, "tools"))
    import design as D
    t = open(os.path.join(HERE, "tools", "DESIGN.tmpl.md")).read()
    o = []
    for p in PROPS:
        c = checks.CHECKS.get(p["id"])
        na = next((n for n in NA if n["property"] == p["id"]), None)
        if c:
            cost = "; ".join("%s/%s (%s): %d quick, %d thorough cases" % (j["harness"], j["profile"], j["variant"], j["quick"], j["thorough"]) for j in c["jobs"])
            o.append("**%s %s.** %s\n*Why tests cannot:* %s\n*Workload:* %s." % (p["id"], p["title"], D.HOW[p["id"]], p["why_tests_cant"], cost))
        elif na:
            o.append("**%s %s.** Not applicable: %s" % (p["id"], p["title"], na["reason"]))
    fx = json.load(open(os.path.join(HERE, "known_findings.json")))["fixed"]
    ca = json.load(open(os.path.join(HERE, "tools", "catches.json")))
    sd = []
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
        sd.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], ca.get(d, "not caught")))
    t = t.replace("@@PROPS@@", "\n\n".join(o)).replace("@@FIXED@@", "\n".join("- " + x[7:] for x in fx))
    t = t.replace("@@SEEDS@@", "| change | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(sd))
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(t)


main()
if os.path.isdir(os.path.join(HERE, "seeded")):
    design()
