"""Per-property design texts; used by gen_props.py to write DESIGN.md."""
HOW = {
"C01": "Profile `gate` of h_model. A scripted mock timer places disturbances (constant runs, periods, reduced alphabets, stalls, around every cutoff) anywhere in multi-block reads of random size, plain and self-recovering, all modes and rates. `sim.h` is stepped with the same time stamps: it predicts the sample at which each health test fires, the return code, the bytes written and the bytes left untouched (buffer pre-filled with a pattern, guard bytes on both sides). Oracle: exact equality of code, buffer, time-stamp count, generated blocks, callback list and status. Bounds: up to ~10 calls and a few hundred thousand samples per case.",
"C02": "Profile `direct` of h_health feeds the real insertion functions a few hundred thousand deltas per case and compares the stuck flag and failure mask after *every* sample with the definitions in ref.h, for rates 3..20, both cutoff sets, across window boundaries and duplicated (recovered) state; patterns are tuned to reach cutoff-1, cutoff and cutoff+1. h_model `gate`/`ladder` do the same end to end.",
"C03": "Profile `noise`: every time stamp handed out, every pool insertion (data, length, order), hash-loop invocation and generation event is captured at the sponge boundary and compared with the specification's expected sequence; stuck deltas are injected so that they must not count. Every memory access adds one to a byte of memory that starts out zero, so after each call the byte sum gives the number of accesses made and the touched bytes their spread over the configured size. The profiles `gate`, `ladder` and `startup` repeat this through health failures and recoveries.",
"C04": "h_cond compares the digests, extendable outputs and XDRBG generate/reseed histories with an independent implementation over random lengths (across the 64 KiB, rate and block boundaries), alignments and chunkings; the model profile recomputes every delivered byte from the captured pool input.",
"C05": "Profile `startup`: every class of bad timer (zero, constant, coarse, backward steps 0..5, stuck share exactly at/around the limit, variation exactly at/around the bound, failures injected in the self test, refused memory) in sequences of init/alloc attempts. Oracle: reference verdict of the timer test and a latch model; allocation must have consumed a full test unless the most recent attempt passed.",
"C06": "Profile `ladder`: failures during reads, during the start-up phase and during recovery itself; the model predicts the configuration after each rung, identity, counters, pre-loaded health state, and that the request is served in full from the replacement. Profile `climb` goes all the way up to the largest rate; profile `carry` lets the disturbance go on from the very measurement after the replacement (same period and phase, same window value), so that lost or reset counters change the verdict.",
"C07": "Profile `selftest`: known-answer verdicts are injected through the wrapped hash tester, from callbacks, between blocks, bound/unbound/other instance, around recoveries. Oracle: sticky per-instance verdict in the model.",
"C08": "Profile `config`: arbitrary flag words and rates, lock failures, system FIPS mode, any order in one process. Oracle: the documented acceptance rule, and status plus sampling behaviour of what was created.",
"C09": "h_mem runs library calls on a stack of its own; every mapping is inspected at munmap (must be all zero), and after each call the dead stack, .data/.bss and live mappings are searched for generator states, undelivered output and pool inputs captured at the sponge boundary. gcc -O2 and clang -O2. Profile `wipe` of h_fault repeats the release check on every error path reachable by one failed system call.",
"C10": "Same harness, profile `backtrack`: at every point between calls the whole writable image is searched for each recomputed earlier state, pool input and delivered block (in 16-byte windows).",
"C11": "h_fault enumerates (scenario, system call kind, k-th call, once / a few times / for good): each scenario is first run undisturbed to count its calls. Oracle: documented results only, full service after success, ledgers of mappings, descriptors and threads, normal service once the environment recovered. Indices past the enumeration add second faults at random. Repeated under ASan/UBSan.",
"C12": "Guard pages, VmFlags (dd, lo) of every live region are read from /proc/self/smaps between calls and in the middle of collections (from the mock timer), under real RLIMIT_MEMLOCK values running out at each region in turn, and with single or all lock calls failing (EPERM, ENOMEM, EAGAIN), with and without the internal timer; demanded-or-implied locking must hold over the whole life, including replacements.",
"C13": "The h_api fuzzer makes arbitrary calls with corner-value arguments (null, zero, maximal, wrapped time stamps) on canaried buffers under ASan+UBSan (clang), MSan and gcc; all other harnesses are repeated in ASan builds. Oracle: sanitizer reports, canaries, return-code ranges, leak check at exit.",
"C14": "h_race runs instances in several threads with thread-local scripted timers under ThreadSanitizer, together with status calls, bound self tests from another thread, callback registration and first initialisations racing, threads pausing or being held at every access to a process-wide flag while another runs through; besides the race detector each instance's output is compared with a single-threaded replay of the same script.",
"C15": "h_timer observes init/start/stop/fini of built-in and replaced timer implementations, threads alive and their affinity between calls, on synthetic processor sets with failing starts (also of the replacement made while an instance starts up), disturbances that cause recoveries and failed bound self tests, and keeps a ledger of the library's mappings. With the real counter thread, readings are related to the processor time that thread received. Oracle: trace specification (bracketing, exactly-once shutdown, no reading while stopped, allowed processors, no repeated or stale reading, none before a late-scheduled thread has begun to count), result rule.",
"C16": "h_hooks drives every order of setters, initialisations (passing and failing), allocations and reads in fresh processes; oracle: latch automaton, effect of the setter (callback invoked / implementation used / processor used) and exactness of callback reports through the model.",
"C17": "h_env checks status for every buffer length from 0 to past the document (canaries, termination, result rule), parses it with a strict JSON parser and compares each field with the model or the configuration (also with counters placed where only long service brings them, and every combination of failure bits); identifiers are checked for form, uniqueness, persistence and the nil rule under injected failures of the random source.",
"C18": "h_env replaces the file and processor interfaces by synthetic trees (well-formed, truncated, malformed, extreme, failing, interrupted); oracle: reference parser and derivation rules, descriptor ledger, bounded work. A second build without glibc adds the list of online processors. h_probe builds the cache discovery of the other platforms (kernel x86 and arm64, freestanding x86, macOS, Windows, AIX) against stand-ins (`harness/pshim/`, kshim) of CPUID, cache ID registers, sysctl and processor records that answer from a generated machine; sizes must be those of the machine.",
"C19": "Profile `scale`: the same script is given with time stamps multiplied by a divisor; pool contents and verdicts must be those of the divided script. Start-up scripts whose deltas are multiples but for one; sequences of refused (every class) and passed start-up tests and several instances per process.",
"C20": "h_kern compiles linux_kernel/*.c unmodified in user space against `harness/kshim/` (stand-in kernel headers). Tasks are fibres run by a seeded scheduler that may switch at every kernel call, atomic and library call; mutexes, signals, user memory (with faults at any byte), allocations and the clock are simulated and faultable. The library below is a scripted stand-in reached with `--wrap` (build `kern`) or the real library on a scripted counter (`kern-real`). Each call records its library reads, copies, lock operations and causes; an executable specification of the contract judges result, user bytes and their provenance. Deadlock, lock misuse, use of a busy or freed instance, output left in freed memory are monitored all the time. gcc, ASan+UBSan, MSan; an -O0 build is also single-stepped (trap flag) so that parameter writes land between any two instructions of a call. Requests also arrive through the 32-bit entry.",
"C21": "Same harness, profile `service`: hw_random reads (waiting or not), crypto transforms, all library result codes, FIPS kernels (panic is an event; missing and undue panics are violations), recovery replacing the instance in the middle.",
"C22": "Same harness, profile `selftest`, virtual clock: for every instance the time of its last run bounds the next; at quiescence the clock is advanced and all due runs must have happened. Sticky verdicts, privilege, binding, exclusion and the statistics file (bounds: runs ended before/started by the read) are checked. `kern-hw` builds hwrng only, where the instance lives as long as the module.",
"C23": "Profile `init` makes one set-up step fail (each registration, directory, file, allocation, instance) at load, and `any` mixes everything with unload; ledgers must be empty afterwards. Proc contents are compared with what the parameters mean. Builds without procfs/debugfs (`kern-nofs`) and with hwrng only (`kern-hw`).",
"C24": "Profile `raw`: measurement calls of the session are recorded with routine, loop count, priming and delta; delivered bytes must be their verbatim sequence. Lockdown and parameters change at run time, also between two instructions of an open. Status and field queries on the raw file are judged as on the character device.",
"C25": "h_backend builds the library with LIBGCRYPT, OPENSSL, AWSLC and JENT_BAREMETAL against stand-ins of those libraries (`harness/cshim/`, `--wrap` of the allocator for the freestanding build) which keep a ledger of every block (kind, owner, guard bytes, content when given back) and can be without an arena, small, exhausted at the n-th block, answer with ordinary memory, or refuse ordinary memory. Oracle: rules on the ledger after every call, status fields against the ledger and the stand-in's FIPS mode, service after recovery of the environment, and equality of all results of one scenario between ample, absent and small arenas. gcc, ASan+UBSan, MSan. Trusts that the stand-ins answer like the libraries (their documented contracts; the libraries themselves are not installed except OpenSSL).",
"C26": "The counter instruction is made to trap (`PR_SET_TSC`, harness/tsc.h) and each trap is answered with a value of the case's choosing, so the unmodified x86 back ends (user space, kernel) can be compared stamp by stamp with what the counter showed (h_stamp); the clocks and counters of the generic, kernel-generic, PowerPC, AIX, macOS and Windows back ends are stand-ins, as in C18. `model-prod` builds the library as shipped (neither mock nor internal timer) and runs the whole model (sim.h) on the trapped counter. Back ends in inline assembly of other processors (arm64, s390x, RISC-V, SPARC, LoongArch) cannot be executed here and are not judged.",
}
