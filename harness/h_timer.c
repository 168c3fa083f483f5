/* Monitor of the internal timer: a trace specification over the life cycle
 * events of the timer implementation (built in, through the pthread calls it
 * makes, or a replacement registered through the public interface) and over
 * the moments at which the library reads the time. Time values handed to
 * instances on the internal timer are scripted in profile "life" (so that
 * health failures and recoveries happen), and real in profile "real". */
#include "vf.h"
#include "jitterentropy.h"
#include "arch/jitterentropy-arch-timer.h"
#include "arch/jitterentropy-arch-ncpu.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/mman.h>
#include <time.h>

struct rand_data;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static int scripted, builtin, delegating, opseq;
static const char *curop = "none";

/* ---------- environment: processors ---------- */
static int env_kind;		/* 0 real, 1 synthetic mask, 2 getaffinity fails */
static unsigned env_ids = 1024, env_cpu[32], env_ncpus;
static long env_onln = 8;
static long allowed_cpu[64]; static int nallowed; static long configured = -1;
static unsigned long pins_seen, pins_bad;
int __real_sched_getaffinity(pid_t, size_t, cpu_set_t *);
int __wrap_sched_getaffinity(pid_t p, size_t sz, cpu_set_t *m)
{
	unsigned i;
	if (env_kind == 0) return __real_sched_getaffinity(p, sz, m);
	if (env_kind == 2) { errno = env_onln & 1 ? EPERM : ENOSYS; return -1; }
	if (sz * 8 < env_ids) { errno = EINVAL; return -1; }
	memset(m, 0, sz);
	for (i = 0; i < env_ncpus; i++) CPU_SET_S(env_cpu[i], sz, m);
	return 0;
}
long __real_sysconf(int);
long __wrap_sysconf(int n)
{
	if (env_kind == 2 && n == _SC_NPROCESSORS_ONLN) { if (env_onln < 0) errno = EINVAL; return env_onln; }
	return __real_sysconf(n);
}
static long env_count(void)
{
	cpu_set_t s;
	if (env_kind == 1) return env_ncpus;
	if (env_kind == 2) return env_onln;
	__real_sched_getaffinity(0, sizeof(s), &s);
	return CPU_COUNT(&s);
}
static long env_highest(void)
{
	long h = -1; unsigned i; cpu_set_t s;
	if (env_kind == 1) { for (i = 0; i < env_ncpus; i++) if ((long)env_cpu[i] > h) h = env_cpu[i]; return h; }
	if (env_kind == 2) return env_onln - 1;
	__real_sched_getaffinity(0, sizeof(s), &s);
	for (i = 0; i < 1024; i++) if (CPU_ISSET(i, &s)) h = i;
	return h;
}
static int nopin_ok;
static void env_allow(void) { if (env_highest() < 0) nopin_ok = 1; if (nallowed < 64) allowed_cpu[nallowed++] = env_highest(); }
static void env_pick(int atleast2)
{
	unsigned i, j, top;
	if (scripted) switch (vf_below(6)) {
	case 0: case 1: env_kind = 0; break;
	case 2: case 3: case 4:
		env_kind = 1;
		env_ncpus = atleast2 ? (unsigned)vf_range(2, 12) : 1;
		top = vf_chance(1, 2) ? 64 : vf_chance(1, 2) ? 1024 : vf_chance(1, 2) ? 8192 : 65536;
		env_ids = top < 1024 ? 1024 : top;
		for (i = 0; i < env_ncpus; i++) {
again:			env_cpu[i] = (unsigned)vf_below(top);
			if (i == 0 && vf_chance(1, 3)) env_cpu[i] = top - 1;
			for (j = 0; j < i; j++) if (env_cpu[j] == env_cpu[i]) goto again;
		}
		break;
	case 5:
		env_kind = 2;
		env_onln = atleast2 ? (long)vf_range(2, 300) : vf_chance(1, 2) ? 1 : vf_chance(1, 2) ? -1 : 0;
		break;
	}
	if (!scripted || (!atleast2 && env_kind == 0)) { env_kind = atleast2 ? 0 : 1; env_ncpus = 1; env_cpu[0] = 3; env_ids = 1024; }
	if (atleast2 && env_count() < 2) { env_kind = 1; env_ncpus = 2; env_cpu[0] = 1; env_cpu[1] = 5; env_ids = 1024; }
	env_allow();
}

/* ---------- timer threads ---------- */
#define NT 4096
struct trec { int used, alive, joined, pinned, late, begun; pthread_t th; pid_t tid; void *(*fn)(void *); void *arg; };
static struct trec T[NT]; static int nT;
static unsigned long starts, joins, initc, finic, stopc, reads_timed;
static __thread struct trec *self;
static int running_threads(void)
{
	int i, n = 0;
	for (i = 0; i < nT; i++) n += T[i].alive;
	return n;
}
static void *tramp(void *a)
{
	struct trec *t = a;
	self = t;
	if (t->late) usleep(2000);	/* scheduled late */
	__atomic_store_n(&t->begun, 1, __ATOMIC_SEQ_CST);
	return t->fn(t->arg);
}
int __real_sched_setaffinity(pid_t, size_t, const cpu_set_t *);
int __wrap_sched_setaffinity(pid_t p, size_t sz, const cpu_set_t *m)
{
	long got = -1, n = 0; size_t i; int k, ok = 0;
	for (i = 0; i < sz * 8; i++) if (CPU_ISSET_S(i, sz, m)) { got = (long)i; n++; }
	pthread_mutex_lock(&mx);
	if (configured >= 0) ok = n == 1 && got == configured;
	else for (k = 0; k < nallowed; k++) ok |= n == 1 && got == allowed_cpu[k];
	pins_seen++;
	if (self) self->pinned++;
	else { pthread_mutex_unlock(&mx); vf_fail("caller-pinned", "the calling thread itself was pinned to a processor during %s", curop); }
	pthread_mutex_unlock(&mx);
	if (!ok)
		vf_fail("timer-cpu", "timer thread asked to run on %ld processors, last %ld; %s %ld", n, got,
			configured >= 0 ? "configured is" : "highest permitted is", configured >= 0 ? configured : allowed_cpu[nallowed ? nallowed - 1 : 0]);
	if (env_kind == 0) {
		int r = __real_sched_setaffinity(p, sz, m);
		if (!r && configured < 0) {	/* the kernel agrees */
			cpu_set_t s; __real_sched_getaffinity(0, sizeof(s), &s);
			if (CPU_COUNT(&s) != 1 || !CPU_ISSET((int)got, &s)) vf_fail("timer-cpu", "affinity not in effect");
		}
		return r;
	}
	if (got & 1) { errno = EINVAL; return -1; }
	return 0;
}
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
static int fail_create_at, fail_attr_at, ncreate, nattr, fault_fired, fail_persist;
static int hit(int *cnt, int at) { ++*cnt; return at && (*cnt == at || (fail_persist && *cnt > at)); }
static struct trec *spawn(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg, int *err)
{
	struct trec *t;
	pthread_mutex_lock(&mx);
	if (nT >= NT) vf_inconclusive("too many threads");
	t = &T[nT++];
	t->used = 1; t->alive = 1; t->fn = fn; t->arg = arg; t->late = !scripted && vf_chance(1, 3);
	pthread_mutex_unlock(&mx);
	*err = __real_pthread_create(th, at, tramp, t);
	if (*err) vf_inconclusive("cannot create a thread: %d", *err);
	t->th = *th;
	starts++;
	return t;
}
static void finish_thread(struct trec *t)
{
	struct timespec ts;
	int r;
	clock_gettime(CLOCK_REALTIME, &ts);
	ts.tv_sec += 25;
	r = pthread_timedjoin_np(t->th, NULL, &ts);
	if (r) vf_fail("timer-not-told-to-stop", "the timer routine does not end although the stop was requested (%s)", curop);
	t->alive = 0; t->joined = 1; joins++;
	if (!t->pinned && !(configured < 0 && nopin_ok) && (configured < 0 || configured < (long)JENT_NCPU_SET_MAX) && pins_bad++ == 0)
		vf_fail("timer-cpu", "a timer thread ran without asking for the %s processor", configured >= 0 ? "configured" : "highest permitted");
}
int __wrap_pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
	int e;
	if (hit(&ncreate, fail_create_at)) { fault_fired++; return vf_chance(1, 2) ? EAGAIN : EPERM; }
	if (running_threads() && !builtin) vf_fail("unexpected-thread", "thread created although a replacement implementation is registered");
	spawn(th, at, fn, arg, &e);
	return e;
}
int __wrap_pthread_join(pthread_t th, void **rv)
{
	int i;
	(void)rv;
	for (i = 0; i < nT; i++) if (T[i].alive && pthread_equal(T[i].th, th)) { finish_thread(&T[i]); return 0; }
	vf_fail("join-unknown", "thread joined that is not running (%s)", curop);
}
int __real_pthread_attr_init(pthread_attr_t *);
int __wrap_pthread_attr_init(pthread_attr_t *a)
{
	if (hit(&nattr, fail_attr_at)) { fault_fired++; return ENOMEM; }
	return __real_pthread_attr_init(a);
}

/* ---------- replacement implementation ---------- */
#define NC 4096
struct cctx { void *mem; int live, running; struct trec *t; pthread_t th; void *arg; };
static struct cctx C[NC]; static int nC;
static int fail_start_at, fail_init_at, nstart, ninit;
static struct cctx *cfind(void *p) { int i; for (i = nC - 1; i >= 0; i--) if (C[i].mem == p && C[i].live) return &C[i]; return NULL; }
static int c_init(void **ctx)
{
	void *m = NULL;
	initc++;
	if (hit(&ninit, fail_init_at)) {
		fault_fired++;
		if (vf_chance(1, 2)) *ctx = NULL;
		return vf_chance(1, 2) ? -ENOMEM : 7;
	}
	if (delegating) { int r = jent_notime_init(&m); if (r) return r; }
	else {
		size_t n = (size_t)vf_range(1, 24);
		m = malloc(n);
		memset(m, (int)vf_rnd(), n);
		if (env_count() < 2) { free(m); return -ENOENT; }
	}
	if (nC >= NC) vf_inconclusive("too many contexts");
	C[nC].mem = m; C[nC].live = 1; nC++;
	*ctx = m;
	return 0;
}
static void c_fini(void *ctx)
{
	struct cctx *c;
	finic++;
	if (!ctx) return;
	c = cfind(ctx);
	if (!c) vf_fail("fini-twice", "timer shut down twice or never set up (%s)", curop);
	if (c->running) vf_fail("fini-running", "timer shut down while its thread runs (%s)", curop);
	c->live = 0;
	if (delegating) jent_notime_fini(ctx);
	else free(ctx);
}
static int c_start(void *ctx, void *(*fn)(void *), void *arg)
{
	struct cctx *c = cfind(ctx);
	int e;
	if (!ctx || !c) vf_fail("start-dead", "timer started that is not set up (%s)", curop);
	if (c->running) vf_fail("start-twice", "timer started while it runs (%s)", curop);
	if (hit(&nstart, fail_start_at)) { fault_fired++; return vf_chance(1, 2) ? -EAGAIN : 1; }
	c->arg = arg;
	c->t = spawn(&c->th, NULL, fn, arg, &e);
	c->running = 1;
	return 0;
}
static void c_stop(void *ctx)
{
	struct cctx *c;
	stopc++;
	if (!ctx) return;
	c = cfind(ctx);
	if (!c) vf_fail("stop-dead", "timer stopped after it was shut down (%s)", curop);
	if (!c->running) return;
	finish_thread(c->t);
	c->running = 0;
}
static struct jent_notime_thread custom = { c_init, c_fini, c_start, c_stop };

/* ---------- time ---------- */
static uint64_t now, sd; static unsigned long long nread_call, bad_from, bad_len; static int bad_kind;
static struct vf_rng tr;
static int must_internal, direct, platform_bad; static uint64_t plat, platc;
static uint64_t step(unsigned long long i)
{
	if (i >= bad_from && i < bad_from + bad_len) {
		if (bad_kind == 0) return sd;			/* constant: stuck */
		if (bad_kind == 1) return 0;
		if (bad_kind == 2) return (i % 3) ? 700 : 40;	/* short period */
	}
	return 20 + vf_rng_next(&tr) % 5000;
}
static void mock(void *arg, uint64_t *out)
{
	(void)arg;
	plat += platform_bad == 1 ? 0 : platform_bad == 2 ? 100 : 30 + vf_rng_next(&tr) % 5000;
	platc++;
	*out = plat;
}
static int ec_running(struct rand_data *ec)
{
	int i, any = 0, mine = 0;
	for (i = 0; i < nT; i++) if (T[i].alive) { any = 1; if (T[i].arg == (void *)ec) mine = 1; }
	if (mine) direct = 1;
	return direct ? mine : any;
}
void __real_jent_get_nstime_internal(struct rand_data *ec, uint64_t *out);
/* The counter advances with the processor time of its thread: a stamp taken after the thread has run for
 * a while shows it, and no stamp repeats or goes back while one thread counts. */
static struct trec *fr_t; static struct rand_data *fr_ec; static uint64_t fr_last; static unsigned fr_n;
static uint64_t cpu_ns(struct trec *t)
{
	clockid_t c; struct timespec ts;
	if (pthread_getcpuclockid(t->th, &c) || clock_gettime(c, &ts)) return 0;
	return (uint64_t)ts.tv_sec * 1000000000u + (uint64_t)ts.tv_nsec;
}
static void fresh_read(struct rand_data *ec, uint64_t *out)
{
	struct trec *t = NULL; int i, n = 0, waited = 0; uint64_t last = fr_last;
	for (i = 0; i < nT; i++) if (T[i].alive) { t = &T[i]; n++; }
	if (n == 1 && t == fr_t && ec == fr_ec && fr_n < 40 && vf_chance(1, 200)) {
		uint64_t c0 = cpu_ns(t); int k;
		for (k = 0; c0 && k < 20; k++) { usleep(1000); if (cpu_ns(t) >= c0 + 2000000) { waited = 1; break; } }
		fr_n++;
	}
	__real_jent_get_nstime_internal(ec, out);
	if (n == 1 && !__atomic_load_n(&t->begun, __ATOMIC_SEQ_CST)) vf_fail("stamp-before-tick", "internal timer gave %llu although its thread has not begun to count (%s)", (unsigned long long)*out, curop);
	if (n == 1 && t->late && t != fr_t) vf_count("late_threads", 1);
	if (n == 1 && t == fr_t && ec == fr_ec) {
		if (*out <= last) vf_fail("stamp-repeated", "internal timer gave %llu after %llu (%s)", (unsigned long long)*out, (unsigned long long)last, curop);
		if (waited) {
			vf_count("fresh_stamps", 1);
			if (*out - last < 2000) vf_fail("stale-stamp", "the timer thread ran for 2 ms between two readings, which differ by %llu (%s)", (unsigned long long)(*out - last), curop);
		}
	}
	fr_t = n == 1 ? t : NULL; fr_ec = ec; fr_last = *out;
}
void __wrap_jent_get_nstime_internal(struct rand_data *ec, uint64_t *out)
{
	int r = ec_running(ec);
	if (!r && must_internal)
		vf_fail("read-without-timer", "time of an instance on the internal timer read while its timer does not run (%s)", curop);
	reads_timed += (unsigned long)r;
	if (!r) { __real_jent_get_nstime_internal(ec, out); return; }
	if (!scripted) { fresh_read(ec, out); return; }
	now += step(nread_call++);
	*out = now;
}

/* ---------- mappings of the library ---------- */
static int nmaps;
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
void *__wrap_mmap(void *a, size_t n, int p, int fl, int fd, off_t o);
void *__wrap_mmap(void *a, size_t n, int p, int fl, int fd, off_t o) { void *r = __real_mmap(a, n, p, fl, fd, o); if (r != MAP_FAILED) __atomic_fetch_add(&nmaps, 1, __ATOMIC_RELAXED); return r; }
int __wrap_munmap(void *a, size_t n);
int __wrap_munmap(void *a, size_t n) { int r = __real_munmap(a, n); if (!r) __atomic_fetch_sub(&nmaps, 1, __ATOMIC_RELAXED); return r; }
/* ---------- driver ---------- */
static int kat_fail;
int __real_jent_sha3_tester(void);
int __wrap_jent_sha3_tester(void);
int __wrap_jent_sha3_tester(void) { int r = __real_jent_sha3_tester(); return kat_fail ? 1 : r; }
#define NI 3
static struct inst { struct rand_data *ec; int internal; int compliance; int dead; } I[NI];
static int selftest_ok, forced;
static int live_ctx(void) { int i, n = 0; for (i = 0; i < nC; i++) n += C[i].live; return n; }
static int tasks(void)
{
	DIR *d = opendir("/proc/self/task"); int n = 0; struct dirent *e;
	if (!d) return 1;
	while ((e = readdir(d))) n += e->d_name[0] != '.';
	closedir(d);
	return n;
}
static void begin(const char *op)
{
	curop = op; opseq++;
	nread_call = 0; bad_len = 0; fault_fired = 0; fail_persist = 0;
	ncreate = nattr = nstart = ninit = 0;
	fail_create_at = fail_attr_at = fail_start_at = fail_init_at = 0;
	must_internal = 0; platform_bad = 0;
	sd = 20 + vf_below(3000);
}
static void plan_fault(int also_init, unsigned top)
{
	int at = (int)vf_range(1, top);
	fail_persist = vf_chance(1, 4);
	if (builtin) { if (vf_chance(1, 3)) fail_attr_at = at; else fail_create_at = at; }
	else if (also_init && vf_chance(1, 2)) fail_init_at = at;
	else fail_start_at = at;
}
static void plan_bad(void)
{
	if (!scripted) return;
	bad_from = vf_chance(1, 3) ? vf_below(4000) : vf_below(1200);
	bad_len = vf_chance(1, 4) ? 100000 : vf_range(40, 900);
	bad_kind = (int)vf_below(3);
}
static void end(void)
{
	int i, k, internal = 0;
	if (running_threads())
		vf_fail("timer-left-running", "%d timer thread(s) still running after %s returned", running_threads(), curop);
	for (i = 0; i < nC; i++) if (C[i].live && C[i].running) vf_fail("timer-left-running", "timer still running after %s", curop);
	for (k = 0; k < NI; k++) internal += I[k].ec && I[k].internal;
	if (!builtin && live_ctx() != internal)
		vf_fail("timer-leak", "%d timers set up for %d instances using one, after %s", live_ctx(), internal, curop);
	vf_count("calls", 1);
	if (fault_fired) vf_count("calls_with_fault", 1);
}
static void settle_tasks(void)
{
	int i;
	for (i = 0; i < 4000 && tasks() > 1; i++) usleep(1000);
	if (tasks() > 1) vf_fail("thread-leak", "%d threads alive after %s", tasks() - 1, curop);
}
static int uses_internal(struct rand_data *ec)
{
	char b[8192], *p;
	if (jent_status(ec, b, sizeof(b))) return -1;
	p = strstr(b, "\"internalTimer\"");
	if (!p) return -1;
	p = strchr(p, ':');
	return strstr(p, "true") && strstr(p, "true") - p < 4;
}
static unsigned flagset(int *compl)
{
	unsigned f = 0;
	*compl = 0;
	if (vf_chance(1, 3)) { f |= JENT_FORCE_FIPS; *compl = 1; }
	f |= JENT_MAX_MEMSIZE_32kB;
	if (vf_chance(1, 2)) f |= JENT_HASHLOOP_1;
	if (!*compl && vf_chance(1, 5)) f |= JENT_DISABLE_MEMORY_ACCESS;
	return f;
}
static void op_init(void)
{
	int compl, r, which = (int)vf_below(3), one = 0;
	unsigned f = flagset(&compl);
	begin("init");
	if (vf_chance(1, 4)) plan_fault(1, 2);
	if (vf_chance(1, 4)) plan_bad();
	if (vf_chance(1, 6)) { one = 1; env_pick(0); }
	platform_bad = (int)vf_below(3);
	if (which == 0) { if (!platform_bad && !forced) { fail_create_at = fail_attr_at = fail_start_at = fail_init_at = 0; bad_len = 0; } r = jent_entropy_init(); }
	else if (which == 1) { must_internal = 1; platform_bad = 0; f |= JENT_FORCE_INTERNAL_TIMER; r = jent_entropy_init_ex((unsigned)vf_range(1, 6), f); }
	else { f |= JENT_FORCE_INTERNAL_TIMER | JENT_NTG1; platform_bad = 0; r = jent_entropy_init_ex(0, f); }
	if (which == 2) { if (!r) vf_fail("ntg1-internal", "initialisation with NTG.1 and the forced internal timer succeeded"); if (initc + starts && fault_fired) {} }
	else if (which == 1) {
		if (fault_fired && !r) vf_fail("init-despite-fault", "initialisation succeeded although the timer could not be set up or started");
		if (one && !r) vf_fail("init-one-cpu", "initialisation on the internal timer succeeded with fewer than two processors");
		if (!fault_fired && !one && !bad_len && scripted && r) vf_fail("init-refused", "initialisation with a good internal timer returned %d", r);
		forced = 1;
	} else {
		if (platform_bad || forced) {
			if (one && !r) vf_fail("init-one-cpu", "initialisation without a usable time source succeeded with fewer than two processors");
			if (fault_fired && !r) vf_fail("init-despite-fault", "initialisation succeeded although neither time source works");
			if (!fault_fired && !one && !bad_len && scripted && r) vf_fail("init-refused", "fallback to a good internal timer returned %d", r);
			forced = 1;
		} else if (r) vf_fail("init-refused", "initialisation with a good platform timer returned %d", r);
	}
	selftest_ok = !r;
	end();
	vf_state(vf_mix(vf_mix(1, (uint64_t)which), (uint64_t)(r * 4 + (fault_fired != 0) * 2 + one)));
	if (one) env_pick(1);
}
static void op_alloc(int k)
{
	int compl, kind = (int)vf_below(10), one = 0, tried, maps;
	unsigned f = flagset(&compl), osr = (unsigned)vf_range(0, 6);
	struct rand_data *ec;
	begin("alloc");
	if (vf_chance(1, 4)) plan_fault(1, 4);
	if (vf_chance(1, 3)) plan_bad();
	if (vf_chance(1, 7)) { one = 1; env_pick(0); }
	if (scripted && selftest_ok && vf_chance(1, 4)) {	/* the timer of a replacement made during the start-up does not start */
		fail_create_at = fail_attr_at = fail_start_at = fail_init_at = 0;
		f = (f | JENT_FORCE_FIPS) & ~(unsigned)JENT_DISABLE_MEMORY_ACCESS; compl = 1; kind = 0; one = 0; env_pick(1);
		bad_from = vf_below(300); bad_len = vf_chance(1, 2) ? 100000 : vf_range(300, 3000); bad_kind = (int)vf_below(2);
		if (vf_chance(4, 5)) plan_fault(1, 5);
	}
	platform_bad = 0;
	if (kind < 7) { f |= JENT_FORCE_INTERNAL_TIMER; must_internal = 1; }
	else if (kind == 7) f |= JENT_DISABLE_INTERNAL_TIMER;
	else if (kind == 8) { f |= JENT_FORCE_INTERNAL_TIMER | (vf_chance(1, 2) ? JENT_NTG1 : JENT_DISABLE_INTERNAL_TIMER); }
	else if (forced && vf_chance(1, 2)) { kind = 10; f |= JENT_NTG1; f &= ~(unsigned)JENT_DISABLE_MEMORY_ACCESS; }
	else must_internal = forced;
	tried = forced; maps = nmaps;
	ec = jent_entropy_collector_alloc(osr, f);
	if (!ec && nmaps != maps) vf_fail("refused-alloc-leaks", "a refused allocation leaves %d mappings behind (flags 0x%x, fault %d)", nmaps - maps, f, fault_fired);
	if (kind == 8) {
		if (ec) vf_fail("contradiction-allocated", "contradictory timer flags 0x%x gave an instance", f);
	} else if (kind == 10) {
		vf_count("ntg1_after_forced", 1);
		if (ec) vf_fail("ntg1-on-internal-timer", "an NTG.1 instance was created in a process that had to switch to the internal timer");
	} else if (kind == 7) {
		if (tried && ec) vf_fail("disabled-after-forced", "instance without internal timer although the process had to switch to it");
		if (ec && (starts && uses_internal(ec) == 1)) vf_fail("disabled-but-used", "internal timer used against JENT_DISABLE_INTERNAL_TIMER");
		if (!tried && !ec && scripted && !fault_fired) vf_fail("alloc-refused", "allocation on the platform timer refused (flags 0x%x)", f);
	} else if (must_internal) {
		forced = 1;
		if (one && ec) vf_fail("alloc-one-cpu", "instance on the internal timer with fewer than two processors");
		if (ec && uses_internal(ec) == 0) vf_fail("not-internal", "instance reports that it does not use the forced internal timer");
		if (!bad_len && fault_fired && ec) vf_fail("alloc-despite-fault", "instance created although its timer could not be set up or started");
		if (!bad_len && !fault_fired && !one && !ec && scripted) vf_fail("alloc-refused", "allocation on a good internal timer refused (flags 0x%x)", f);
	}
	if (kind < 7) forced = 1;
	if (ec) selftest_ok = 1;
	I[k].ec = ec; I[k].compliance = compl;
	I[k].internal = ec ? uses_internal(ec) == 1 : 0;
	end();
	if (!ec && fault_fired && bad_len) vf_count("allocs_failed_by_timer_during_startup", nread_call > 0);
	if (ec) vf_count("instances", 1);
	if (ec && bad_len) vf_count("instances_despite_disturbance", 1);
	vf_state(vf_mix(vf_mix(2, (uint64_t)kind), (uint64_t)((ec != NULL) * 8 + (fault_fired != 0) * 2 + one + (bad_len != 0) * 4)));
	if (one) env_pick(1);
}
static void op_read(int k)
{
	unsigned char b[160], pat = (unsigned char)vf_rnd();
	size_t len = vf_chance(1, 8) ? 0 : (size_t)vf_range(1, 100), i;
	int safe = vf_chance(1, 2), persist;
	ssize_t r;
	begin(safe ? "read_safe" : "read");
	memset(b, pat, sizeof(b));
	if (vf_chance(1, 4)) plan_fault(1, safe ? 5 : 1);
	if (vf_chance(1, 3)) plan_bad();
	if (vf_chance(1, 10)) env_pick((int)vf_below(2));
	persist = fail_persist;
	must_internal = I[k].internal;
	r = safe ? jent_read_entropy_safe(&I[k].ec, (char *)b + 8, len) : jent_read_entropy(I[k].ec, (char *)b + 8, len);
	for (i = 0; i < sizeof(b); i++)
		if ((i < 8 || i >= 8 + len) && b[i] != pat) vf_fail("overrun", "byte %zd outside the buffer written", (ssize_t)i - 8);
	if (I[k].dead) {	/* refused for the failed self test, and the timer brought up for the call is gone again */
		if (len && r != JENT_ERR_SELFTEST && r != JENT_ERR_NOTIME) vf_fail("read-after-failed-self-test", "read of %zu returned %zd after a bound self test had failed", len, r);
		for (i = 0; len && i < len; i++) if (b[8 + i] != pat) vf_fail("data-after-failed-self-test", "data written after a bound self test had failed");
		if (!I[k].ec) vf_fail("handle-lost", "read_safe lost the instance");
		end();
		vf_count("reads_after_failed_self_test", 1);
		env_pick(1);
		return;
	}
	if (!I[k].ec) vf_fail("handle-lost", "read_safe lost the instance");
	if (r >= 0 && (size_t)r != len) vf_fail("short-read", "read of %zu returned %zd", len, r);
	if (!safe && I[k].internal && fault_fired) {
		if (r != JENT_ERR_NOTIME) vf_fail("read-despite-fault", "read returned %zd although the timer could not be started", r);
		for (i = 0; i < len; i++) if (b[8 + i] != pat) vf_fail("read-data-without-timer", "data written although the timer could not be started");
	}
	if (safe && I[k].internal && len && (fail_start_at == 1 || fail_create_at == 1 || fail_attr_at == 1) && r != JENT_ERR_NOTIME)
		vf_fail("read-despite-fault", "self-recovering read returned %zd although the timer could not be started", r);
	if (!fault_fired && !bad_len && !I[k].compliance && r < 0 ) vf_fail("read-refused", "plain read on a running timer returned %zd", r);
	if (r == JENT_ERR_NOTIME && !fault_fired) vf_fail("notime-without-cause", "read reports no timer although it could be started");
	if (I[k].internal && (scripted || len) && r == (ssize_t)len && len && starts == 0) vf_fail("no-timer", "data without any timer thread");
	if (uses_internal(I[k].ec) != I[k].internal) vf_fail("timer-changed", "an instance changed its time source over a read");
	end();
	vf_count(r >= 0 ? "reads_ok" : "reads_failed", 1);
	vf_state(vf_mix(vf_mix(3, (uint64_t)safe), (uint64_t)((r < 0 ? -r : 20) * 8 + (fault_fired != 0) * 2 + persist)));
	env_pick(1);
}
static void op_selftest(int k)
{
	begin("selftest");
	kat_fail = 1;
	if (!jent_selftest(I[k].ec)) vf_fail("selftest", "a self test whose known answers do not come out reports success");
	kat_fail = 0;
	I[k].dead = 1;
	end();
}
static void op_free(int k)
{
	begin("free");
	I[k].dead = 0;
	jent_entropy_collector_free(I[k].ec);
	I[k].ec = NULL;
	end();
}
static void run(void)
{
	int n, i, k;
	scripted = !strcmp(vf_profile, "life");
	builtin = vf_chance(1, 2);
	delegating = vf_chance(1, 3);
	vf_rng_seed(&tr, vf_seed, vf_idx + 99);
	now = vf_rnd() >> 8; plat = vf_rnd() >> 8;
	jent_set_mock_timer(mock, NULL);
	if (!builtin && jent_entropy_switch_notime_impl(&custom)) vf_fail("switch-refused", "replacement implementation refused before any initialisation");
	if (vf_chance(1, 3)) {
		configured = scripted ? (long)(vf_chance(1, 2) ? vf_below(8) : vf_chance(1, 2) ? vf_below(70000) : vf_chance(1, 2) ? 1023 + vf_below(3) : 65534 + vf_below(4)) : (long)vf_below(4);
		if (jent_entropy_set_notime_cpu((unsigned long)configured)) vf_fail("cpu-refused", "processor choice refused before any initialisation");
	}
	env_pick(1);
	vf_describe("builtin=%d delegating=%d configured=%ld env=%d highest=%ld", builtin, delegating, configured, env_kind, env_highest());
	n = (int)vf_range(4, vf_thorough ? 24 : 12);
	if (!scripted) n = 6;
	for (i = 0; i < n; i++) {
		k = (int)vf_below(NI);
		if (vf_chance(1, 8)) op_init();
		else if (!I[k].ec) op_alloc(k);
		else if (vf_chance(1, 6)) op_free(k);
		else if (!I[k].dead && vf_chance(1, 10)) op_selftest(k);
		else op_read(k);
	}
	for (k = 0; k < NI; k++) if (I[k].ec) op_free(k);
	settle_tasks();
	if (nmaps) vf_fail("mapping-leak", "%d mappings of the library left after everything was released", nmaps);
	if (!builtin && live_ctx()) vf_fail("timer-leak", "%d timers never shut down", live_ctx());
	vf_count("timer_starts", starts); vf_count("timer_joins", joins); vf_count("ctx_init", initc);
	vf_count("pins", pins_seen); vf_count("timed_reads", reads_timed);
	if (vf_idx < 3) vf_sample("builtin=%d starts=%lu joins=%lu inits=%lu pins=%lu calls=%d configured=%ld", builtin, starts, joins, initc, pins_seen, opseq, configured);
}
int main(int argc, char **argv) { return vf_main(argc, argv, run); }
