/* Process-wide configuration window: callback, timer implementation and timer
 * processor set, refused and used over every order of configuration calls,
 * initialisations, allocations and reads. The monitor is an automaton over the
 * results of the setters plus the observed effect: which callback is told,
 * which implementation is started, which processor is asked for. */
#include "vf.h"
#include "jitterentropy.h"
#include "arch/jitterentropy-arch-timer.h"
#include "json.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

enum { OPEN, UNSURE, CLOSED };
static int win = OPEN;
static const char *curop = "none";
/* ---- time ---- */
static uint64_t now; static struct vf_rng tr; static int disturb; static unsigned long reads_;
static int probe_in_call, in_probe; static unsigned long probe_at, callreads;
static void setters(int inflight);
static uint64_t tick(void)
{
	callreads++; reads_++;
	if (callreads > 30000000UL) vf_fail("no-end", "%s does not end", curop);
	if (probe_in_call && !in_probe && callreads == probe_at) { in_probe = 1; setters(1); in_probe = 0; }
	if (disturb) { disturb--; now += 512; } else now += 20 + vf_rng_next(&tr) % 6000;
	return now;
}
static void mock(void *a, uint64_t *o) { (void)a; *o = tick(); }
/* ---- callbacks ---- */
#define NCB 3
static struct { unsigned long n; struct rand_data *ec; unsigned mask; } cbl[NCB];
static int reg_cb = -1;
static int stop_disturb;
static void hit(int i, struct rand_data *ec, unsigned m)
{
	cbl[i].n++; cbl[i].ec = ec; cbl[i].mask = m;
	if (!m) vf_fail("callback-no-failure", "callback told of no failure during %s", curop);
	if (stop_disturb) disturb = 0;
	if (i != reg_cb) vf_fail("callback-not-registered", "callback %d called during %s, registered is %d", i, curop, reg_cb);
}
static void cb0(struct rand_data *ec, unsigned m) { hit(0, ec, m); }
static void cb1(struct rand_data *ec, unsigned m) { hit(1, ec, m); }
static void cb2(struct rand_data *ec, unsigned m) { hit(2, ec, m); }
static const jent_fips_failure_cb cbs[NCB] = { cb0, cb1, cb2 };
static unsigned long cbtotal(void) { return cbl[0].n + cbl[1].n + cbl[2].n; }
/* ---- timer implementations ---- */
static int reg_impl = 0;	/* 0 built in, 1.. replacements */
static int running; static unsigned long starts[4];
static void used(int i) { starts[i]++; if (i != reg_impl) vf_fail("timer-not-registered", "implementation %d started during %s, registered is %d", i, curop, reg_impl); }
#define IMPL(k) \
static int i##k##_init(void **c) { *c = malloc(8); used(k); return 0; } \
static void i##k##_fini(void *c) { free(c); } \
static int i##k##_start(void *c, void *(*f)(void *), void *a) { (void)c; (void)f; (void)a; used(k); running++; return 0; } \
static void i##k##_stop(void *c) { (void)c; if (running > 0) running--; } \
static struct jent_notime_thread impl##k = { i##k##_init, i##k##_fini, i##k##_start, i##k##_stop };
IMPL(1) IMPL(2) IMPL(3)
static struct jent_notime_thread *impls[4] = { NULL, &impl1, &impl2, &impl3 };
static long reg_cpu = -1; static unsigned long pins;
int __real_sched_setaffinity(pid_t, size_t, const cpu_set_t *);
int __wrap_sched_setaffinity(pid_t p, size_t sz, const cpu_set_t *m)
{
	long got = -1, n = 0; size_t i;
	(void)p;
	for (i = 0; i < sz * 8; i++) if (CPU_ISSET_S(i, sz, m)) { got = (long)i; n++; }
	pins++;
	if (n != 1) vf_fail("timer-cpu", "timer thread to run on %ld processors", n);
	if (got != (reg_cpu >= 0 ? reg_cpu : 77)) vf_fail("timer-cpu", "timer thread put on processor %ld instead of %ld (%s) during %s", got, reg_cpu >= 0 ? reg_cpu : 77, reg_cpu >= 0 ? "configured" : "highest permitted", curop);
	return 0;
}
int __real_sched_getaffinity(pid_t, size_t, cpu_set_t *);
int __wrap_sched_getaffinity(pid_t p, size_t sz, cpu_set_t *m)
{
	(void)p;
	memset(m, 0, sz); CPU_SET_S(3, sz, m); CPU_SET_S(77, sz, m);
	return 0;
}
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *a) { used(0); running++; return __real_pthread_create(t, at, fn, a); }
int __real_pthread_join(pthread_t, void **);
int __wrap_pthread_join(pthread_t t, void **rv) { if (running > 0) running--; return __real_pthread_join(t, rv); }
void __real_jent_get_nstime_internal(struct rand_data *ec, uint64_t *out);
void __wrap_jent_get_nstime_internal(struct rand_data *ec, uint64_t *out)
{
	if (running) *out = tick(); else __real_jent_get_nstime_internal(ec, out);
}
int __real_mlock(const void *, size_t);
int __wrap_mlock(const void *a, size_t n) { (void)a; (void)n; return 0; }

int __real_jent_sha3_tester(void);
static int kat_fails; static unsigned long kat_failed;
int __wrap_jent_sha3_tester(void) { if (kat_fails) { kat_failed++; return 1; } return __real_jent_sha3_tester(); }

/* ---- setters ---- */
static void judge(const char *what, int r, int bad_arg)
{
	if (win == OPEN) {
		if (!bad_arg && r) vf_fail("refused-early", "%s refused (%d) before any attempt", what, r);
		if (bad_arg && !r) vf_fail("incomplete-accepted", "%s accepted although incomplete", what);
	} else if (win == CLOSED) {
		if (!r) vf_fail("accepted-late", "%s accepted after the first attempt (%s)", what, curop);
		if (!bad_arg && r != -EAGAIN) vf_fail("refusal-code", "%s refused with %d", what, r);
		vf_count("late_refusals", 1);
	} else if (!bad_arg) {
		if (r && r != -EAGAIN) vf_fail("refusal-code", "%s refused with %d", what, r);
		win = r ? CLOSED : OPEN;
	} else if (!r) vf_fail("incomplete-accepted", "%s accepted although incomplete", what);
	vf_count("setter_calls", 1);
	vf_state(vf_mix((uint64_t)win * 8 + (uint64_t)bad_arg, (uint64_t)(unsigned char)what[0] * 256 + (uint64_t)(r == 0)));
}
static void setters(int inflight)
{
	int r, k;
	if (inflight) win = CLOSED;	/* an attempt under way */
	switch (vf_below(4)) {
	case 0: case 1:
		k = vf_chance(1, 8) ? -1 : (int)vf_below(NCB);
		r = jent_set_fips_failure_callback(k < 0 ? NULL : cbs[k]);
		judge("callback", r, 0);
		if (!r) reg_cb = k;
		vf_describe("callback %d=%d; ", k, r);
		break;
	case 2:
		if (vf_chance(1, 3)) {
			struct jent_notime_thread *bad = NULL, *b = malloc(sizeof(*b));
			*b = impl3;
			k = (int)vf_below(5);
			if (k == 0) b->jent_notime_init = NULL; else if (k == 1) b->jent_notime_fini = NULL;
			else if (k == 2) b->jent_notime_start = NULL; else if (k == 3) b->jent_notime_stop = NULL;
			if (k < 4) bad = b;
			r = jent_entropy_switch_notime_impl(bad);
			judge("implementation with a missing part", r, 1);
			vf_describe("incomplete impl %d=%d; ", k, r);
			free(b);
		} else {
			k = (int)vf_range(1, 3);
			r = jent_entropy_switch_notime_impl(impls[k]);
			judge("implementation", r, 0);
			if (!r) reg_impl = k;
			vf_describe("impl %d=%d; ", k, r);
		}
		break;
	case 3:
		k = (int)vf_below(300);
		r = jent_entropy_set_notime_cpu((unsigned long)k);
		judge("processor", r, 0);
		if (!r) reg_cpu = k;
		vf_describe("cpu %d=%d; ", k, r);
		break;
	}
}
/* ---- use ---- */
struct hm { unsigned m; };
static void hcb(void *a, const char *path, char t, const char *v)
{
	struct hm *h = a; unsigned b = 0;
	(void)t;
	if (!strstr(path, "healthFailure")) return;
	if (strstr(path, "rctMemory")) b = 8; else if (strstr(path, "rct")) b = 1; else if (strstr(path, "apt")) b = 2; else if (strstr(path, "lag")) b = 4;
	if (strstr(path, "permanent")) b <<= JENT_PERMANENT_FAILURE_SHIFT;
	if (!strcmp(v, "true")) h->m |= b;
}
static unsigned health(struct rand_data *ec)
{
	static char d[8192]; struct hm h = { 0 };
	if (jent_status(ec, d, sizeof(d)) || js_parse(d, hcb, &h)) vf_fail("status", "no status");
	return h.m;
}
static struct rand_data *E[3]; static int comp[3];
static void begin(const char *op)
{
	curop = op; callreads = 0; probe_in_call = 0; disturb = 0; stop_disturb = 0;
	if (vf_chance(1, 4)) { probe_in_call = 1; probe_at = vf_range(1, 4000); }
}
static void end(void) { kat_fails = 0; probe_in_call = 0; disturb = 0; vf_count("attempts_and_reads", 1); }
static const unsigned SMALL = JENT_MAX_MEMSIZE_32kB | JENT_HASHLOOP_1;
static void attempt(void)
{
	int r, k, contra = 0; unsigned f = SMALL, osr = (unsigned)vf_below(8);
	int bad = vf_chance(1, 4);
	begin("initialisation");
	kat_fails = vf_chance(1, 8);
	if (vf_chance(2, 5)) f |= JENT_FORCE_FIPS;
	else if (vf_chance(1, 5)) f |= JENT_NTG1;
	if (vf_chance(1, 3) && !(f & JENT_NTG1)) f |= JENT_FORCE_INTERNAL_TIMER;
	else if (vf_chance(1, 2)) f |= JENT_DISABLE_INTERNAL_TIMER;
	if (bad) disturb = vf_chance(1, 2) ? 4000000 : (int)vf_range(100, 3000);
	if (vf_chance(1, 2)) {
		if (vf_chance(1, 3)) r = jent_entropy_init(); else r = jent_entropy_init_ex(osr, f);
		win = CLOSED;
		vf_describe("init f=%x bad=%d -> %d; ", f, bad, r);
		end();
		vf_state(vf_mix(f, (uint64_t)r));
		return;
	}
	curop = "allocation";
	if (vf_chance(1, 4)) {	/* contradictory */
		contra = 1; bad = 0; disturb = 0;
		switch (vf_below(3)) {
		case 0: f |= JENT_FORCE_INTERNAL_TIMER | JENT_DISABLE_INTERNAL_TIMER; break;
		case 1: osr = (unsigned)vf_range(21, 100); break;
		case 2: f |= JENT_DISABLE_MEMORY_ACCESS | JENT_FORCE_FIPS; break;
		}
		if (win == OPEN) win = UNSURE;
		probe_in_call = 0;
	}
	if (bad && !(f & (JENT_FORCE_FIPS | JENT_NTG1))) stop_disturb = 1, disturb = (int)vf_range(100, 3000);
	for (k = 0; k < 3 && E[k]; k++) ;
	if (k == 3) { k = (int)vf_below(3); jent_entropy_collector_free(E[k]); E[k] = NULL; }
	E[k] = jent_entropy_collector_alloc(osr, f);
	comp[k] = !!(f & (JENT_FORCE_FIPS | JENT_NTG1));
	if (contra && E[k]) vf_fail("contradictory", "contradictory request accepted, flags 0x%x osr %u", f, osr);
	if (!contra) win = CLOSED;
	vf_describe("alloc f=%x osr=%u bad=%d -> %d; ", f, osr, bad, E[k] != NULL);
	end();
	vf_state(vf_mix(f, (uint64_t)(E[k] != NULL)));
}
static void use(void)
{
	int k = (int)vf_below(3), bad = vf_chance(4, 5); unsigned char b[80]; ssize_t n; size_t len = (size_t)vf_range(1, 80); unsigned long c0; unsigned h;
	if (!E[k]) return;
	begin("read");
	c0 = cbtotal();
	if (bad) disturb = (int)vf_range(60, comp[k] ? 3000 : 2000);
	if (vf_chance(1, 3)) {
		stop_disturb = 1;
		curop = "self-recovering read";
		n = jent_read_entropy_safe(&E[k], (char *)b, len);
		if (!comp[k] && cbtotal() != c0) vf_fail("callback-outside-mode", "callback called for an instance outside the compliance modes");
		end();
		vf_describe("safe=%zd; ", n);
		return;
	}
	n = jent_read_entropy(E[k], (char *)b, len);
	h = health(E[k]);
	vf_describe("read %d bad=%d = %zd h=%x; ", k, bad, n, h);
	if (!comp[k]) {
		if (cbtotal() != c0) vf_fail("callback-outside-mode", "callback called for an instance outside the compliance modes");
		if (n != (ssize_t)len) vf_fail("read", "read outside the compliance modes returned %zd", n);
	} else if (n < 0) {
		if (reg_cb >= 0) {
			if (cbtotal() == c0) vf_fail("callback-missed", "read failed with %zd (mask 0x%x) without telling the callback", n, h);
			if (cbl[reg_cb].ec != E[k]) vf_fail("callback-instance", "callback told of another instance");
			if (cbl[reg_cb].mask != h) vf_fail("callback-mask", "callback told 0x%x, failure is 0x%x", cbl[reg_cb].mask, h);
			vf_count("callbacks_judged", 1);
		}
		vf_count("failed_reads", 1);
	} else if (cbtotal() != c0) vf_fail("callback-no-failure", "callback called although the read succeeded");
	end();
}
static void run(void)
{
	int i, n = (int)vf_range(4, 14);
	vf_rng_seed(&tr, vf_seed, vf_idx + 3);
	now = 1u << 30;
	jent_set_mock_timer(mock, NULL);
	for (i = 0; i < n; i++) {
		unsigned x = (unsigned)vf_below(10);
		if (i < 3 ? x < 7 : x < 3) setters(0);
		else if (x < 6) attempt();
		else use();
	}
	attempt(); setters(0); setters(0); use(); use(); setters(0); use();
	for (i = 0; i < 3; i++) jent_entropy_collector_free(E[i]);
	vf_count("timer_starts_builtin", starts[0]); vf_count("timer_starts_replaced", starts[1] + starts[2] + starts[3]); vf_count("pins", pins);
	vf_count("callback_calls", cbtotal()); vf_count("failed_known_answer_tests", kat_failed);
	vf_sample("registered callback %d, implementation %d, processor %ld; %lu callbacks, %lu pins", reg_cb, reg_impl, reg_cpu, cbtotal(), pins);
}
int main(int argc, char **argv) { return vf_main(argc, argv, run); }
