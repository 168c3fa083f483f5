/* Several threads, each with a scripted time source of its own.
 *  indep:    instances in use at once give exactly what the same calls give one
 *            after another, whatever other threads do meanwhile
 *  first:    first initialisations racing: no instance without a completed
 *            start-up test, none that ignores the common divisor
 *  selftest: a self test bound from another thread silences its instance and
 *            no other
 *  timer:    internal timer threads of several instances
 * Ordering between threads is injected with relaxed atomics only, so that it
 * hides no race from the detector. */
#include "vf.h"
#include "jitterentropy.h"
#include "arch/jitterentropy-arch-timer.h"
#include "json.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>

#define MAXT 8
#define MAXOP 24
#define NI 3
#define RLX __ATOMIC_RELAXED
static const unsigned SMALL = JENT_MAX_MEMSIZE_32kB | JENT_HASHLOOP_1;

struct tls {
	struct vf_rng r; uint64_t now, mul; int disturb; int bad;
	unsigned long callreads, wait_at, ops, hold_at; volatile int *wait_for;
	unsigned cbn; uint64_t cbh;
	int kat_fail, me, watch_div;
	unsigned char *buf; size_t buflen; int *blocks_at;
};
static __thread struct tls T;
static int passed;	/* some attempt with a good timer has taken the readings of a whole start-up test; never reset */
static int first_snap[MAXT + 8]; static unsigned long need_reads;
static int timeouts;

static uint64_t ms(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000 + (uint64_t)t.tv_nsec / 1000000; }
static void await(volatile int *f)
{
	uint64_t e = ms() + 2000;
	while (!__atomic_load_n(f, RLX)) { sched_yield(); if (ms() > e) { __atomic_fetch_add(&timeouts, 1, RLX); return; } }
}
static int blocks(void)
{
	size_t i, n = 0;
	for (i = 0; i < T.buflen; i++) if (T.buf[i] != 0xaa) n = i + 1;
	return (int)((n + 31) / 32);
}
static int passed_by_now(void) { return __atomic_load_n(&passed, __ATOMIC_SEQ_CST); }
static void mock(void *a, uint64_t *o)
{
	(void)a;
	T.callreads++;
	if (T.callreads > 30000000UL) vf_fail("no-end", "a call does not end");
	if (need_reads && T.me >= 0) {
		if (T.callreads == 1) first_snap[T.me] = passed_by_now();
		if (!T.bad && T.callreads >= need_reads) __atomic_store_n(&passed, 1, __ATOMIC_SEQ_CST);
	}
	if (T.wait_for && T.callreads == T.wait_at) {
		volatile int *w = T.wait_for;
		if (T.blocks_at) *T.blocks_at = blocks();
		__atomic_store_n((int *)w + 1, 1, RLX);
		await(w);
	}
	if (T.bad) T.now += 512 * T.mul;
	else if (T.disturb) { T.disturb--; T.now += 512 * T.mul; }
	else T.now += (20 + vf_rng_next(&T.r) % (1u << 18)) * T.mul;
	*o = T.now;
}
static void cb(struct rand_data *ec, unsigned m) { (void)ec; T.cbn++; T.cbh = vf_mix(T.cbh, m); T.disturb = 0; }
/* Stretches the windows around the process-wide flags: a thread pauses for a moment just after looking at
 * one, or just before or after changing one. Sleeping orders nothing, so the race detector is not misled. */
static __thread unsigned pauses; static __thread struct vf_rng pr; static int pausing; static unsigned long npauses;
static void pause_here(void)
{
	uint64_t r;
	if (++T.ops == T.hold_at && T.wait_for) { __atomic_store_n((int *)T.wait_for + 1, 1, RLX); await(T.wait_for); return; }
	if (!pausing || pauses >= 24) return;
	if (!pauses) vf_rng_seed(&pr, vf_seed ^ (uint64_t)(T.me + 77), vf_idx);
	r = vf_rng_next(&pr);
	if (!(r & 3)) { pauses++; __atomic_fetch_add(&npauses, 1, RLX); usleep((useconds_t)(r >> 8) % (r & 4 ? 4000 : 300)); }
}
int __real_jent_atomic_load_int(int *) __attribute__((weak)); int __wrap_jent_atomic_load_int(int *p);
int __wrap_jent_atomic_load_int(int *p) { int v = __real_jent_atomic_load_int(p); pause_here(); return v; }
void __real_jent_atomic_store_int(int *, int) __attribute__((weak)); void __wrap_jent_atomic_store_int(int *p, int v);
void __wrap_jent_atomic_store_int(int *p, int v) { pause_here(); __real_jent_atomic_store_int(p, v); pause_here(); }
int __real_jent_atomic_cmpxchg_int(int *, int, int) __attribute__((weak)); int __wrap_jent_atomic_cmpxchg_int(int *p, int o, int v);
int __wrap_jent_atomic_cmpxchg_int(int *p, int o, int v) { pause_here(); o = __real_jent_atomic_cmpxchg_int(p, o, v); pause_here(); return o; }
int __real_jent_atomic_exchange_int(int *, int) __attribute__((weak)); int __wrap_jent_atomic_exchange_int(int *p, int v);
int __wrap_jent_atomic_exchange_int(int *p, int v) { int o; pause_here(); o = __real_jent_atomic_exchange_int(p, v); pause_here(); return o; }
uint32_t __real_jent_atomic_load_u32(uint32_t *) __attribute__((weak)); uint32_t __wrap_jent_atomic_load_u32(uint32_t *p);
uint32_t __wrap_jent_atomic_load_u32(uint32_t *p) { uint32_t v = __real_jent_atomic_load_u32(p); pause_here(); return v; }
void __real_jent_atomic_store_u32(uint32_t *, uint32_t) __attribute__((weak)); void __wrap_jent_atomic_store_u32(uint32_t *p, uint32_t v);
void __wrap_jent_atomic_store_u32(uint32_t *p, uint32_t v) { pause_here(); __real_jent_atomic_store_u32(p, v); pause_here(); }

int __real_jent_sha3_tester(void);
int __wrap_jent_sha3_tester(void) { int r = __real_jent_sha3_tester(); return T.kat_fail ? 1 : r; }
int __real_mlock(const void *, size_t);
int __wrap_mlock(const void *a, size_t n) { (void)a; (void)n; return 0; }
int __real_jent_fips_enabled(void);
int __wrap_jent_fips_enabled(void) { return 0; }
static unsigned long divided;
struct jent_sha_ctx;
void __real_jent_sha3_update(struct jent_sha_ctx *c, const uint8_t *in, size_t n);
void __wrap_jent_sha3_update(struct jent_sha_ctx *c, const uint8_t *in, size_t n)
{
	if (T.watch_div && n == 136) {
		uint64_t d; memcpy(&d, in, 8);
		if (d >= (1u << 24) && d < (1ULL << 56)) vf_fail("divisor-ignored", "delta %llu entered the pool, the common divisor %llu of all time stamps was not removed", (unsigned long long)d, (unsigned long long)T.mul);
		__atomic_fetch_add(&divided, 1, RLX);
	}
	__real_jent_sha3_update(c, in, n);
}
/* ---- status without the identifier ---- */
struct sf { uint64_t h; char uuid[64]; };
static void scb(void *a, const char *path, char t, const char *v)
{
	struct sf *s = a; const char *p;
	(void)t;
	if (strcasestr(path, "uuid")) { snprintf(s->uuid, sizeof(s->uuid), "%s", v); return; }
	for (p = path; *p; p++) s->h = vf_mix(s->h, (uint64_t)*p);
	for (p = v; *p; p++) s->h = vf_mix(s->h, (uint64_t)*p);
}
static uint64_t status(struct rand_data *ec, char *uuid)
{
	char d[8192]; struct sf s; memset(&s, 0, sizeof(s));
	if (jent_status(ec, d, sizeof(d)) || js_parse(d, scb, &s)) vf_fail("status", "no well-formed status");
	if (uuid) memcpy(uuid, s.uuid, 64);
	return s.h;
}
static uint64_t hashbuf(const unsigned char *b, size_t n) { uint64_t h = n; size_t i; for (i = 0; i < n; i++) h = vf_mix(h, b[i]); return h; }

/* ---- indep ---- */
enum { O_ALLOC, O_READ, O_SAFE, O_PINNED, O_STATUS, O_SELF, O_INIT, O_FREE, NOPS };
static const char *opname[NOPS] = { "alloc", "read", "safe read", "read of a shared instance", "status", "self test", "init", "free" };
struct op { int type, slot; unsigned flags, osr; size_t len; int disturb; unsigned dat; uint64_t seed; };
struct rec { long ret; uint64_t h, sh, cbh; unsigned cbn; unsigned long reads; char uuid[64]; };
static struct op ops[MAXT][MAXOP]; static int nops[MAXT];
static struct rec R[2][MAXT][MAXOP];
static struct rand_data *pinned[2][MAXT];
static int nthr, phase, stopping;
static pthread_barrier_t bar;
static uint64_t common_mul;

static void tstart(int me, uint64_t seed) { memset(&T, 0, sizeof(T)); T.me = me; T.mul = common_mul; vf_rng_seed(&T.r, seed, 5); T.now = (1ULL << 30) * T.mul; }
#define KEEP (~0ULL)
static void opstart(uint64_t seed, uint64_t base) { vf_rng_seed(&T.r, seed, 9); if (base != KEEP) T.now = ((1ULL << 30) + (base << 34)) * T.mul; T.callreads = 0; T.disturb = 0; T.cbn = 0; T.cbh = 1; T.wait_for = NULL; }
static void do_op(struct rand_data **I, int t, int k, struct rec *r)
{
	struct op *o = &ops[t][k]; unsigned char b[200];
	struct rand_data **ec = &I[o->slot], *pe;
	memset(b, 0xaa, sizeof(b)); memset(r, 0, sizeof(*r));
	opstart(o->seed, (uint64_t)k + 1);
	switch (o->type) {
	case O_ALLOC:
		if (*ec) jent_entropy_collector_free(*ec);
		*ec = jent_entropy_collector_alloc(o->osr, o->flags);
		r->ret = *ec != NULL;
		if (*ec) r->sh = status(*ec, r->uuid);
		break;
	case O_READ: case O_SAFE: case O_PINNED:
		pe = o->type == O_PINNED ? pinned[phase][t] : *ec;
		if (!pe) break;
		T.disturb = o->disturb;
		if (o->type == O_SAFE) { r->ret = jent_read_entropy_safe(&pe, (char *)b, o->len); *ec = pe; }
		else r->ret = jent_read_entropy(pe, (char *)b, o->len);
		T.disturb = 0;
		if (r->ret == 0 && o->len) vf_fail("read", "read of %zu returned 0", o->len);
		r->sh = status(pe, r->uuid);
		break;
	case O_STATUS: r->sh = status(*ec, r->uuid); break;
	case O_SELF: r->ret = jent_selftest(*ec); break;
	case O_INIT: r->ret = jent_entropy_init_ex(o->osr, o->flags); break;
	case O_FREE: jent_entropy_collector_free(*ec); *ec = NULL; break;
	}
	r->h = hashbuf(b, sizeof(b)); r->reads = T.callreads; r->cbn = T.cbn; r->cbh = T.cbh;
	if (phase == 0 && (o->dat & 3) == 0) sched_yield();
}
static void script(int t)
{
	struct rand_data *I[NI] = { NULL }; int k;
	tstart(t, vf_idx * 64 + (uint64_t)t);
	for (k = 0; k < nops[t]; k++) do_op(I, t, k, &R[phase][t][k]);
	for (k = 0; k < NI; k++) jent_entropy_collector_free(I[k]);
}
static void *worker(void *a) { int t = (int)(intptr_t)a; pthread_barrier_wait(&bar); script(t); return NULL; }
static unsigned long noise_ops[2];
static int nnoise;
static char noise_uuid[2][400][64]; static int nnu[2];
static void *noise(void *a)
{
	int me = (int)(intptr_t)a; struct vf_rng r; int n = 0;
	tstart(-1, vf_idx * 64 + 40 + (uint64_t)me);
	vf_rng_seed(&r, vf_seed, vf_idx * 7 + (uint64_t)me + 1000);
	pthread_barrier_wait(&bar);
	while (!__atomic_load_n(&stopping, RLX)) {
		unsigned x = (unsigned)(vf_rng_next(&r) % 12); int i;
		opstart(vf_rng_next(&r), (uint64_t)++n);
		if (x < 2) { if (jent_entropy_init_ex((unsigned)(vf_rng_next(&r) % 5), SMALL | (vf_rng_next(&r) & 1 ? JENT_FORCE_FIPS : 0))) vf_fail("init", "initialisation with a good timer failed among other threads"); }
		else if (x < 3) { if (jent_entropy_init()) vf_fail("init", "initialisation with a good timer failed among other threads"); }
		else if (x < 5) { if (jent_selftest(NULL)) vf_fail("selftest", "self test failed among other threads"); }
		else if (x < 7) { char d[8192]; if (jent_status(NULL, d, sizeof(d))) vf_fail("status", "status of the library failed"); }
		else if (x < 8) { if (jent_set_fips_failure_callback(NULL) != -EAGAIN || jent_entropy_set_notime_cpu(1) != -EAGAIN || jent_entropy_switch_notime_impl(&(struct jent_notime_thread){ 0 }) >= 0) vf_fail("late-setter", "configuration accepted while in use"); }
		else if (x < 10) { int p = (int)(vf_rng_next(&r) % (unsigned)nthr); if (pinned[0][p] && jent_selftest(pinned[0][p])) vf_fail("selftest", "self test failed among other threads"); }
		else if (x < 11) {
			char u[37]; struct rand_data *ec = jent_entropy_collector_alloc(0, SMALL | JENT_DISABLE_INTERNAL_TIMER); unsigned char b[40];
			if (!ec) vf_fail("alloc", "allocation with a good timer failed among other threads");
			if (jent_read_entropy(ec, (char *)b, sizeof(b)) != sizeof(b)) vf_fail("read", "read failed");
			status(ec, u); i = nnu[me]; if (i < 400) { memcpy(noise_uuid[me][i], u, 37); nnu[me]++; }
			jent_entropy_collector_free(ec);
		} else (void)jent_version();
		noise_ops[me]++;
	}
	return NULL;
}
static unsigned rflags(void)
{
	unsigned f = SMALL;
	switch (vf_below(6)) {
	case 0: case 1: f |= JENT_FORCE_FIPS; break;
	case 2: f |= JENT_NTG1; break;
	case 3: f = JENT_DISABLE_MEMORY_ACCESS | JENT_HASHLOOP_1; break;
	default: break;
	}
	if (vf_chance(1, 4)) f |= JENT_DISABLE_INTERNAL_TIMER;
	if (vf_chance(1, 5)) f = (f & ~JENT_HASHLOOP_1) | JENT_HASHLOOP_2;
	if (vf_chance(1, 6)) f |= JENT_FORCE_SECURE_MEM;
	return f;
}
static void differ(int t, int k, const char *what, unsigned long long a, unsigned long long b)
{
	struct op *o = &ops[t][k];
	vf_fail("interference", "thread %d, call %d (%s, flags 0x%x osr %u len %zu disturb %d): %s %llx among other threads, %llx alone", t, k, opname[o->type], o->flags, o->osr, o->len, o->disturb, what, a, b);
}
static void indep(void)
{
	pthread_t th[MAXT + 2]; int t, k, n, i, j;
	static char uu[MAXT * MAXOP + 900][64]; int nu = 0;
	common_mul = vf_chance(1, 2) ? 1 : vf_range(2, 1000);
	tstart(-1, 77); jent_set_mock_timer(mock, NULL);
	jent_set_fips_failure_callback(cb);
	if (jent_entropy_init_ex(0, SMALL)) vf_fail("init", "initialisation with a good timer failed");
	nthr = (int)vf_range(2, 5); nnoise = (int)vf_below(3);
	vf_describe("%d threads, %d others; ", nthr, nnoise);
	for (t = 0; t < nthr; t++) {
		nops[t] = (int)vf_range(6, MAXOP);
		for (k = 0; k < nops[t]; k++) {
			struct op *o = &ops[t][k];
			static const int mix[] = { O_ALLOC, O_ALLOC, O_ALLOC, O_READ, O_READ, O_READ, O_READ, O_SAFE, O_SAFE, O_SAFE, O_PINNED, O_PINNED, O_PINNED, O_STATUS, O_SELF, O_INIT, O_FREE };
			o->type = k < 2 ? O_ALLOC : mix[vf_below(sizeof(mix) / sizeof(mix[0]))];
			o->slot = k < 2 ? k : (int)vf_below(NI); o->flags = rflags(); o->osr = (unsigned)vf_below(6);
			o->len = vf_chance(1, 10) ? 0 : (size_t)vf_range(1, 150);
			o->disturb = vf_chance(1, 2) ? (int)vf_range(20, o->type == O_SAFE ? 3000 : 900) : 0;
			o->seed = vf_rnd(); o->dat = (unsigned)vf_rnd();
		}
	}
	for (phase = 0; phase < 2; phase++) {
		for (t = 0; t < nthr; t++) {
			struct vf_rng q; unsigned f; vf_rng_seed(&q, vf_seed, vf_idx * 31 + (uint64_t)t);
			f = vf_rng_next(&q) & 1 ? SMALL | JENT_FORCE_FIPS : SMALL;
			opstart(vf_rng_next(&q), 0);
			pinned[phase][t] = jent_entropy_collector_alloc(3, f);
			if (!pinned[phase][t]) vf_fail("alloc", "allocation with a good timer failed");
		}
		if (phase == 0) {
			pthread_barrier_init(&bar, NULL, (unsigned)(nthr + nnoise));
			for (t = 0; t < nthr; t++) pthread_create(&th[t], NULL, worker, (void *)(intptr_t)t);
			for (t = 0; t < nnoise; t++) pthread_create(&th[nthr + t], NULL, noise, (void *)(intptr_t)t);
			for (t = 0; t < nthr; t++) pthread_join(th[t], NULL);
			__atomic_store_n(&stopping, 1, RLX);
			for (t = 0; t < nnoise; t++) pthread_join(th[nthr + t], NULL);
		} else for (t = 0; t < nthr; t++) script(t);
		tstart(-1, 78);
	}
	for (phase = 0; phase < 2; phase++) for (t = 0; t < nthr; t++) jent_entropy_collector_free(pinned[phase][t]);
	for (t = 0; t < nthr; t++) for (k = 0; k < nops[t]; k++) {
		struct rec *a = &R[0][t][k], *b = &R[1][t][k]; uint64_t fp;
		if (a->ret != b->ret) differ(t, k, "result", (unsigned long long)a->ret, (unsigned long long)b->ret);
		if (a->h != b->h) differ(t, k, "bytes", a->h, b->h);
		if (a->sh != b->sh) differ(t, k, "status", a->sh, b->sh);
		if (a->cbn != b->cbn || a->cbh != b->cbh) differ(t, k, "callback reports", a->cbn, b->cbn);
		if (a->reads != b->reads) differ(t, k, "number of time readings", a->reads, b->reads);
		vf_count("calls_compared", 1);
		if (a->ret < 0) vf_count("failing_reads_compared", 1);
		if (ops[t][k].type == O_SAFE && a->cbn && a->ret > 0) vf_count("recoveries_compared", 1);
		fp = vf_mix((uint64_t)ops[t][k].type * 64 + ops[t][k].osr, (uint64_t)a->ret); vf_state(vf_mix(fp, ops[t][k].flags));
		if (ops[t][k].type == O_ALLOC && a->ret) {
			memcpy(uu[nu++], a->uuid, 64); memcpy(uu[nu++], b->uuid, 64);
		}
	}
	for (i = 0; i < nnoise; i++) { for (j = 0; j < nnu[i] && nu < MAXT * MAXOP + 890; j++) memcpy(uu[nu++], noise_uuid[i][j], 64); vf_count("other_calls", noise_ops[i]); }
	for (i = 0; i < nu; i++) for (j = i + 1; j < nu; j++) if (!strcmp(uu[i], uu[j]) && strncmp(uu[i], "00000000", 8)) vf_fail("identifier-twice", "identifier %s given to two instances", uu[i]);
	vf_count("identifiers", (uint64_t)nu);
	n = 0; for (t = 0; t < nthr; t++) n += nops[t];
	vf_sample("%d threads and %d others, %d calls compared with the same calls one after another, %d identifiers", nthr, nnoise, n, nu);
}
/* ---- first ---- */
struct fst { int init_first, bad, compl; unsigned osr, flags; unsigned long wait_at, hold_at; int wait_thread; int delay; uint64_t seed; } F[MAXT];
static int done[MAXT][2];	/* finished its first attempt; reached its waiting point */
static struct { int ok, iret, snap; unsigned long areads, ireads, rreads; long rret; uint64_t h; } G[MAXT];
static void *first_thr(void *a)
{
	int t = (int)(intptr_t)a; struct fst *f = &F[t]; struct rand_data *ec; unsigned char b[70];
	tstart(t, f->seed); T.bad = f->bad;
	pthread_barrier_wait(&bar);
	if (f->delay >= 0) { uint64_t e = ms() + 2000; while (!__atomic_load_n(&done[f->delay][1], RLX) && !__atomic_load_n(&done[f->delay][0], RLX)) { sched_yield(); if (ms() > e) { __atomic_fetch_add(&timeouts, 1, RLX); break; } } }
	opstart(f->seed, 1);
	if (f->wait_thread >= 0) { T.wait_at = f->wait_at; T.hold_at = f->hold_at; T.ops = 0; T.wait_for = &done[f->wait_thread][0]; }
	if (f->init_first) {
		G[t].iret = jent_entropy_init_ex(f->osr, f->flags); G[t].ireads = T.callreads;
		opstart(f->seed + 1, KEEP);
	}
	ec = jent_entropy_collector_alloc(f->osr, f->flags);
	G[t].ok = ec != NULL; G[t].areads = T.callreads; G[t].snap = T.callreads ? first_snap[t] : passed_by_now();
	__atomic_store_n(&done[t][0], 1, RLX);
	if (f->wait_thread >= 0) __atomic_store_n(&done[f->wait_thread][1], 1, RLX);
	if (ec) {
		opstart(f->seed + 2, KEEP);
		T.bad = 0; T.watch_div = 1; memset(b, 0xaa, sizeof(b));
		G[t].rret = jent_read_entropy(ec, (char *)b, sizeof(b));
		T.watch_div = 0;
		jent_entropy_collector_free(ec);
	}
	return NULL;
}
struct cal { unsigned long init, alloc[2], ops; };
static void first(void)
{
	struct cal *c = NULL; int p[2], t; pid_t pid; pthread_t th[MAXT]; unsigned base[MAXT]; struct cal C[MAXT];
	common_mul = vf_chance(1, 4) ? 1 : vf_chance(1, 2) ? 1000003 : vf_range(1u << 19, 1u << 24);
	nthr = (int)vf_range(2, 6);
	jent_set_mock_timer(mock, NULL); jent_set_fips_failure_callback(cb);
	for (t = 0; t < nthr; t++) {
		F[t].init_first = vf_chance(1, 3); F[t].bad = vf_chance(1, 5); F[t].osr = vf_chance(1, 3) ? (unsigned)vf_range(3, 8) : 3;
		F[t].compl = F[t].bad || vf_chance(1, 2); F[t].flags = SMALL | (F[t].compl ? JENT_FORCE_FIPS : 0) | JENT_DISABLE_INTERNAL_TIMER;
		F[t].seed = vf_rnd(); F[t].wait_thread = F[t].delay = -1;
	}
	/* what an initialisation and an allocation that needs none take, alone */
	if (pipe(p)) vf_inconclusive("pipe");
	pid = fork();
	if (!pid) {
		for (t = 0; t < nthr; t++) {
			struct rand_data *ec;
			tstart(-1, 1);
			T.ops = 0; opstart(F[t].seed, 1); if (jent_entropy_init_ex(F[t].osr, F[t].flags)) _exit(1);
			C[t].init = T.callreads;
			C[t].ops = T.ops + 6;
			opstart(F[t].seed, 1); ec = jent_entropy_collector_alloc(F[t].osr, F[t].flags); if (!ec) _exit(1);
			C[t].alloc[0] = T.callreads;
			jent_entropy_collector_free(ec);
		}
		if (write(p[1], C, sizeof(C)) != sizeof(C)) _exit(1);
		_exit(0);
	}
	close(p[1]);
	if (read(p[0], C, sizeof(C)) != sizeof(C)) vf_inconclusive("calibration failed");
	(void)c; (void)base;
	need_reads = ~0UL;
	for (t = 0; t < nthr; t++) if (C[t].init * 9 / 10 < need_reads) need_reads = C[t].init * 9 / 10;
	/* an order: one thread pauses inside its attempt until another is done,
	 * which in turn only begins then */
	if (nthr >= 2 && vf_chance(3, 4)) {
		int x = (int)vf_below((uint64_t)nthr), y = (x + 1 + (int)vf_below((uint64_t)nthr - 1)) % nthr;
		F[x].wait_thread = y; F[x].wait_at = vf_chance(1, 4) ? vf_range(1, 200) : vf_range(1, C[x].init); F[y].delay = y;
		if (vf_chance(3, 5)) { F[x].wait_at = 0; F[x].bad = 0; F[x].hold_at = vf_range(1, C[x].ops); }
		vf_describe("%d pauses at %lu/%lu of %lu for %d; ", x, F[x].wait_at, F[x].hold_at, C[x].ops, y);
	}
	for (t = 0; t < nthr; t++) vf_describe("[%d init=%d bad=%d osr=%u f=%x cal=%lu+%lu] ", t, F[t].init_first, F[t].bad, F[t].osr, F[t].flags, C[t].init, C[t].alloc[0]);
	pthread_barrier_init(&bar, NULL, (unsigned)nthr);
	tstart(-1, 2);
	for (t = 0; t < nthr; t++) pthread_create(&th[t], NULL, first_thr, (void *)(intptr_t)t);
	for (t = 0; t < nthr; t++) pthread_join(th[t], NULL);
	for (t = 0; t < nthr; t++) {
		int own_init_ok = F[t].init_first && !F[t].bad && G[t].iret == 0;
		int skipped = G[t].areads < C[t].init * 9 / 10 + (F[t].bad ? 0 : C[t].alloc[0]);
		vf_describe("%d: init %d/%lu alloc %d/%lu snap %d read %ld; ", t, G[t].iret, G[t].ireads, G[t].ok, G[t].areads, G[t].snap, G[t].rret);
		if (!F[t].bad && F[t].init_first && G[t].iret) vf_fail("init", "thread %d: initialisation with a good timer failed with %d among other threads", t, G[t].iret);
		if (F[t].bad && F[t].init_first && !G[t].iret) vf_fail("init-bad", "thread %d: initialisation passed with a constant timer", t);
		if (!F[t].bad && !G[t].ok) vf_fail("alloc", "thread %d: allocation with a good timer failed among other threads", t);
		if (G[t].ok && !own_init_ok && !G[t].snap && (F[t].bad || skipped))
			vf_fail("untested-instance", "thread %d got an instance after %lu time readings (the start-up test alone takes %lu) although no start-up test of the process had passed", t, G[t].areads, C[t].init);
		if (G[t].ok && !F[t].compl && G[t].rret != 70) vf_fail("read", "thread %d: read returned %ld", t, G[t].rret);
		if (G[t].ok) vf_count(skipped ? "instances_after_a_passed_test" : "instances_with_own_test", 1); else vf_count("refused", 1);
		vf_state(vf_mix((uint64_t)t * 64 + (uint64_t)skipped * 8 + (uint64_t)G[t].snap * 4 + (uint64_t)G[t].ok, F[t].flags + F[t].osr));
	}
	vf_count("racing_threads", (uint64_t)nthr); vf_count("divided_deltas", divided);
	vf_count("order_timeouts", (uint64_t)timeouts);
	if (!timeouts) vf_count("orders_forced", 1);
	vf_sample("%d threads racing the first start-up, divisor %llu, %lu divided deltas seen", nthr, (unsigned long long)common_mul, divided);
}
/* ---- selftest ---- */
static struct rand_data *vic; static int flagst[2]; static int at_blocks; static int waiting;
static void *failer(void *a)
{
	uint64_t e = ms() + 4000; int r;
	(void)a;
	tstart(-1, 900);
	while (!__atomic_load_n(&flagst[1], RLX)) { sched_yield(); if (ms() > e) break; }
	T.kat_fail = 1;
	r = jent_selftest(vic);
	if (!r) vf_fail("selftest", "failing self test returned 0");
	__atomic_store_n(&flagst[0], 1, RLX);
	return NULL;
}
static int passer_stop;
static void *passer(void *a) { unsigned long n = 0; tstart(-1, 901); while (!__atomic_load_n(&passer_stop, RLX)) { if (jent_selftest(n & 1 ? vic : NULL)) vf_fail("selftest", "self test failed among other threads"); n++; if (!a) sched_yield(); } return NULL; }
static struct rand_data *bystander; static uint64_t bh[2][4]; static long br[2][4];
static void byst(int ph) { int i; unsigned char b[100]; tstart(-1, 55); for (i = 0; i < 4; i++) { memset(b, 0xaa, 100); opstart(vf_idx * 8 + (uint64_t)i, (uint64_t)i + 1); br[ph][i] = jent_read_entropy(bystander, (char *)b, (size_t)(20 + i * 20)); bh[ph][i] = hashbuf(b, 100); } }
static void *bystander_thr(void *a) { (void)a; byst(0); return NULL; }
static void selft(void)
{
	unsigned f = SMALL | (vf_chance(1, 2) ? JENT_FORCE_FIPS : vf_chance(1, 3) ? JENT_NTG1 : 0), bf = SMALL | (vf_chance(1, 2) ? JENT_FORCE_FIPS : 0);
	unsigned char b[200]; size_t len = (size_t)vf_range(1, 200); int safe = vf_chance(1, 3), i, total; ssize_t n; pthread_t a, p, q; int pass = vf_chance(1, 2);
	unsigned long per;
	common_mul = 1; tstart(-1, 3); jent_set_mock_timer(mock, NULL); jent_set_fips_failure_callback(cb);
	if (jent_entropy_init_ex(3, SMALL)) vf_fail("init", "initialisation failed");
	vic = jent_entropy_collector_alloc(3, f); opstart(5, 0); bystander = jent_entropy_collector_alloc(3, bf);
	if (!vic || !bystander) vf_fail("alloc", "allocation failed");
	opstart(6, 1); if (jent_read_entropy(vic, (char *)b, 32) != 32) vf_fail("read", "read failed");
	per = T.callreads;
	total = (int)((len + 31) / 32);
	memset(b, 0xaa, sizeof(b));
	pthread_create(&a, NULL, failer, NULL);
	pthread_create(&q, NULL, bystander_thr, NULL);
	if (pass) pthread_create(&p, NULL, passer, NULL);
	opstart(vf_rnd(), 2);
	T.wait_at = vf_range(1, per * (unsigned long)total); T.wait_for = &flagst[0]; T.buf = b; T.buflen = sizeof(b); T.blocks_at = &at_blocks; waiting = 1;
	at_blocks = -1;
	n = safe ? jent_read_entropy_safe(&vic, (char *)b, len) : jent_read_entropy(vic, (char *)b, len);
	i = blocks();
	T.wait_for = NULL;
	pthread_join(a, NULL); pthread_join(q, NULL);
	if (pass) { __atomic_store_n(&passer_stop, 1, RLX); pthread_join(p, NULL); }
	vf_describe("f=%x len=%zu safe=%d pause at %lu (block %d of %d) -> %zd, %d blocks; ", f, len, safe, T.wait_at, at_blocks, total, n, i);
	if (at_blocks >= 0 && !timeouts) {
		if (at_blocks + 1 < total && n != JENT_ERR_SELFTEST) vf_fail("not-silenced", "self test failed while block %d of %d was collected, the read returned %zd", at_blocks + 1, total, n);
		if (i > at_blocks + 1) vf_fail("not-silenced", "self test failed while block %d was collected, %d blocks delivered", at_blocks + 1, i);
		if (n != (ssize_t)len && n != JENT_ERR_SELFTEST) vf_fail("read", "read returned %zd", n);
		vf_count("self_test_failures_in_flight", 1);
	} else if (n != (ssize_t)len && n != JENT_ERR_SELFTEST) vf_fail("read", "read returned %zd", n);
	for (i = 0; i < 3; i++) {
		memset(b, 0xaa, sizeof(b)); opstart((uint64_t)i, 5 + (uint64_t)i);
		n = i & 1 ? jent_read_entropy_safe(&vic, (char *)b, 40) : jent_read_entropy(vic, (char *)b, 40);
		if (n != JENT_ERR_SELFTEST || b[0] != 0xaa || b[20] != 0xaa) vf_fail("not-silenced", "read after a failed self test returned %zd", n);
		if (i == 1) (void)jent_selftest(vic);
	}
	jent_entropy_collector_free(bystander); opstart(5, 0); bystander = jent_entropy_collector_alloc(3, bf); byst(1);
	for (i = 0; i < 4; i++) if (br[0][i] != br[1][i] || bh[0][i] != bh[1][i]) vf_fail("interference", "read %d of the other instance: %ld among a failing self test, %ld alone", i, br[0][i], br[1][i]);
	jent_entropy_collector_free(vic); jent_entropy_collector_free(bystander);
	vf_state(vf_mix(f, (uint64_t)total * 16 + (uint64_t)at_blocks)); vf_count("reads_after_failure", 3); vf_count("calls_compared", 4);
	vf_sample("f=0x%x, self test failing in block %d of %d", f, at_blocks, total);
}
/* ---- timer ---- */
static int tok[MAXT], tnull[MAXT];
static void *timer_thr(void *a)
{
	int t = (int)(intptr_t)a, i; struct rand_data *ec; unsigned char b[64]; ssize_t n;
	tstart(-1, (uint64_t)t + 600);
	pthread_barrier_wait(&bar);
	opstart((uint64_t)t, 1);
	ec = jent_entropy_collector_alloc(3, SMALL | (t & 1 ? JENT_FORCE_INTERNAL_TIMER : 0));
	if (!ec) { tnull[t]++; return NULL; }
	for (i = 0; i < 2; i++) {
		opstart((uint64_t)t, 2 + (uint64_t)i);
		n = i ? jent_read_entropy_safe(&ec, (char *)b, 33) : jent_read_entropy(ec, (char *)b, 33);
		if (n != 33 && !(n <= -1 && n >= -11)) vf_fail("read", "read returned %zd", n);
		if (n == 33) tok[t]++;
	}
	jent_entropy_collector_free(ec);
	return NULL;
}
static void timerp(void)
{
	pthread_t th[MAXT]; int t;
	common_mul = 1; tstart(-1, 3); jent_set_mock_timer(mock, NULL);
	if (jent_entropy_init_ex(3, SMALL)) vf_fail("init", "initialisation failed");
	nthr = (int)vf_range(2, 4);
	pthread_barrier_init(&bar, NULL, (unsigned)nthr);
	for (t = 0; t < nthr; t++) pthread_create(&th[t], NULL, timer_thr, (void *)(intptr_t)t);
	for (t = 0; t < nthr; t++) pthread_join(th[t], NULL);
	for (t = 0; t < nthr; t++) { vf_count("timer_reads", (uint64_t)tok[t]); vf_count("timer_refused", (uint64_t)tnull[t]); }
	vf_state((uint64_t)nthr);
}
static void run(void)
{
	pausing = vf_chance(1, 2);
	if (!strcmp(vf_profile, "first")) first();
	else if (!strcmp(vf_profile, "selftest")) selft();
	else if (!strcmp(vf_profile, "timer")) timerp();
	else indep();
	vf_count("pauses_at_flags", npauses);
}
int main(int argc, char **argv) { return vf_main(argc, argv, run); }
