/* The crypto-library memory and FIPS back ends (libgcrypt, OpenSSL, AWS-LC)
 * and the freestanding one, run against stand-ins that record every block:
 * what kind of memory is asked for, what is in it when it is given back, who
 * holds it. The same scenario must give the same bytes whatever memory it got. */
#include "vf.h"
#include "cshim/cshim.h"
#include "jitterentropy.h"
#include "arch/jitterentropy-arch-timer.h"
#include "json.h"
#include <errno.h>
#include <unistd.h>

#if defined(LIBGCRYPT)
#define NAME "libgcrypt"
#elif defined(OPENSSL)
#define NAME "OpenSSL"
#elif defined(AWSLC)
#define NAME "AWS-LC"
#else
#define NAME "baremetal"
#endif
#if defined(LIBGCRYPT) || defined(OPENSSL)
#define ARENA 1
#else
#define ARENA 0
#endif

/* ---- environment ---- */
static int arena, bypass, fips; static size_t cap, inuse;
static long fail_sec, fail_ord;	/* count down, 0 now, -1 never */
static int demanded; static const char *curop = "none";
static int be_used;	/* something was refused in this call */
int be_arena(void) { return arena; }
int be_fips(void) { return fips; }
/* ---- ledger ---- */
#define NB 4096
#define PAD 64
static struct blk { unsigned char *raw, *p; size_t n; int sec, own; } B[NB]; static int nb; static int cur_own;
static struct blk *find(const void *p) { int i; for (i = 0; i < nb; i++) if (B[i].p == p) return &B[i]; return NULL; }
static void *give(size_t n, int sec, int zero)
{
	struct blk *b = NULL; int i; size_t k;
	for (i = 0; i < nb; i++) if (!B[i].p) b = &B[i];
	if (!b) { if (nb == NB) vf_inconclusive("too many blocks"); b = &B[nb++]; }
	b->raw = (malloc)(n + 2 * PAD);
	if (!b->raw) vf_inconclusive("harness out of memory");
	memset(b->raw, 0xC3, PAD); memset(b->raw + PAD + n, 0xC3, PAD);
	b->p = b->raw + PAD; b->n = n; b->sec = sec; b->own = cur_own;
	if (zero) memset(b->p, 0, n);
	else for (k = 0; k < n; k += 97) { size_t m = n - k < 97 ? n - k : 97; memset(b->p + k, 1 + (int)(k % 251), m); }
	if (sec) inuse += n;
	vf_count(sec ? "secure_blocks" : "ordinary_blocks", 1);
	return b->p;
}
void *be_plain(size_t n, int zero, int fatal)
{
	if (demanded && ARENA) vf_fail("ordinary-under-demand", "%s: %s asks for %zu bytes of ordinary memory although secure memory is demanded", NAME, curop, n);
	if (fail_ord == 0) { be_used = 1; vf_count("ordinary_refused", 1); if (fatal) vf_fail("process-ended", "%s: the out-of-memory handler ends the process during %s", NAME, curop); return NULL; }
	if (fail_ord > 0) fail_ord--;
	return give(n, 0, zero);
}
void *be_secure(size_t n, int zero, int fatal)
{
	int no = !arena || inuse + n > cap || fail_sec == 0;
	if (fail_sec > 0) fail_sec--;
	if (no) {
		vf_count("secure_refused", 1);
		be_used = 1;
		if (!bypass && fatal) vf_fail("process-ended", "%s: the out-of-memory handler ends the process during %s", NAME, curop);
		/* some configurations answer with ordinary memory instead */
		if (bypass) { vf_count("secure_bypassed", 1); return give(n, 0, zero); }
		return NULL;
	}
	return give(n, 1, zero);
}
int be_is_secure(const void *p) { struct blk *b = find(p); return b && b->sec; }
static unsigned long judged_wipes;
void be_free(void *p, size_t clear, int kind)
{
	struct blk *b; size_t i;
	if (!p) return;
	b = find(p);
	if (!b) vf_fail("free-unknown", "%s: a block that is not held is released during %s", NAME, curop);
	if (kind == 1 && b->sec) vf_fail("free-kind", "%s: a block of the secure arena is released as ordinary memory during %s", NAME, curop);
	for (i = 0; i < PAD; i++) if (b->raw[i] != 0xC3 || b->raw[PAD + b->n + i] != 0xC3) vf_fail("overrun", "%s: written outside a block of %zu bytes before %s", NAME, b->n, curop);
	if (clear > b->n) vf_fail("overrun", "%s: %zu bytes of a block of %zu cleared", NAME, clear, b->n);
	if (clear) memset(b->p, 0, clear);
#ifdef AWSLC
	/* wiped by the library itself */
#else
	/* a bypassed block goes back before anything was stored in it: it holds what it was given with */
	if (!b->sec) {
		int given = 1;
		for (i = 0; i < b->n && given; i++) given = b->p[i] == (unsigned char)(1 + (int)((i - i % 97) % 251));
		if (!given) {
			for (i = 0; i < b->n; i++) if (b->p[i]) vf_fail("unwiped", "%s: ordinary memory (%zu bytes) released with contents at %zu during %s", NAME, b->n, i, curop);
			judged_wipes++;
		}
	}
#endif
	if (b->sec) inuse -= b->n;
	memset(b->raw, 0xDD, b->n + 2 * PAD);
	(free)(b->raw);
	memset(b, 0, sizeof(*b));
}
#if defined(JENT_BAREMETAL)
void *__wrap_malloc(size_t n) { return be_plain(n, 0, 0); }
void *__wrap_calloc(size_t a, size_t b) { return be_plain(a * b, 1, 0); }
void __wrap_free(void *p) { be_free(p, 0, 1); }
#endif
static int held(int own, int *sec, int *ord)
{
	int i, n = 0; *sec = *ord = 0;
	for (i = 0; i < nb; i++) if (B[i].p && B[i].own == own) { n++; if (B[i].sec) (*sec)++; else (*ord)++; }
	return n;
}
/* nothing may be held that belongs to no instance */
static void noleak(int own, const char *op)
{
	int s, o, n = held(own, &s, &o);
	if (n) vf_fail("leak", "%s: %d blocks still held after %s", NAME, n, op);
}
/* ---- time ---- */
static uint64_t now; static struct vf_rng tr; static long disturb; static unsigned long reads_;
static void mock(void *a, uint64_t *o)
{
	(void)a;
	if (++reads_ > 40000000UL) vf_fail("no-end", "%s does not end", curop);
	if (disturb > 0) { disturb--; now += 512; } else now += 20 + vf_rng_next(&tr) % 6000;
	*o = now;
}
/* ---- status ---- */
struct st { int sec, fips, ntg1, re; };
static void scb(void *a, const char *path, char t, const char *v)
{
	struct st *s = a; (void)t;
	if (strstr(path, "secureMemory")) s->sec = !strcmp(v, "true");
	else if (strstr(path, "fipsMode")) s->fips = !strcmp(v, "true");
	else if (strstr(path, "ntg1Mode")) s->ntg1 = !strcmp(v, "true");
	else if (strstr(path, "reinitializations")) s->re = atoi(v);
}
/* ---- scenario ---- */
#define MAXI 3
struct step { int op, slot; unsigned osr, fl; size_t len; long dist; };
static struct step S[24]; static int ns;
static struct inst { struct rand_data *ec; unsigned fl; int own; int dem, fipsm; } I[MAXI];
static int nextown = 1;
static const unsigned MODES[] = { 0, 0, JENT_FORCE_FIPS, JENT_NTG1, JENT_FORCE_SECURE_MEM, JENT_FORCE_SECURE_MEM, JENT_FORCE_FIPS | JENT_NTG1 };
static void plan(int timer)
{
	int i; unsigned sz[] = { JENT_MAX_MEMSIZE_1kB, JENT_MAX_MEMSIZE_8kB, JENT_MAX_MEMSIZE_32kB, JENT_MAX_MEMSIZE_64kB, 0 };
	ns = (int)vf_range(4, 14);
	for (i = 0; i < ns; i++) {
		struct step *s = &S[i];
		unsigned x = (unsigned)vf_below(10);
		memset(s, 0, sizeof(*s));
		s->op = i == 0 ? 0 : i == 1 ? 1 : x < 1 ? 0 : x < 4 ? 1 : x < 8 ? 2 : x < 9 ? 3 : 4;
		s->slot = i == 1 ? 0 : (int)vf_below(MAXI);
		s->osr = (unsigned)vf_below(6);
		s->fl = MODES[vf_below(7)] | sz[vf_below(vf_chance(1, 10) ? 5 : 4)] | JENT_HASHLOOP_1;
		if (vf_chance(1, 12)) s->fl |= JENT_DISABLE_MEMORY_ACCESS;
		if (!timer) s->fl |= JENT_DISABLE_INTERNAL_TIMER;
		else if (vf_chance(1, 2) && !(s->fl & JENT_NTG1)) s->fl |= JENT_FORCE_INTERNAL_TIMER;
		s->len = vf_chance(1, 8) ? 0 : (size_t)vf_range(1, 200);
		s->dist = vf_chance(1, 6) ? (long)vf_range(300, 6000) : 0;
	}
}
static uint64_t run(int faults, int judged, int timer)
{
	int i, r, s, o; uint64_t h = 1; static char buf[256]; static char st[8192]; struct st q;
	int expect = !faults;	/* the environment grants what is asked for */
	for (i = 0; i < ns; i++) {
		struct step *p = &S[i]; struct inst *e = &I[p->slot];
		int dem = !!(p->fl & (JENT_FORCE_SECURE_MEM | JENT_FORCE_FIPS | JENT_NTG1));
		int fm = fips || (p->fl & (JENT_FORCE_FIPS | JENT_NTG1));
		int contra = (p->fl & JENT_DISABLE_MEMORY_ACCESS) && fm;
		be_used = 0; reads_ = 0;
		switch (p->op) {
		case 0:
			curop = "initialisation"; cur_own = 0; demanded = dem;
			disturb = p->dist;
			r = jent_entropy_init_ex(p->osr, p->fl);
			noleak(0, "an initialisation");
			vf_describe("init %x=%d; ", p->fl, r);
			if (ARENA && dem && !arena && !r) vf_fail("demand-ignored", "%s: an initialisation demanding secure memory succeeds without a secure arena", NAME);
			if (judged && expect && !be_used && !p->dist && !timer && r) vf_fail("init-refused", "%s: initialisation fails with %d although everything is granted", NAME, r);
			h = vf_mix(h, (uint64_t)r);
			if (!r) vf_count("inits", 1); else vf_count("inits_failed", 1);
			break;
		case 1:
			if (e->ec) { curop = "release"; demanded = 0; jent_entropy_collector_free(e->ec); noleak(e->own, "the release of the instance"); e->ec = NULL; vf_count("released", 1); }
			curop = "allocation"; cur_own = e->own = nextown++; demanded = dem; e->fl = p->fl; e->dem = dem; e->fipsm = !!fm;
			disturb = p->dist;
			e->ec = jent_entropy_collector_alloc(p->osr, p->fl);
			h = vf_mix(h, (uint64_t)!!e->ec + 2);
			vf_describe("alloc %x=%d; ", p->fl, !!e->ec);
			if (!e->ec) {
				noleak(e->own, "a failed allocation");
				if (judged && expect && !be_used && !p->dist && !timer && !contra) vf_fail("alloc-refused", "%s: no instance although everything is granted (flags %x)", NAME, p->fl);
				vf_count("allocs_failed", 1);
			} else {
				if (contra) vf_fail("contradiction", "%s: compliance mode instance without memory access", NAME);
				vf_count("instances", 1);
			}
			break;
		case 2:
			if (!e->ec) break;
			curop = "read"; cur_own = e->own; demanded = e->dem; disturb = p->dist * 4;
			memset(buf, 0, sizeof(buf));
			r = (int)jent_read_entropy_safe(&e->ec, buf, p->len);
			{ size_t k; h = vf_mix(h, (uint64_t)(unsigned)r); if (r > 0) for (k = 0; k < p->len; k++) h = vf_mix(h, (uint64_t)(unsigned char)buf[k]); for (k = p->len; k < sizeof(buf); k++) if (buf[k]) vf_fail("overrun", "written beyond the %zu bytes asked for", p->len); }
			if (r >= 0 && (size_t)r != p->len) vf_fail("short", "%d of %zu bytes", r, p->len);
			if (r >= 0) vf_count("bytes_read", p->len); else vf_count("reads_failed", 1);
			vf_describe("read %zu=%d; ", p->len, r);
			if (r < 0 && judged && expect && !be_used && !p->dist && !timer) vf_fail("read-refused", "%s: read fails with %d although nothing is wrong", NAME, r);
			break;
		case 3:
			if (!e->ec) break;
			curop = "release"; cur_own = e->own; demanded = 0;
			jent_entropy_collector_free(e->ec); e->ec = NULL;
			noleak(e->own, "the release of the instance");
			vf_count("released", 1);
			break;
		case 4:
			curop = "self test"; demanded = 0;
			if (jent_selftest(e->ec)) vf_fail("selftest", "%s: self test fails", NAME);
			break;
		}
		disturb = 0;
		if (e->ec) {
			memset(&q, 0, sizeof(q));
			curop = "status"; cur_own = e->own;
			if (jent_status(e->ec, st, sizeof(st)) || js_parse(st, scb, &q)) vf_fail("status", "%s: no valid status", NAME);
			held(e->own, &s, &o);
			if (!s && !o) vf_fail("ledger", "instance holds nothing");
			if (q.sec && o && ARENA) vf_fail("status-secure", "%s: the status claims secure memory, %d of %d blocks are ordinary", NAME, o, s + o);
			if (q.sec != (ARENA ? e->dem : !strcmp(NAME, "baremetal"))) vf_fail("status-secure", "%s: secureMemory %d with flags %x", NAME, q.sec, e->fl);
			if (ARENA && e->dem && o) vf_fail("demand-ignored", "%s: %d of %d blocks of an instance demanding secure memory are ordinary", NAME, o, s + o);
			if (ARENA && arena && cap == (size_t)1 << 30 && fail_sec == -1 && o) vf_fail("arena-unused", "%s: %d of %d blocks of an instance (flags %x) are ordinary although the secure arena has room", NAME, o, s + o, e->fl);
			if (q.fips != e->fipsm) vf_fail("status-fips", "%s: FIPS mode %d, the crypto library says %d, flags %x", NAME, q.fips, fips, e->fl);
			if (q.ntg1 != !!(e->fl & JENT_NTG1)) vf_fail("status-ntg1", "NTG.1 mode %d", q.ntg1);
			if (q.re) vf_count("recoveries", 1);
			/* the uuid lies in the instance; all else is the scenario's */
			h = vf_mix(h, (uint64_t)q.re * 4 + (uint64_t)q.fips);
			vf_count("states_judged", 1);
			vf_state(vf_mix(vf_mix((uint64_t)e->fl, (uint64_t)(s * 16 + o)), (uint64_t)(arena * 8 + bypass * 4 + fips * 2 + be_used)));
		}
	}
	for (i = 0; i < MAXI; i++) if (I[i].ec) { curop = "release"; demanded = 0; jent_entropy_collector_free(I[i].ec); noleak(I[i].own, "the release of the instance"); I[i].ec = NULL; }
	for (i = 0; i < nb; i++) if (B[i].p) vf_fail("leak", "%s: a block of %zu bytes is still held", NAME, B[i].n);
	return h;
}
static void env(int k)
{
	/* 0 ample arena, 1 none, 2 small, 3 failures at a point */
	arena = k != 1; bypass = vf_chance(1, 3); cap = k == 2 ? (size_t)vf_range(0, 40000) : (size_t)1 << 30;
	fail_sec = fail_ord = -1;
	if (k == 3) { if (vf_chance(1, 2)) { if (vf_chance(2, 3)) arena = 0; fail_ord = (long)vf_below(40); } else fail_sec = (long)vf_below(40); if (vf_chance(1, 4)) fail_ord = (long)vf_below(20); }
}
static void one(void)
{
	uint64_t h0, h1, t0, t1; int k;
	if (jent_secure_memory_supported() != (ARENA || !strcmp(NAME, "baremetal"))) vf_fail("supported", "%s: secure memory supported: %d", NAME, jent_secure_memory_supported());
	fips = vf_chance(1, 3);
#if defined(JENT_BAREMETAL)
	fips = 0;
#endif
	jent_set_mock_timer(mock, NULL);
	t0 = vf_rnd(); t1 = vf_rnd();
	if (!strcmp(vf_profile, "same")) {
		int d;
		plan(0);
		for (k = 0; k < ns; k++) if (ARENA && (S[k].fl & (JENT_FORCE_SECURE_MEM | JENT_FORCE_FIPS | JENT_NTG1))) S[k].fl &= ~(unsigned)(JENT_FORCE_SECURE_MEM | JENT_FORCE_FIPS | JENT_NTG1);
		vf_describe("%s same fips=%d: ", NAME, fips);
		for (h0 = 0, d = 0; d < 3; d++) {
			env(d); fail_sec = fail_ord = -1;
			vf_rng_seed(&tr, t0, t1); now = 1000;
			h1 = run(0, d == 0, 0);
			if (d && h1 != h0) vf_fail("memory-dependent", "%s: the same scenario gives other results in other memory (variant %d)", NAME, d);
			h0 = h1;
			vf_count("scenarios_compared", 1);
		}
	} else {
		int timer = 0;
#ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
		timer = vf_chance(1, 12);
#endif
		k = (int)vf_below(4);
		env(k); plan(timer);
		vf_describe("%s env=%d arena=%d bypass=%d cap=%zu fs=%ld fo=%ld fips=%d: ", NAME, k, arena, bypass, cap, fail_sec, fail_ord, fips);
		vf_rng_seed(&tr, t0, t1); now = 1000;
		run(k != 0, 1, timer);
		/* the environment recovers */
		env(0); plan(0);
		if (!timer) { vf_describe(" recovered: "); run(0, 1, 0); vf_count("recovered_environments", 1); }
	}
	vf_count("wipes_judged", judged_wipes);
	vf_sample("%s: %d steps, %lu ordinary blocks found wiped", NAME, ns, judged_wipes);
}
int main(int argc, char **argv) { return vf_main(argc, argv, one); }
