/* Executable specification of the collector life cycle (startup test, startup
 * stages, block collection, recovery ladder), replayed over the time stamps
 * the library actually read (mock timer) and compared with what it absorbed,
 * returned and reported. Included by the model-based harnesses. */
#ifndef SIM_H
#define SIM_H
#include "vf.h"
#include "ref.h"
#include "json.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-sha3.h"
#include "jitterentropy-health.h"
#include <errno.h>
#ifdef VF_PROD
/* a build as shipped: no mock timer and no internal timer */
#include "tsc.h"
#define jent_set_mock_timer tsc_script
#endif

/* ---------- recorded events ---------- */
static uint64_t *R; static size_t nR, capR;		/* timer readings */
struct aev { uint64_t delta; uint8_t sep; size_t reads; uint64_t fin; };
static struct aev *A; static size_t nA, capA;		/* pool insertions */
struct gev { size_t na; size_t len; uint8_t out[32]; };
static struct gev *G; static size_t nG, capG;		/* output generations */
static unsigned cbmask[4096]; static size_t ncb;	/* callback masks, collapsed */
static uint64_t cb_total;
static uint64_t nfin;					/* hash-loop digests */

static void ev_reset(void) { nR = nA = nG = 0; ncb = 0; nfin = 0; }
static void *grow(void *p, size_t *cap, size_t n, size_t sz)
{
	if (n < *cap) return p;
	*cap = *cap ? *cap * 2 : 65536;
	p = realloc(p, *cap * sz);
	if (!p) vf_inconclusive("harness out of memory");
	return p;
}
static int sim_sysfips;
static int sim_cb_set;

/* ---------- timer script ---------- */
enum seg_t { SG_GOOD, SG_CONST, SG_ARITH, SG_ZERO, SG_PERIOD, SG_APTMIX, SG_EVERY3, SG_NEG,
	     SG_BIG, SG_PSTUCK, SG_FEW, SG_ZT, SG_MULT, SG_COARSE, SG_NEG1, SG_STUCKMIX, SG_VAR, SG_LAGRUN };
struct seg { enum seg_t t; uint64_t len, a, b, c; uint64_t pat[16]; };
static struct seg segs[64]; static int nsegs, cseg; static uint64_t segpos;
static uint64_t t_base, t_last, t_D, t_prevD, t_off, t_scale = 1;
static unsigned t_r; static int t_nomem, t_zero_now, t_jit = 1;
static uint64_t t_limit = 60000000;
static uint64_t t_total;
static struct vf_rng trng;
static uint64_t t_goodspan = 4096;
static uint64_t t_varseq[1400];	/* explicit deltas */
static uint64_t t_hook_at; static void (*t_hook)(void);	/* something another thread does at that reading */

/* what the timer does from the moment a recovery has replaced the collector being read */
static struct seg post[4]; static int npost; static uint64_t t_adj;
static uint64_t good_delta(void) { return 20 + vf_rng_next(&trng) % t_goodspan; }
static uint64_t next_delta(void)
{
	struct seg *s;
	uint64_t d, i;
	while (cseg < nsegs && segpos >= segs[cseg].len) { cseg++; segpos = 0; }
	t_zero_now = 0;
	if (cseg >= nsegs) { t_prevD = good_delta(); return t_prevD; }
	s = &segs[cseg]; i = segpos++;
	switch (s->t) {
	case SG_CONST: d = s->a; break;
	case SG_ARITH: d = i ? t_prevD + s->a : s->b; break;
	case SG_ZERO: d = 0; break;
	case SG_PERIOD: d = s->pat[(i + s->c) % s->a]; break;
	case SG_LAGRUN: d = i % s->b == s->b - 1 ? good_delta() + 20000 : s->pat[i % s->a]; break;
	case SG_APTMIX: d = (i % (s->b + 1)) < s->b ? s->a : good_delta(); break;
	case SG_EVERY3: d = (i % 3 == s->a) ? t_prevD : good_delta(); break;
	case SG_NEG: d = -good_delta(); break;
	case SG_NEG1: d = (vf_rng_next(&trng) % 1000 < s->a) ? -good_delta() : good_delta() * 3; break;
	case SG_BIG: d = vf_rng_next(&trng) >> s->a; break;
	case SG_PSTUCK: d = (vf_rng_next(&trng) % 1000 < s->a) ? t_prevD : good_delta(); break;
	case SG_STUCKMIX: {
		uint64_t x = vf_rng_next(&trng) % 1000;
		d = x < s->a ? t_prevD : x < s->a + s->b ? t_prevD + s->c : x < s->a + s->b + 5 ? 0 : good_delta();
		break; }
	case SG_FEW: d = s->pat[vf_rng_next(&trng) % s->a]; break;
	case SG_ZT: d = good_delta(); t_zero_now = 1; break;
	case SG_MULT: d = good_delta() * s->a; break;
	case SG_COARSE: d = s->a + (vf_rng_next(&trng) % s->b == 0); break;
	case SG_VAR: d = t_varseq[i < 1400 ? i : 1399]; break;
	case SG_GOOD: default: d = good_delta(); break;
	}
	t_prevD = d;
	d -= t_adj; t_adj = 0;
	return d;
}
static void tcb(void *arg, uint64_t *out)
{
	uint64_t v;
	(void)arg;
	if (++t_total > t_limit)
		vf_fail("no-progress", "more than %llu time stamps read without finishing", (unsigned long long)t_limit);
	if (t_hook && t_total >= t_hook_at) { void (*f)(void) = t_hook; t_hook = NULL; f(); }
	if (t_r == 0) t_D = next_delta();
	v = (t_nomem || t_r >= 1) ? t_base + t_D : t_base;
	if (!t_nomem && t_jit && t_r >= 2 && t_r <= 15 && t_D && t_D < (1ULL << 40)) v = t_base + vf_rng_next(&trng) % t_D;
	t_r++;
	t_last = v;
	*out = t_zero_now ? 0 : t_off + v * t_scale;
	R = grow(R, &capR, nR, sizeof(*R));
	R[nR++] = *out;
}
static void timer_absorbed(void) { t_base = t_last; t_r = 0; }

/* ---------- pools observed at the conditioning boundary ---------- */
struct pool { void *ctx; struct ref_xdrbg x; uint8_t blk[136]; unsigned n, old; uint64_t lastd; };
static struct pool pools[64]; static int npools;
static struct pool *pool_of(void *ctx)
{
	int i;
	for (i = npools - 1; i >= 0; i--) if (pools[i].ctx == ctx) return &pools[i];
	return NULL;
}
void __real_jent_shake256_init(struct jent_sha_ctx *ctx);
void __wrap_jent_shake256_init(struct jent_sha_ctx *ctx);
void __wrap_jent_shake256_init(struct jent_sha_ctx *ctx)
{
	struct pool *p = pool_of(ctx);
	if (!p) {
		int i;
		for (i = 0; i < npools; i++) if (!pools[i].ctx) break;
		if (i == 64) vf_inconclusive("too many pools");
		if (i == npools) npools++;
		p = &pools[i];
	}
	p->ctx = ctx; p->n = 0; p->old = 0; p->lastd = 0;
	ref_xd_init(&p->x);
	__real_jent_shake256_init(ctx);
}
void __real_jent_sha3_dealloc(void *h);
void __wrap_jent_sha3_dealloc(void *h);
void __wrap_jent_sha3_dealloc(void *h)
{
	struct pool *p = h ? pool_of(h) : NULL;
	if (p && p->old && npost) {
		memcpy(segs, post, sizeof(post)); nsegs = npost; npost = 0; cseg = 0; segpos = 0;
		if (segs[0].t == SG_PERIOD) { unsigned k; for (k = 0; k < segs[0].a; k++) if (segs[0].pat[k] == p->lastd) segs[0].c = k + 1; }
		if (segs[0].t == SG_APTMIX) segs[0].a = p->lastd;
		if (vf_rng_next(&trng) % 4) t_adj = t_D;	/* the replacement has not taken a reading since the start of its last measurement */
		vf_count("carry_overs_probed", 1);
	}
	if (p) p->ctx = NULL;
	__real_jent_sha3_dealloc(h);
}
void __real_jent_sha3_update(struct jent_sha_ctx *ctx, const uint8_t *in, size_t len);
void __wrap_jent_sha3_update(struct jent_sha_ctx *ctx, const uint8_t *in, size_t len);
void __wrap_jent_sha3_update(struct jent_sha_ctx *ctx, const uint8_t *in, size_t len)
{
	struct pool *p = pool_of(ctx);
	if (p) {
		size_t i = 0;
		ref_xd_input(&p->x, in, len);
		while (i < len) {
			size_t c = 136 - p->n;
			if (c > len - i) c = len - i;
			memcpy(p->blk + p->n, in + i, c);
			p->n += (unsigned)c; i += c;
			if (p->n == 136) {
				struct aev e;
				memcpy(&e.delta, p->blk, 8);
				e.sep = p->blk[8];
				e.reads = nR;
				e.fin = nfin;
				p->n = 0; p->lastd = e.delta;
				A = grow(A, &capA, nA, sizeof(*A));
				A[nA++] = e;
				timer_absorbed();
			}
		}
	}
	__real_jent_sha3_update(ctx, in, len);
}
void __real_jent_sha3_final(struct jent_sha_ctx *ctx, uint8_t *d);
void __wrap_jent_sha3_final(struct jent_sha_ctx *ctx, uint8_t *d);
void __wrap_jent_sha3_final(struct jent_sha_ctx *ctx, uint8_t *d)
{
	if (!pool_of(ctx)) nfin++;
	__real_jent_sha3_final(ctx, d);
}
void __real_jent_drbg_generate_block(struct jent_sha_ctx *ctx, uint8_t *dst, size_t len);
void __wrap_jent_drbg_generate_block(struct jent_sha_ctx *ctx, uint8_t *dst, size_t len);
void __wrap_jent_drbg_generate_block(struct jent_sha_ctx *ctx, uint8_t *dst, size_t len)
{
	struct pool *p = pool_of(ctx);
	if (p) {
		G = grow(G, &capG, nG, sizeof(*G));
		G[nG].na = nA; G[nG].len = len;
		ref_xd_generate(&p->x, G[nG].out);
		nG++;
	}
	__real_jent_drbg_generate_block(ctx, dst, len);
}
int __real_jent_fips_enabled(void);
int __wrap_jent_fips_enabled(void);
int __wrap_jent_fips_enabled(void) { return sim_sysfips; }
int __wrap_mlock(const void *p, size_t n);
static int sim_mlock_fail;
int __wrap_mlock(const void *p, size_t n) { (void)p; (void)n; if (sim_mlock_fail) { errno = sim_mlock_fail; return -1; } return 0; }
/* verdict of the divisor search's own self test, injectable */
static int sim_gcd_fail, sim_gcd_fired;
int __real_jent_gcd_selftest(unsigned flags) __attribute__((weak));
int __wrap_jent_gcd_selftest(unsigned flags);
int __wrap_jent_gcd_selftest(unsigned flags)
{
	if (sim_gcd_fail) { sim_gcd_fail--; sim_gcd_fired++; vf_count("divisor_self_test_failures", 1); return EGCD; }
	return __real_jent_gcd_selftest(flags);
}
/* verdict of the known answer tests, injectable */
static int sim_kat_fail;	/* number of upcoming runs that fail; -1 all */
static uint64_t kat_runs;
int __real_jent_sha3_tester(void);
int __wrap_jent_sha3_tester(void);
int __wrap_jent_sha3_tester(void)
{
	int r = __real_jent_sha3_tester();
	kat_runs++;
	if (sim_kat_fail) { if (sim_kat_fail > 0) sim_kat_fail--; return 1; }
	return r;
}

/* ---------- simulated process / collector ---------- */
static size_t s_stf_at = (size_t)-1;	/* pool insertion at which a bound self test failed */
static int s_run, s_gcd_set; static uint64_t s_gcd;	/* process-wide */
static size_t ri, ai, gi; static uint64_t sfin; static int s_recovered;
static unsigned ecb[4096]; static size_t necb;
static uint64_t st_meas, st_stuck, st_blocks, st_recov;
static char s_phase[64];

struct simc {
	unsigned osr, flags; int fips, ntg1, mem, maxmem; unsigned hl;
	uint64_t prev, gcd; int startup;	/* 2 memory, 1 sha3, 0 completed */
	struct ref_health h; unsigned reinit; uint64_t inv, bytes; int stf;
	uint64_t acc, acc_det, lively;	/* memory accesses: all, of the memory stage; well-seeded normal measurements */
};
#define DIVERGE(key, ...) vf_fail(key, __VA_ARGS__)
static uint64_t sim_time(void)
{
	if (ri >= nR) DIVERGE("noise-sampling", "%s: library took only %zu time stamps where the specified sampling needs more (insertion %zu of %zu)", s_phase, nR, ai, nA);
	return R[ri++];
}
static void sim_absorb(uint64_t delta, uint8_t sep)
{
	if (ai >= nA) DIVERGE("noise-insertion", "%s: measurement %zu never entered the pool", s_phase, ai);
	if (A[ai].reads != ri) DIVERGE("noise-sampling", "%s: measurement %zu entered the pool after %zu time stamps, specified %zu", s_phase, ai, A[ai].reads, ri);
	if (A[ai].delta != delta) DIVERGE("noise-delta", "%s: measurement %zu inserted delta %llu, time stamps give %llu", s_phase, ai, (unsigned long long)A[ai].delta, (unsigned long long)delta);
	if (A[ai].sep != sep) DIVERGE("noise-source", "%s: measurement %zu tagged source %u, expected %u", s_phase, ai, A[ai].sep, sep);
	if (!s_recovered && A[ai].fin != sfin) DIVERGE("hash-loop", "%s: measurement %zu ran %llu hash operations so far, specified %llu", s_phase, ai, (unsigned long long)A[ai].fin, (unsigned long long)sfin);
	ai++;
}
static void sim_random_data(struct simc *c);
static int sim_failing(struct simc *c)
{
	if (!c->fips) return 0;
	if (c->h.fail && sim_cb_set && (!necb || ecb[necb - 1] != c->h.fail)) { if (necb < 4096) ecb[necb++] = c->h.fail; }
	return c->h.fail != 0;
}
static void sim_recovery(void *arg)
{
	struct simc *c = arg;
	int saved = c->startup, i;
	s_recovered = 1; st_recov++;
	c->startup = 0;
	for (i = 0; i < 10; i++) sim_random_data(c);
	c->startup = saved;
}
static int sim_measure(struct simc *c, int kind, uint64_t *dout)
{
	uint64_t now, start, d = 0; int i, stuck;
	st_meas++;
	if (kind == 3) {
		if (c->mem) { uint8_t a = (uint8_t)sim_time(); unsigned df = 0; for (i = 1; i < 16; i++) df += (uint8_t)sim_time() != a; c->acc += 128; c->lively += t_jit && df >= 8; }
		now = sim_time();
		d = (now - c->prev) / c->gcd;
		c->prev = now;
		stuck = ref_h_insert(&c->h, d, sim_recovery, c);
		sfin += c->hl;
	} else if (kind == 2) {
		start = sim_time();
		c->prev = start;
		sfin += c->hl * 3;
		now = sim_time();
		d = (now - start) / c->gcd;
		stuck = ref_h_insert(&c->h, d, sim_recovery, c);
	} else {
		if (c->mem) { c->acc += 384; c->acc_det += 384; start = sim_time(); now = sim_time(); d = (now - start) / c->gcd; }
		stuck = ref_h_insert(&c->h, d, sim_recovery, c);
	}
	sim_absorb(d, (uint8_t)kind);
	if (dout) *dout = d;
	st_stuck += (uint64_t)stuck;
	return stuck;
}
static void sim_block(struct simc *c, int kind)
{
	unsigned need = (256 + (c->fips ? 65 : 0)) * c->osr, got = 0;
	need = (need + 2) / 3 * 3;
	c->h.rm_pos = 0;
	c->h.rm_win = need;
	while (!sim_failing(c)) {
		if (sim_measure(c, kind, NULL)) continue;
		if (++got >= need) break;
	}
}
static void sim_random_data(struct simc *c)
{
	if (c->startup) {
		if (c->startup == 2) { sim_block(c, 1); c->startup = 1; ref_h_restart(&c->h, c->osr, c->ntg1); }
		sim_block(c, 2); c->startup = 0; ref_h_restart(&c->h, c->osr, c->ntg1);
	} else {
		sim_measure(c, 3, NULL);
		sim_block(c, 3);
	}
	st_blocks++;
}
static unsigned log2u(unsigned v) { unsigned r = 0; while (v >>= 1) r++; return r; }
static unsigned sim_memflags(unsigned flags, unsigned inc)
{
	unsigned m = flags >> 27;
	if (!m) {
		unsigned l = log2u(jent_cache_size_roundup(!!(flags & JENT_CACHE_ALL)));
		if (!l) l = 18; else if (!(flags & JENT_CACHE_ALL)) l += 2;
		m = l > 9 ? l - 9 : 0;
	} else m += inc;
	if (m > 20) m = 20;
	return (flags & 0x07ffffffu) | (m << 27);
}
static unsigned sim_memsize(unsigned flags)
{
	unsigned m = flags >> 27;
	if (m > 20) m = 20;
	return 1u << (m ? m + 9 : 18);
}
static unsigned sim_hlflags(unsigned flags, unsigned inc)
{
	unsigned h = (flags >> 24) & 7;
	h += inc; if (h > 7) h = 7;
	return (flags & ~(7u << 24)) | (h << 24);
}
static int sim_init_ex(unsigned osr, unsigned flags);
static int s_unsim;	/* outcome depends on the internal timer: not simulated */
static struct simc *sim_alloc_int(unsigned osr, unsigned flags)
{
	struct simc *c;
	if ((flags & (JENT_DISABLE_INTERNAL_TIMER | JENT_NTG1)) && (flags & JENT_FORCE_INTERNAL_TIMER)) return NULL;
	if (osr < 3) osr = 3;
	if (osr > 20) return NULL;
	if (!s_run && sim_init_ex(osr, flags)) return NULL;
	if (flags & JENT_NTG1) flags |= JENT_DISABLE_INTERNAL_TIMER;
#ifdef VF_PROD
	if (flags & JENT_FORCE_INTERNAL_TIMER) return NULL;
#endif
	if (flags & JENT_FORCE_INTERNAL_TIMER) { s_unsim = 1; return NULL; }
	if (sim_mlock_fail && ((flags & JENT_FORCE_SECURE_MEM) || (sim_mlock_fail != EPERM && sim_mlock_fail != ENOMEM && sim_mlock_fail != EAGAIN))) return NULL;
	c = calloc(1, sizeof(*c));
	c->maxmem = (flags >> 27) != 0;
	if (!(flags & JENT_DISABLE_MEMORY_ACCESS)) { flags = sim_memflags(flags, 0); c->mem = 1; }
	c->hl = 1u << ((flags >> 24) & 7);
	c->osr = osr; c->flags = flags;
	c->ntg1 = !!(flags & JENT_NTG1);
	c->fips = c->ntg1 || (flags & JENT_FORCE_FIPS) || sim_sysfips;
	c->startup = c->fips ? 2 : 0;
	ref_h_restart(&c->h, osr, c->ntg1);
	c->gcd = s_gcd_set ? s_gcd : 1;
	return c;
}
static uint64_t gcd_u64(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }
static int sim_time_init(unsigned osr, unsigned flags)
{
	struct simc *c;
	uint64_t prevd = 0, sum = 0, g = 0, d, start;
	int i, back = 0, nst = 0, ret = 0, st;
	if (sim_mlock_fail && ((flags & JENT_FORCE_SECURE_MEM) || (sim_mlock_fail != EPERM && sim_mlock_fail != ENOMEM && sim_mlock_fail != EAGAIN))) return EMEM;
	c = sim_alloc_int(osr, flags | JENT_DISABLE_INTERNAL_TIMER | JENT_FORCE_FIPS);
	if (!c) return EMEM;
	sim_measure(c, 3, NULL);
	for (i = -100; i < 1024; i++) {
		start = c->prev;
		st = sim_measure(c, 3, &d);
		if (!start || !c->prev) { ret = ENOTIME; goto out; }
		if (!d) { ret = ECOARSETIME; goto out; }
		if (i < 0) continue;
		nst += st;
		if (c->prev <= start) back++;
		if (i) { sum += d > prevd ? d - prevd : prevd - d; g = gcd_u64(g, d); } else g = d;
		prevd = d;
	}
	if (back > 3) { ret = ENOMONOTONIC; goto out; }
	if (sim_failing(c)) { ret = (c->h.fail & (RF_RCT | RF_P(RF_RCT))) ? ERCT : EHEALTH; goto out; }
	if (sum * c->osr < 1024) { ret = EMINVARVAR; goto out; }
	if (g >= 0x7fffffff) { ret = ECOARSETIME; goto out; }
	if (!s_gcd_set && g) { s_gcd = g; s_gcd_set = 1; }
	if (nst > 921) ret = ESTUCK;
out:
	free(c);
	return ret;
}
static unsigned sim_secure(unsigned flags) { return (flags & (JENT_NTG1 | JENT_FORCE_FIPS)) ? flags | JENT_FORCE_SECURE_MEM : flags; }
static int sim_init_common(unsigned flags)
{
	if (sim_gcd_fired) { sim_gcd_fired--; s_run = 0; return EGCD; }
	if (sim_mlock_fail && ((flags & JENT_FORCE_SECURE_MEM) || (sim_mlock_fail != EPERM && sim_mlock_fail != ENOMEM && sim_mlock_fail != EAGAIN))) { s_run = 0; return EMEM; }
	s_run = 1;
	return 0;
}
static int sim_init_ex(unsigned osr, unsigned flags)
{
	int ret;
	flags = sim_secure(flags);
	ret = sim_init_common(flags);
	if (ret) return ret;
	if ((flags & JENT_NTG1) && (flags & JENT_FORCE_INTERNAL_TIMER)) { s_run = 0; return ENOTIME; }
	if ((flags & JENT_DISABLE_INTERNAL_TIMER) && (flags & JENT_FORCE_INTERNAL_TIMER)) { s_run = 0; return ENOTIME; }
#ifdef VF_PROD
	if (flags & JENT_FORCE_INTERNAL_TIMER) { s_run = 0; return ENOTIME; }
#endif
	if (flags & JENT_FORCE_INTERNAL_TIMER) { s_unsim = 1; return ENOTIME; }
	ret = sim_time_init(osr, flags);
#ifdef VF_PROD
	if (ret) s_run = 0;
	return ret;
#endif
	if (ret && !(flags & (JENT_DISABLE_INTERNAL_TIMER | JENT_NTG1))) s_unsim = 1;
	if (ret) s_run = 0;
	return ret;
}
static struct simc *sim_alloc(unsigned osr, unsigned flags);
static int sim_reset(struct simc **pc, struct simc *(*alloc)(unsigned, unsigned))
{
	struct simc *o = *pc, *n;
	unsigned osr = o->osr + 1, flags = o->flags;
	if (osr > 20) return -1;
	if (!o->maxmem) flags = sim_memflags(flags, 1);
	flags = sim_hlflags(flags, 1);
	while (sim_init_ex(osr, flags)) { if (s_unsim) return -1; if (++osr > 20) return -1; }
	n = alloc(osr, flags);
	if (!n) return -1;
	n->maxmem = o->maxmem;
	if (o->h.apt_obs) { n->h.apt_base = o->h.apt_base; n->h.apt_open = 1; n->h.apt_n = n->h.apt_c; n->h.apt_obs = o->h.apt_obs; }
	n->h.rct = n->h.rct_c;
	memcpy(n->h.d, o->h.d, sizeof(n->h.d)); memcpy(n->h.score, o->h.score, sizeof(n->h.score));
	n->h.best = o->h.best; n->h.lobs = o->h.lobs; n->h.lsucc = o->h.lsucc; n->h.lrun = o->h.lrun;
	n->h.rm_n = o->h.rm_c;
	n->reinit = o->reinit + 1;
	n->inv = o->inv; n->bytes = o->bytes;
	if (ai >= s_stf_at) o->stf = 1;
	n->stf |= o->stf;
	free(o);
	*pc = n;
	return 0;
}
static struct simc *sim_alloc(unsigned osr, unsigned flags)
{
	struct simc *c;
	if ((flags & JENT_DISABLE_MEMORY_ACCESS) && ((flags & (JENT_NTG1 | JENT_FORCE_FIPS)) || sim_sysfips)) return NULL;
	c = sim_alloc_int(osr, sim_secure(flags));
	if (!c) return NULL;
	do {
		sim_random_data(c);
		if (sim_failing(c)) {
			if (sim_reset(&c, sim_alloc_int)) { free(c); return NULL; }
			continue;
		}
	} while (c->startup);
	return c;
}
static int fail_code(unsigned f)
{
	if (f & RF_P(RF_RCT)) return JENT_ERR_RCT_PERMANENT;
	if (f & RF_P(RF_APT)) return JENT_ERR_APT_PERMANENT;
	if (f & RF_P(RF_LAG)) return JENT_ERR_LAG_PERMANENT;
	if (f & RF_P(RF_RM)) return JENT_ERR_RCT_MEM_PERMANENT;
	if (f & RF_RCT) return JENT_ERR_RCT;
	if (f & RF_APT) return JENT_ERR_APT;
	if (f & RF_RM) return JENT_ERR_RCT_MEM;
	return JENT_ERR_LAG;
}
static ssize_t sim_read(struct simc *c, uint8_t *buf, size_t len)
{
	size_t l = len;
	while (l) {
		size_t n = l < 32 ? l : 32;
		if (ai >= s_stf_at) c->stf = 1;
		if (c->stf) return JENT_ERR_SELFTEST;
		sim_random_data(c);
		if (sim_failing(c)) return fail_code(c->h.fail);
		if (gi >= nG) DIVERGE("output-missing", "%s: no output generated for a block of %zu bytes", s_phase, n);
		if (G[gi].na != ai) DIVERGE("output-early", "%s: output block %zu generated after %zu pool insertions, specified %zu", s_phase, gi, G[gi].na, ai);
		if (G[gi].len != n) DIVERGE("output-size", "%s: generation of %zu bytes, specified %zu", s_phase, G[gi].len, n);
		memcpy(buf, G[gi].out, n);
		gi++;
		l -= n; buf += n;
	}
	c->inv++; c->bytes += len;
	return (ssize_t)len;
}
static ssize_t sim_read_safe(struct simc **c, uint8_t *buf, size_t len)
{
	ssize_t r = 0;
	if (!len) return 0;
	for (;;) {
		r = sim_read(*c, buf, len);
		if (r >= 0) return r;
		if (r != JENT_ERR_RCT && r != JENT_ERR_APT && r != JENT_ERR_LAG && r != JENT_ERR_RCT_MEM) return r;
		if (sim_reset(c, sim_alloc)) return r;
	}
}

/* ---------- API operations: run, replay, compare ---------- */
struct inst { struct rand_data *ec; struct simc *c; char uuid[40]; };
static void op_begin(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void op_begin(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt); vsnprintf(s_phase, sizeof(s_phase), fmt, ap); va_end(ap);
	ev_reset();
	ri = ai = gi = 0; sfin = 0; s_recovered = 0; necb = 0;
}
static void op_end(void)
{
	size_t i;
	if (s_unsim) { vf_count("unsimulated", 1); return; }
	if (ri != nR) DIVERGE("noise-sampling", "%s: library read %zu time stamps, specified %zu", s_phase, nR, ri);
	if (ai != nA) DIVERGE("noise-insertion", "%s: %zu pool insertions, specified %zu", s_phase, nA, ai);
	if (gi != nG) DIVERGE("output-extra", "%s: %zu generations, specified %zu", s_phase, nG, gi);
	if (ncb != necb) DIVERGE("callback", "%s: failure callback saw %zu distinct reports, specified %zu", s_phase, ncb, necb);
	for (i = 0; i < ncb; i++)
		if (cbmask[i] != ecb[i]) DIVERGE("callback", "%s: failure callback report %zu mask %#x, specified %#x", s_phase, i, cbmask[i], ecb[i]);
	vf_count("timer_reads", nR); vf_count("pool_insertions", nA); vf_count("outputs", nG);
	vf_count("callback_reports", ncb);
}
static void model_cb(struct rand_data *ec, unsigned mask)
{
	(void)ec;
	cb_total++;
	if (!ncb || cbmask[ncb - 1] != mask) { if (ncb < 4096) cbmask[ncb++] = mask; }
}
struct stat_exp { const struct simc *c; const char *uuid; int n; };
static void st_cb(void *arg, const char *path, char type, const char *val)
{
	struct stat_exp *e = arg;
	const struct simc *c = e->c;
	char exp[80] = "";
	int known = 1;
#define NUM(p, v) else if (!strcmp(path, p)) snprintf(exp, sizeof(exp), "%llu", (unsigned long long)(v))
#define BOO(p, v) else if (!strcmp(path, p)) snprintf(exp, sizeof(exp), "%s", (v) ? "true" : "false")
	if (!strcmp(path, "uuid")) {
		if (e->uuid[0] && strcmp(e->uuid, val)) vf_fail("status-uuid", "%s: uuid changed from %s to %s", s_phase, e->uuid, val);
		e->n++;
		return;
	}
	NUM("reinitializations", c->reinit);
	NUM("output.invocations", c->inv); NUM("output.bytes", c->bytes); NUM("output.bits", c->bytes * 8);
	BOO("healthFailure.apt.intermittent", c->h.fail & RF_APT); BOO("healthFailure.apt.permanent", c->h.fail & RF_P(RF_APT));
	BOO("healthFailure.rct.intermittent", c->h.fail & RF_RCT); BOO("healthFailure.rct.permanent", c->h.fail & RF_P(RF_RCT));
	BOO("healthFailure.rctMemory.intermittent", c->h.fail & RF_RM); BOO("healthFailure.rctMemory.permanent", c->h.fail & RF_P(RF_RM));
	BOO("healthFailure.lag.intermittent", c->h.fail & RF_LAG); BOO("healthFailure.lag.permanent", c->h.fail & RF_P(RF_LAG));
	NUM("configuration.osr", c->osr);
	NUM("configuration.memoryBlockSizeBytes", sim_memsize(c->flags));
	NUM("configuration.hashLoopCount.runtime", c->hl); NUM("configuration.hashLoopCount.initialization", c->hl * 3);
	NUM("configuration.memoryLoopCount.runtime", c->mem ? 128 : 0); NUM("configuration.memoryLoopCount.initialization", c->mem ? 384 : 0);
	BOO("configuration.secureMemory", c->flags & JENT_FORCE_SECURE_MEM);
	BOO("configuration.internalTimer", 0);
#ifdef VF_PROD
	BOO("configuration.mockedTimerBuild", 0); BOO("configuration.mockedTimerActive", 0);
#endif
	BOO("configuration.mockedTimerBuild", 1); BOO("configuration.mockedTimerActive", 1);
	BOO("configuration.fipsMode", c->fips); BOO("configuration.ntg1Mode", c->ntg1);
	BOO("configuration.flags.JENT_DISABLE_MEMORY_ACCESS", c->flags & JENT_DISABLE_MEMORY_ACCESS);
	BOO("configuration.flags.JENT_FORCE_INTERNAL_TIMER", c->flags & JENT_FORCE_INTERNAL_TIMER);
	BOO("configuration.flags.JENT_DISABLE_INTERNAL_TIMER", c->flags & JENT_DISABLE_INTERNAL_TIMER);
	BOO("configuration.flags.JENT_FORCE_FIPS", c->flags & JENT_FORCE_FIPS);
	BOO("configuration.flags.JENT_NTG1", c->flags & JENT_NTG1);
	BOO("configuration.flags.JENT_CACHE_ALL", c->flags & JENT_CACHE_ALL);
	BOO("configuration.flags.JENT_FORCE_SECURE_MEM", c->flags & JENT_FORCE_SECURE_MEM);
	else known = 0;
	(void)type;
	if (!known) return;
	e->n++;
	if (strcmp(exp, val)) vf_fail("status-value", "%s: status reports %s = %s, instance has %s", s_phase, path, val, exp);
}
static void check_status(struct inst *in)
{
	static char buf[8192];
	struct stat_exp e = { in->c, in->uuid, 0 };
	char u[40];
	if (s_unsim) return;
	if (jent_status(in->ec, buf, sizeof(buf))) vf_fail("status-error", "%s: status failed", s_phase);
	if (js_parse(buf, st_cb, &e)) vf_fail("status-json", "%s: status is not valid JSON: %.300s", s_phase, buf);
#ifdef VF_PROD
	e.n++;	/* mockedTimerActive is not part of this build's document */
#endif
	if (e.n < 28) vf_fail("status-missing", "%s: status lacks documented fields (%d found)", s_phase, e.n);
	if (jent_uuid(in->ec, u, sizeof(u))) vf_fail("uuid", "%s: uuid unavailable", s_phase);
	if (in->uuid[0] && strcmp(u, in->uuid)) vf_fail("status-uuid", "%s: uuid changed", s_phase);
	strcpy(in->uuid, u);
	vf_count("status_checks", 1);
}
/* Put the output accounting where only long service would bring it. The words
 * are found by their effect on the status, not by name. */
struct cnt_q { const char *path; char val[32]; };
static void cnt_cb(void *arg, const char *path, char type, const char *val)
{
	struct cnt_q *q = arg;
	(void)type;
	if (!strcmp(path, q->path)) snprintf(q->val, sizeof(q->val), "%s", val);
}
static int cnt_place(struct inst *in, const char *path, uint64_t *cur, uint64_t nv)
{
	static char buf[8192];
	uint64_t *w = (uint64_t *)(void *)in->ec;
	size_t i;
	for (i = 0; i < sizeof(struct rand_data) / 8; i++) {
		struct cnt_q q = { path, "" };
		if (w[i] != *cur) continue;
		w[i] = *cur + 1;
		if (jent_status(in->ec, buf, sizeof(buf)) || js_parse(buf, cnt_cb, &q)) { w[i] = *cur; continue; }
		if (strtoull(q.val, NULL, 10) == *cur + 1) { w[i] = nv; *cur = nv; return 1; }
		w[i] = *cur;
	}
	return 0;
}
static void place_counters(struct inst *in)
{
	static const uint64_t big[] = { 0xfffffff0ull, 0x1fffffffull, 0x20000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffull, 0x123456789abull, 0x1ffffffffffffff0ull };
	if (s_unsim || !in->ec) return;
	if (in->c->bytes > 40 && cnt_place(in, "output.bytes", &in->c->bytes, big[vf_below(8)])) vf_count("counters_placed", 1);
	if (in->c->inv && in->c->inv != in->c->bytes && cnt_place(in, "output.invocations", &in->c->inv, big[vf_below(8)])) vf_count("counters_placed", 1);
	check_status(in);
}
/* The noise memory starts out zero and every access adds one to a byte: count
 * the accesses made and see that they reach all of the configured memory. */
static void check_memory(struct inst *in)
{
	const struct simc *c = in->c;
	size_t size = sim_memsize(c->flags), i, part = size / 16;
	uint64_t sum = 0, nz[16] = { 0 }, all = 0;
	double lam = (double)c->lively * 128.0 / (double)size, hit;
	int j;
	if (s_unsim) return;
	if (!c->mem) {
		if (in->ec->mem) vf_fail("memory-access", "%s: noise memory present although memory access is disabled", s_phase);
		return;
	}
	if (!in->ec->mem || (size_t)in->ec->memmask + 1 != size) vf_fail("memory-access", "%s: noise memory of %zu bytes, specified %zu", s_phase, (size_t)in->ec->memmask + 1, size);
	if (size > (4u << 20)) return;
	for (i = 0; i < size; i++) { uint8_t v = ((volatile uint8_t *)in->ec->mem)[i]; sum += v; nz[i / part] += v != 0; }
	for (j = 0; j < 16; j++) all += nz[j];
	if (sum > c->acc || (c->acc - sum) % 256) vf_fail("memory-access", "%s: accesses seen in the noise memory (sum %llu) do not match the %llu specified", s_phase, (unsigned long long)sum, (unsigned long long)c->acc);
	/* no byte can have wrapped around when the accesses are few and spread */
	if (t_jit && c->lively * 128 + c->acc_det == c->acc && (double)c->acc < 40.0 * (double)size && sum != c->acc)
		vf_fail("memory-access", "%s: %llu memory accesses made, specified %llu", s_phase, (unsigned long long)sum, (unsigned long long)c->acc);
	if (t_jit && c->lively >= 512) {
		hit = (lam > 30 ? 1.0 : 1.0 - 1.0 / (1.0 + lam + lam * lam / 2)) * (double)part * 0.5;	/* below the expected share */
		for (j = 0; j < 16; j++)
			if ((double)nz[j] < hit) vf_fail("memory-access", "%s: sixteenth %d of the %zu byte noise memory has %llu touched bytes after %llu accesses", s_phase, j, size, (unsigned long long)nz[j], (unsigned long long)c->acc);
		vf_count("memory_spread_checks", 1);
	}
	if (c->acc_det && c->acc_det < 200 * size && (double)all < 0.9 * (double)(c->acc_det < size ? c->acc_det : size))
		vf_fail("memory-access", "%s: %llu accesses of the memory stage touched only %llu of %zu bytes", s_phase, (unsigned long long)c->acc_det, (unsigned long long)all, size);
	vf_count("memory_access_checks", 1);
}
static int do_init_ex(unsigned osr, unsigned flags)
{
	int r, e;
	op_begin("init_ex(osr=%u,flags=%#x)", osr, flags);
	r = jent_entropy_init_ex(osr, flags);
	e = sim_init_ex(osr, flags);
	if (!s_unsim && r != e) DIVERGE("init-verdict", "%s returned %d, the startup test specifies %d", s_phase, r, e);
	op_end();
	vf_count("init_calls", 1);
	vf_state(vf_mix(0x1117, (uint64_t)r));
	return r;
}
static int do_init(void)
{
	int r, e;
	op_begin("jent_entropy_init()");
	r = jent_entropy_init();
	e = sim_init_common(0);
	if (!e) { e = sim_time_init(0, 0); if (e) {
		s_run = 0;
#ifndef VF_PROD
		s_unsim = 1;
#endif
	} }
	if (!s_unsim && r != e) DIVERGE("init-verdict", "%s returned %d, the startup test specifies %d", s_phase, r, e);
	op_end();
	return r;
}
static int do_alloc(struct inst *in, unsigned osr, unsigned flags)
{
	op_begin("alloc(osr=%u,flags=%#x)", osr, flags);
	memset(in, 0, sizeof(*in));
	in->ec = jent_entropy_collector_alloc(osr, flags);
	in->c = sim_alloc(osr, flags);
	if (s_unsim) return in->ec != NULL;
	if (!!in->ec != !!in->c) DIVERGE("alloc-verdict", "%s %s, specified to %s", s_phase, in->ec ? "succeeded" : "failed", in->c ? "succeed" : "fail");
	op_end();
	vf_count("alloc_calls", 1);
	if (in->ec) { check_status(in); check_memory(in); }
	vf_state(vf_mix(0x2227, in->ec ? in->c->osr * 4096u + in->c->reinit : 0));
	return in->ec != NULL;
}
#define PADB 64
#define RDMAX 140000
static ssize_t do_read(struct inst *in, size_t len, int safe)
{
	static uint8_t mem[RDMAX + 2 * PADB], exp[RDMAX + 2 * PADB];
	ssize_t r, e;
	size_t i;
	char *where;
	if (len > RDMAX) len = RDMAX;
	op_begin("%s(len=%zu,osr=%u)", safe ? "read_safe" : "read", len, in->c ? in->c->osr : 0);
	for (i = 0; i < len + 2 * PADB; i++) exp[i] = mem[i] = (uint8_t)(0xa5 ^ (i * 7) ^ vf_idx);
	if (npost) { int k; for (k = 0; k < npools; k++) pools[k].old = pools[k].ctx != NULL; }
	where = !len && (vf_idx & 1) ? NULL : (char *)mem + PADB;
	if (safe) r = jent_read_entropy_safe(&in->ec, where, len);
	else r = jent_read_entropy(in->ec, where, len);
	e = safe ? sim_read_safe(&in->c, exp + PADB, len) : sim_read(in->c, exp + PADB, len);
	if (s_unsim) return r;
	if (r != e) DIVERGE("read-verdict", "%s returned %zd, specified %zd", s_phase, r, e);
	for (i = 0; i < len + 2 * PADB; i++)
		if (mem[i] != exp[i]) {
			if (i < PADB || i >= PADB + len) DIVERGE("buffer-overrun", "%s wrote outside the buffer (offset %ld)", s_phase, (long)i - PADB);
			DIVERGE(r < 0 ? "bytes-after-failure" : "output-value", "%s (result %zd): byte %zu of the buffer is not the specified value", s_phase, r, i - PADB);
		}
	op_end();
	if (s_stf_at != (size_t)-1) { in->c->stf = 1; s_stf_at = (size_t)-1; }
	check_status(in);
	check_memory(in);
	vf_count(safe ? "safe_reads" : "reads", 1);
	if (r < 0) vf_count("read_failures", 1);
	vf_state(vf_mix(vf_mix(0x3337, (uint64_t)r), vf_mix(in->c->h.fail, in->c->osr * 8 + (unsigned)(in->c->ntg1 * 2 + in->c->fips))));
	return r;
}
static void do_free(struct inst *in)
{
	jent_entropy_collector_free(in->ec);
	free(in->c);
	memset(in, 0, sizeof(*in));
}
static void timer_start(void)
{
	vf_rng_seed(&trng, vf_rnd(), 5);
	cseg = 0; segpos = 0; t_r = 0; t_prevD = 0;
	t_base = t_last = vf_range(1, 1u << 30);
	t_off = vf_chance(1, 2) ? vf_rnd() >> vf_range(1, 40) : 0;	/* counters of any width */
	jent_set_mock_timer(tcb, NULL);
}
#endif
