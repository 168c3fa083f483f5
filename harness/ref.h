/* Independent reference models: FIPS 202 sponge, XDRBG-256, the four health
 * tests. Written from the published definitions, sharing no code with /repo. */
#ifndef REF_H
#define REF_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "ref_tables.h"

/* ---------------- FIPS 202 ---------------- */
static inline uint64_t ref_rotl(uint64_t x, unsigned n) { return n ? (x << n) | (x >> (64 - n)) : x; }
static void ref_keccak_f(uint64_t A[25])
{
	static const uint8_t pil[24] = { 10,7,11,17,18,3,5,16,8,21,24,4,15,23,19,13,12,2,20,14,22,9,6,1 };
	static const uint8_t rot[24] = { 1,3,6,10,15,21,28,36,45,55,2,14,27,41,56,8,25,43,62,18,39,61,20,44 };
	uint8_t lfsr = 1;
	int round, i, j;
	for (round = 0; round < 24; round++) {
		uint64_t C[5], t;
		for (i = 0; i < 5; i++) C[i] = A[i] ^ A[i+5] ^ A[i+10] ^ A[i+15] ^ A[i+20];
		for (i = 0; i < 5; i++) {
			t = C[(i+4)%5] ^ ref_rotl(C[(i+1)%5], 1);
			for (j = 0; j < 25; j += 5) A[i+j] ^= t;
		}
		t = A[1];
		for (i = 0; i < 24; i++) { uint64_t u = A[pil[i]]; A[pil[i]] = ref_rotl(t, rot[i]); t = u; }
		for (j = 0; j < 25; j += 5) {
			for (i = 0; i < 5; i++) C[i] = A[j+i];
			for (i = 0; i < 5; i++) A[j+i] = C[i] ^ (~C[(i+1)%5] & C[(i+2)%5]);
		}
		/* round constant from the degree-8 LFSR */
		{
			uint64_t rc = 0;
			for (i = 0; i < 7; i++) {
				if (lfsr & 1) rc |= 1ULL << ((1u << i) - 1);
				lfsr = (uint8_t)((lfsr << 1) ^ ((lfsr & 0x80) ? 0x71 : 0));
			}
			A[0] ^= rc;
		}
	}
}
struct ref_sponge { uint64_t A[25]; unsigned pos; };	/* rate 136 */
static inline void ref_sp_init(struct ref_sponge *s) { memset(s, 0, sizeof(*s)); }
static inline void ref_sp_byte(struct ref_sponge *s, uint8_t b)
{
	s->A[s->pos / 8] ^= (uint64_t)b << (8 * (s->pos % 8));
	if (++s->pos == 136) { ref_keccak_f(s->A); s->pos = 0; }
}
static inline void ref_sp_absorb(struct ref_sponge *s, const void *p, size_t n)
{
	const uint8_t *b = p;
	while (n) {
		if (!(s->pos % 8) && n >= 8 && s->pos <= 128) {
			uint64_t v; int i;
			v = 0;
			for (i = 7; i >= 0; i--) v = (v << 8) | b[i];
			s->A[s->pos / 8] ^= v;
			s->pos += 8; b += 8; n -= 8;
			if (s->pos == 136) { ref_keccak_f(s->A); s->pos = 0; }
		} else { ref_sp_byte(s, *b++); n--; }
	}
}
static inline void ref_sp_finish(struct ref_sponge *s, uint8_t pad, uint8_t *out, size_t n)
{
	size_t i, o = 0;
	s->A[s->pos / 8] ^= (uint64_t)pad << (8 * (s->pos % 8));
	s->A[16] ^= 0x8000000000000000ULL;
	ref_keccak_f(s->A);
	while (n) {
		for (i = 0; i < 136 && n; i++, n--) out[o++] = (uint8_t)(s->A[i/8] >> (8 * (i % 8)));
		if (n) ref_keccak_f(s->A);
	}
}
/* ---------------- XDRBG-256 (seed/reseed/generate, empty alpha) ---------------- */
struct ref_xdrbg { struct ref_sponge seed; int seeded; uint8_t V[64]; };
static inline void ref_xd_init(struct ref_xdrbg *x) { memset(x, 0, sizeof(*x)); }
static inline void ref_xd_input(struct ref_xdrbg *x, const void *p, size_t n) { ref_sp_absorb(&x->seed, p, n); }
static inline void ref_xd_generate(struct ref_xdrbg *x, uint8_t out[32])
{
	uint8_t T[96], enc = x->seeded ? 85 : 0, V[64];
	struct ref_sponge s = x->seed;
	ref_sp_byte(&s, enc);
	ref_sp_finish(&s, 0x1f, V, 64);
	ref_sp_init(&s);
	ref_sp_absorb(&s, V, 64);
	ref_sp_byte(&s, 170);
	ref_sp_finish(&s, 0x1f, T, 96);
	memcpy(x->V, T, 64);
	memcpy(out, T + 64, 32);
	x->seeded = 1;
	ref_sp_init(&x->seed);
	ref_sp_absorb(&x->seed, x->V, 64);
}
/* ---------------- health tests ---------------- */
#define RF_RCT 1u
#define RF_APT 2u
#define RF_LAG 4u
#define RF_RM 8u
#define RF_P(x) ((x) << 16)
struct ref_health {
	unsigned osr; int ntg1;
	unsigned rct, rct_c, rct_p;
	int apt_open; uint64_t apt_base; unsigned apt_n, apt_obs, apt_c, apt_p;
	uint64_t d[8]; unsigned score[8], best, lobs, lsucc, lrun;
	unsigned lg, lgp, ll, llp;
	unsigned rm_pos, rm_win, rm_n, rm_c, rm_p; int in_rec;
	unsigned fail;
};
static inline void ref_h_restart(struct ref_health *h, unsigned osr, int ntg1)
{
	h->osr = osr; h->ntg1 = ntg1;
	h->rct = 0;
	h->rct_c = ntg1 ? REF_RCT_NTG1[osr] : REF_RCT[osr];
	h->rct_p = ntg1 ? REF_RCT_NTG1_P[osr] : REF_RCT_P[osr];
	h->apt_c = ntg1 ? REF_APT_NTG1[osr] : REF_APT[osr];
	h->apt_p = ntg1 ? REF_APT_NTG1_P[osr] : REF_APT_P[osr];
	h->rm_c = ntg1 ? REF_RM_NTG1[osr] : REF_RM[osr];
	h->rm_p = ntg1 ? REF_RM_NTG1_P[osr] : REF_RM_P[osr];
	h->lg = REF_LAGG[osr]; h->lgp = REF_LAGG_P[osr];
	h->ll = REF_LAGL[osr]; h->llp = REF_LAGL_P[osr];
}
/* returns stuck; recovery() runs the RCT-with-memory recovery rounds */
static int ref_h_insert(struct ref_health *h, uint64_t v, void (*recovery)(void *), void *arg)
{
	uint64_t d2 = v - h->d[0], d2p = h->d[0] - h->d[1];
	int stuck = v == 0 || d2 == 0 || d2 == d2p, i;

	/* adaptive proportion, window 512 including the reference sample */
	if (!h->apt_open) { h->apt_open = 1; h->apt_base = v; h->apt_n = 1; h->apt_obs = 1; }
	else {
		if (v == h->apt_base) {
			h->apt_n++;
			if (h->apt_n >= h->apt_p) h->fail |= RF_P(RF_APT);
			else if (h->apt_n == h->apt_c) h->fail |= RF_APT;
		}
		if (++h->apt_obs >= 512) h->apt_open = 0;
	}
	/* lag predictor: 8 lags, window 2^17 */
	if (h->lobs >= 8) {
		if (h->d[h->best] == v) {
			h->lsucc++; h->lrun++;
			if (h->lrun >= h->llp || h->lsucc >= h->lgp) h->fail |= RF_P(RF_LAG);
			else if (h->lrun >= h->ll || h->lsucc >= h->lg) h->fail |= RF_LAG;
		} else h->lrun = 0;
		for (i = 0; i < 8; i++)
			if (h->d[i] == v && ++h->score[i] > h->score[h->best]) h->best = (unsigned)i;
	}
	memmove(h->d + 1, h->d, 7 * sizeof(h->d[0]));
	h->d[0] = v;
	h->lobs++;
	if (h->lobs >= (1u << 17)) {
		memset(h->d, 0, sizeof(h->d)); memset(h->score, 0, sizeof(h->score));
		h->best = h->lobs = h->lsucc = h->lrun = 0;
	}
	/* repetition count over stuck verdicts */
	if (stuck) {
		h->rct++;
		if (h->rct >= h->rct_p) h->fail |= RF_P(RF_RCT);
		else if (h->rct == h->rct_c) h->fail |= RF_RCT;
	} else h->rct = 0;
	/* repetition count with memory: every third sample of the block window */
	if (h->rm_pos == 0) h->rm_n = 0;
	if (stuck && h->rm_pos < h->rm_win && h->rm_pos % 3 == 0) h->rm_n++;
	if (h->rm_n >= h->rm_p) { if (h->rm_pos < h->rm_win) h->fail |= RF_P(RF_RM); }
	else if (h->rm_n == h->rm_c) {
		if (!h->in_rec) {
			h->rm_n = 0; h->in_rec = 1;
			if (recovery) recovery(arg);
			h->in_rec = 0;
		} else if (h->rm_pos < h->rm_win) h->fail |= RF_RM;
	}
	if (h->rm_pos < h->rm_win) h->rm_pos++;
	return stuck;
}
#endif
