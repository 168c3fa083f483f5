/* Conditioning monitor: SHA3-256 / SHAKE256 / XDRBG-256 of the library against
 * the independent implementation in ref.h, arbitrary lengths and chunkings. */
#include "vf.h"
#include "ref.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-sha3.h"

static uint8_t msg[8192];
static size_t rlen(void)
{
	static const size_t e[] = { 0, 1, 7, 8, 9, 63, 64, 127, 128, 134, 135, 136, 137, 143, 144, 271, 272, 273, 408, 1360 };
	switch (vf_below(4)) {
	case 0: return e[vf_below(20)];
	case 1: return vf_below(140);
	case 2: return vf_below(700);
	default: return vf_below(vf_chance(1, 3) ? sizeof(msg) : 4096);
	}
}
static void feed(struct jent_sha_ctx *c, const uint8_t *m, size_t n)
{
	/* any split, from any alignment, including empty pieces */
	static uint8_t shift[8192 + 16];
	size_t o = 0;
	int mode = (int)vf_below(5); size_t lead = vf_chance(1, 2) ? 64 : 0;
	while (o < n) {
		size_t k = mode == 0 ? n - o : mode == 1 ? 1 : mode == 2 ? vf_below(20) : vf_below(300);
		unsigned al = (unsigned)vf_below(9);
		if (mode == 4) k = vf_chance(1, 2) ? 136 - (o + lead) % 136 : vf_below(300);	/* up to a block boundary */
		if (k > n - o) k = n - o;
		memcpy(shift + al, m + o, k);
		jent_sha3_update(c, shift + al, k);
		o += k;
		vf_count("update_calls", 1);
	}
	if (vf_chance(1, 4)) jent_sha3_update(c, msg, 0);
}
static void run(void)
{
	int it, n = vf_thorough ? 400 : 120;
	struct jent_sha_ctx c;
	struct ref_sponge s;
	uint8_t out[160], exp[160];
	size_t i;
	for (it = 0; it < n; it++) {
		size_t l = rlen();
		for (i = 0; i < l; i++) msg[i] = (uint8_t)vf_rnd();
		if (vf_chance(1, 10)) memset(msg, vf_chance(1, 2) ? 0 : 255, l);
		switch (vf_below(3)) {
		case 0: /* digest */
			vf_describe("sha3-256 len %zu; ", l);
			memset(&c, (int)vf_below(256), sizeof(c));
			jent_sha3_256_init(&c);
			feed(&c, msg, l);
			memset(out, 0x5a, sizeof(out));
			jent_sha3_final(&c, out + 8);
			ref_sp_init(&s); ref_sp_absorb(&s, msg, l); ref_sp_finish(&s, 0x06, exp, 32);
			if (memcmp(out + 8, exp, 32)) vf_fail("sha3-256", "digest of a %zu byte message differs from FIPS 202", l);
			for (i = 0; i < 8; i++) if (out[i] != 0x5a || out[40 + i] != 0x5a) vf_fail("overrun", "digest written outside its 32 bytes");
			vf_count("digests", 1); vf_state(l);
			break;
		case 1: { /* extendable output */
			unsigned ds = 8 * (unsigned)vf_range(1, 17);	/* the squeeze is specified for whole words up to the rate */
			memset(&c, (int)vf_below(256), sizeof(c));
			jent_shake256_init(&c);
			feed(&c, msg, l);
			jent_shake256_set_digestsize(&c, ds);
			memset(out, 0x5a, sizeof(out));
			jent_sha3_final(&c, out + 8);
			ref_sp_init(&s); ref_sp_absorb(&s, msg, l); ref_sp_finish(&s, 0x1f, exp, ds);
			if (memcmp(out + 8, exp, ds)) vf_fail("shake256", "%u byte output of a %zu byte message differs from FIPS 202", ds, l);
			for (i = 0; i < 8; i++) if (out[i] != 0x5a || out[8 + ds + i] != 0x5a) vf_fail("overrun", "output written outside its %u bytes", ds);
			vf_count("xof_outputs", 1); vf_state(0x10000 + l * 200 + ds);
			break; }
		case 2: { /* XDRBG life: seed, generate, reseed ... */
			struct ref_xdrbg x;
			int g, ng = (int)vf_range(1, 6);
			void *hs = NULL;
			if (jent_sha3_alloc(&hs, 0)) vf_inconclusive("no memory");
			jent_shake256_init(hs);
			ref_xd_init(&x);
			for (g = 0; g < ng; g++) {
				uint8_t o[32 + 16], e[32];
				size_t ol = vf_chance(1, 3) ? 32 : vf_range(1, 32);
				l = rlen();
				for (i = 0; i < l; i++) msg[i] = (uint8_t)vf_rnd();
				feed(hs, msg, l);
				ref_xd_input(&x, msg, l);
				memset(o, 0x5a, sizeof(o));
				jent_drbg_generate_block(hs, o + 8, ol);
				ref_xd_generate(&x, e);
				if (memcmp(o + 8, e, ol)) vf_fail("xdrbg", "generation %d (%zu bytes, %zu bytes of input) differs from XDRBG-256", g, ol, l);
				for (i = 0; i < 8; i++) if (o[i] != 0x5a || o[8 + ol + i] != 0x5a) vf_fail("overrun", "generation wrote outside its %zu bytes", ol);
				vf_count("generations", 1); vf_state(0x2000000 + (l % 136) * 4096 + ol * 64 + (unsigned)g);
			}
			jent_sha3_dealloc(hs);
			break; }
		}
	}
	if (jent_sha3_tester()) vf_fail("kat", "built-in known-answer test fails");
}
int main(int argc, char **argv) { return vf_main(argc, argv, run); }
