/* Health-test monitor: long delta sequences through the library's tests, every
 * verdict compared sample by sample with the definitions in ref.h. */
#include "vf.h"
#include "ref.h"
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
#include "jitterentropy-health.h"
#include "jitterentropy-noise.h"

static struct rand_data ec;
static struct ref_health h;
static uint64_t ts, gcdv, prevD, inserted, failures, resets, recov;
/* deltas the recovery rounds of the library consumed, for the reference to replay */
static uint64_t *sub; static size_t nsub, psub, capsub;
static int sub_kind; static uint64_t sub_a; static unsigned sub_len;

static uint64_t gen_sub(void)
{
	switch (sub_kind) {
	case 0: prevD = 20 + vf_below(5000); break;			/* healthy */
	case 1: if (vf_below(100) >= sub_a) prevD = 20 + vf_below(5000); break;	/* stuck in a share */
	default: break;							/* fully stuck */
	}
	return prevD;
}
void __wrap_jent_random_data(struct rand_data *e);
void __wrap_jent_random_data(struct rand_data *e)
{
	unsigned i;
	e->rct_mem_ctr = 0;
	e->rct_mem_nosr = (sub_len + 2) / 3 * 3;
	for (i = 0; i < sub_len; i++) {
		uint64_t d = gen_sub();
		if (nsub == capsub) { capsub = capsub ? capsub * 2 : 65536; sub = realloc(sub, capsub * 8); if (!sub) vf_inconclusive("oom"); }
		sub[nsub++] = d;
		ts += d * gcdv;
		jent_health_insert_timestamp(e, ts);
	}
}
static void ref_recovery(void *arg)
{
	int r; unsigned i;
	(void)arg;
	recov++;
	for (r = 0; r < 10; r++) {
		h.rm_pos = 0; h.rm_win = (sub_len + 2) / 3 * 3;
		for (i = 0; i < sub_len; i++) {
			if (psub >= nsub) vf_fail("rct-mem-recovery", "sample %llu: the recovery round of the memory test was not run in full", (unsigned long long)inserted);
			ref_h_insert(&h, sub[psub++], ref_recovery, NULL);
		}
	}
}
static uint64_t masks_seen[8]; static int nmasks;
static void feed(uint64_t d)
{
	unsigned st, est, m;
	nsub = psub = 0;
	prevD = d;
	ts += d * gcdv;
	st = jent_health_insert_timestamp(&ec, ts);
	est = (unsigned)ref_h_insert(&h, d, ref_recovery, NULL);
	inserted++;
	if (psub != nsub) vf_fail("rct-mem-recovery", "sample %llu: a recovery round ran that the memory test does not call for", (unsigned long long)inserted);
	if (!!st != !!est) vf_fail("stuck", "sample %llu (delta %llu): classified %s, its derivatives say %s", (unsigned long long)inserted, (unsigned long long)d, st ? "stuck" : "good", est ? "stuck" : "good");
	m = jent_health_failure(&ec);
	if (m != h.fail) vf_fail("verdict", "sample %llu: health verdict %#x, definition gives %#x (osr %u, ntg1 %d)", (unsigned long long)inserted, m, h.fail, h.osr, h.ntg1);
	if (m) {
		vf_state(vf_mix(m, h.osr * 2 + (unsigned)h.ntg1));
		if (nmasks < 8 && (!nmasks || masks_seen[nmasks - 1] != m)) masks_seen[nmasks++] = m;
	}
}
static void forget(void) { if (h.fail) failures++; ec.health_failure = 0; h.fail = 0; nmasks = 0; }
static void restart(void)
{
	resets++;
	jent_health_init(&ec, h.ntg1 ? jent_health_init_type_ntg1 : jent_health_init_type_common);
	ref_h_restart(&h, h.osr, h.ntg1);
}
static uint64_t good(void) { return 20 + vf_below(100000); }
static unsigned near(unsigned c) { int j = (int)vf_below(7) - 3; return (int)c + j > 0 ? (unsigned)((int)c + j) : 1; }
static void window(void) { unsigned n = 321 * h.osr; ec.rct_mem_ctr = 0; ec.rct_mem_nosr = (n + 2) / 3 * 3; h.rm_pos = 0; h.rm_win = (n + 2) / 3 * 3; }
static void run(void)
{
	uint64_t budget = vf_thorough ? 1200000 : 350000, i, n;
	unsigned osr = (unsigned)vf_range(3, 20);
	if (vf_chance(1, 2)) osr = (unsigned)vf_range(3, 7);
	memset(&ec, 0, sizeof(ec)); memset(&h, 0, sizeof(h));
	h.ntg1 = (int)vf_below(2); h.osr = osr;
	ec.osr = osr; ec.is_fips_enabled = 1;
	gcdv = vf_chance(1, 2) ? 1 : vf_range(1, 1000);
	ec.jent_common_timer_gcd = (gcdv == 1 && vf_chance(1, 2)) ? 0 : gcdv;
	ec.prev_time = ts = vf_rnd();
	restart();
	vf_describe("osr=%u ntg1=%d gcd=%llu", osr, h.ntg1, (unsigned long long)gcdv);
	sub_kind = 0; sub_len = 50;
	while (inserted < budget) {
		int k = (int)vf_below(15);
		uint64_t a = good(), b = 1 + vf_below(50), pat[12];
		for (i = 0; i < 12; i++) pat[i] = good() + i * 200000;
		switch (k) {
		case 0: n = vf_below(700); for (i = 0; i < n; i++) feed(good()); break;
		case 1: n = near(vf_chance(1, 2) ? h.rct_c : h.rct_p); for (i = 0; i <= n; i++) feed(a); feed(good()); break;
		case 2: n = near(vf_chance(1, 2) ? h.rct_c : h.rct_p); for (i = 0; i <= n + 1; i++) feed(a + i * b); feed(good()); break;
		case 3: n = near(vf_chance(1, 2) ? h.rct_c : h.rct_p); for (i = 0; i < n; i++) feed(0); feed(good()); break;
		case 4: /* periodic, run length around the local lag cutoffs */
			n = near(vf_chance(1, 2) ? h.ll : h.llp); { unsigned p = (unsigned)vf_range(1, 10); for (i = 0; i < n + p; i++) feed(pat[i % p]); } feed(good()); break;
		case 5: case 6: { /* adaptive proportion around the cutoffs, aligned or not with the window */
			unsigned want = near(vf_chance(1, 2) ? h.apt_c : h.apt_p), tot = 512;
			if (vf_chance(1, 3)) tot = (unsigned)vf_range(300, 1100);
			if (vf_chance(1, 2)) { while (h.apt_open) feed(good()); }
			if (vf_chance(1, 2)) feed(good());
			for (i = 0; i < tot; i++) feed(vf_below(tot) < want || i < 1 ? a : good());
			break; }
		case 7: { /* alternating: exact count, no repetition */
			unsigned want = near(vf_chance(1, 2) ? h.apt_c : h.apt_p), g = 0;
			while (h.apt_open) feed(good());
			for (i = 0; i < 512; i++) { if (g < want && (512 - i <= want - g || vf_below(512) < want + 20)) { feed(a); g++; } else feed(good()); }
			break; }
		case 8: n = vf_below(3000); { unsigned m = 1 + (unsigned)vf_below(5); for (i = 0; i < n; i++) feed(pat[vf_below(m)]); } break;
		case 9: n = vf_below(400); for (i = 0; i < n; i++) feed(vf_rnd() / gcdv >> vf_below(30)); break;
		case 10: { /* fill the whole lag window with well-predicted data whose runs stay short */
			unsigned p = (unsigned)vf_range(2, 8), brk = (unsigned)vf_range(h.ll / 2 + 2, h.ll + 2);
			if (!vf_chance(1, 4)) break;
			n = vf_range(100000, 140000);
			for (i = 0; i < n; i++) { feed(i % brk == brk - 1 ? good() + 5000000 : pat[i % p]);
				if (h.fail && i % 4096 == 0) forget(); }
			vf_count("lag_windows", 1);
			break; }
		case 11: case 12: { /* memory test: stuck share over a block window */
			unsigned w = 321 * osr, share = (unsigned)vf_range(5, 100), ph = (unsigned)vf_below(4);
			sub_kind = (int)vf_below(3); sub_a = vf_range(10, 100); sub_len = (unsigned)vf_range(1, vf_chance(1, 2) ? 60 : 321 * osr + 3);
			if (sub_kind == 0 && vf_chance(1, 2)) sub_len = (unsigned)vf_range(1, 60);
			window();
			for (i = 0; i < w; i++) feed(ph < 3 ? (i % 3 == ph ? prevD : good()) : (vf_below(100) < share ? prevD : good()));
			n = vf_below(50);
			for (i = 0; i < n; i++) feed(vf_chance(1, 2) ? prevD : good());
			vf_count("block_windows", 1);
			break; }
		case 14: { /* deltas that differ in a single bit are different, in whichever bit */
			uint64_t x = a ^ (UINT64_C(1) << (gcdv == 1 && vf_chance(1, 6) ? 63 : vf_below(gcdv == 1 ? 64 : 50))); unsigned want = near(vf_chance(1, 2) ? h.apt_c : h.apt_p);
			while (h.apt_open) feed(good());
			for (i = 0; i < 512; i++) feed(i < 1 || vf_below(512) < want ? a : x);
			vf_count("single_bit_windows", 1);
			break; }
		case 13: restart(); if (vf_chance(1, 2)) window(); break;
		}
		vf_state(vf_mix(0x55aa + (unsigned)k, h.fail));
		if (vf_chance(3, 4)) forget();
	}
	vf_count("deltas", inserted); vf_count("failures_raised", failures); vf_count("restarts", resets); vf_count("memory_rct_recoveries", recov);
}
int main(int argc, char **argv) { return vf_main(argc, argv, run); }
