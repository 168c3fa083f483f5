/* Model-based monitor: drives the real library with a scripted timer and
 * checks every observable against the executable specification in sim.h. */
#include "sim.h"
#include <unistd.h>

static const unsigned hlv[] = { 0, 1, 1, 2, 3, 4, 5, 6, 7, 8 };
static unsigned rnd_flags(int mode)
{
	/* mode 0: any, 1: compliance, 2: plain */
	unsigned f = JENT_DISABLE_INTERNAL_TIMER, m;
	if (mode == 1 || (mode == 0 && vf_chance(1, 2))) {
		switch (vf_below(3)) {
		case 0: f |= JENT_FORCE_FIPS; break;
		case 1: f |= JENT_NTG1; break;
		case 2: f |= JENT_NTG1 | JENT_FORCE_FIPS; break;
		}
		if ((f & JENT_NTG1) && vf_chance(1, 2)) f &= ~(unsigned)JENT_DISABLE_INTERNAL_TIMER;
	}
#ifdef VF_PROD
	if (vf_chance(1, 2)) f &= ~(unsigned)JENT_DISABLE_INTERNAL_TIMER;	/* nothing to disable in this build */
#endif
	m = (unsigned)vf_below(4);
	if (m == 1) f |= (unsigned)vf_range(1, 9) << 27;
	if (m == 2) f |= (unsigned)vf_range(9, 11) << 27;
	if (vf_chance(1, 4)) f |= (unsigned)vf_range(1, 3) << 24;
	if (vf_chance(1, 6)) f |= JENT_CACHE_ALL & 0;	/* cache geometry is exercised elsewhere */
	if (vf_chance(1, 5)) f |= JENT_FORCE_SECURE_MEM;
	if (mode != 1 && !(f & (JENT_NTG1 | JENT_FORCE_FIPS)) && !sim_sysfips && vf_chance(1, 4)) f |= JENT_DISABLE_MEMORY_ACCESS;
	return f;
}
static void add_seg(enum seg_t t, uint64_t len, uint64_t a, uint64_t b, uint64_t c)
{
	struct seg *s;
	unsigned i;
	if (nsegs >= 64) return;
	s = &segs[nsegs++];
	s->t = t; s->len = len; s->a = a; s->b = b; s->c = c;
	for (i = 0; i < 16; i++) s->pat[i] = 30 + vf_below(900) + i * 1000;
}
static void good(uint64_t len) { add_seg(SG_GOOD, len, 0, 0, 0); }
/* a disturbance whose length straddles a cutoff of the given osr */
static void disturb(unsigned osr, int ntg1)
{
	static const int near[] = { -3, -2, -1, -1, 0, 0, 1, 2, 40 };
	int j = near[vf_below(9)];
	unsigned perm = vf_chance(1, 4);
	unsigned rct = perm ? (ntg1 ? REF_RCT_NTG1_P[osr] : REF_RCT_P[osr]) : (ntg1 ? REF_RCT_NTG1[osr] : REF_RCT[osr]);
	unsigned apt = perm ? (ntg1 ? REF_APT_NTG1_P[osr] : REF_APT_P[osr]) : (ntg1 ? REF_APT_NTG1[osr] : REF_APT[osr]);
	unsigned ll = perm ? REF_LAGL_P[osr] : REF_LAGL[osr];
	uint64_t n;
	switch (vf_below(12)) {
	case 0: n = rct + (unsigned)j + 1; add_seg(SG_CONST, n, vf_range(20, 5000), 0, 0); break;
	case 1: n = rct + (unsigned)j + 2; add_seg(SG_ARITH, n, vf_range(1, 60), vf_range(20, 5000), 0); break;
	case 2: n = rct + (unsigned)j; add_seg(SG_ZERO, n, 0, 0, 0); break;
	case 3: n = ll + (unsigned)j + 9; add_seg(SG_PERIOD, n, vf_range(3, 8), 0, 0); break;
	case 4: add_seg(SG_APTMIX, apt + apt / 2 + 40, vf_range(20, 5000), vf_range(1, 3), 0); break;
	case 5: add_seg(SG_APTMIX, vf_range(300, 1200), vf_range(20, 5000), vf_range(2, 5), 0); break;
	case 6: add_seg(SG_EVERY3, vf_range(100, 321 * osr + 400), vf_below(3), 0, 0); break;
	case 7: add_seg(SG_PSTUCK, vf_range(300, 3000), vf_range(50, 950), 0, 0); break;
	case 8: add_seg(SG_STUCKMIX, vf_range(300, 3000), vf_below(400), vf_below(400), vf_below(50)); break;
	case 9: add_seg(SG_FEW, vf_range(300, 4000), vf_range(1, 6), 0, 0); break;
	case 10: add_seg(SG_BIG, vf_range(50, 1000), vf_range(0, 40), 0, 0); break;
	case 11: add_seg(SG_NEG, vf_range(5, 300), 0, 0, 0); break;
	}
}
static void install_cb(void)
{
	if (vf_chance(3, 4)) {
		if (jent_set_fips_failure_callback(model_cb)) vf_fail("callback-config", "callback registration before any initialisation refused");
		sim_cb_set = 1;
	}
}
static unsigned small_osr(void)
{
	static const unsigned o[] = { 0, 1, 2, 3, 3, 3, 4, 5, 6, 7, 8, 10, 12, 15, 18, 19, 20 };
	return o[vf_below(17)];
}
static size_t rnd_len(void)
{
	static const size_t l[] = { 1, 2, 8, 31, 32, 33, 48, 63, 64, 65, 96, 100, 128 };
	return vf_chance(1, 20) ? 0 : l[vf_below(13)];
}
static void describe(unsigned osr, unsigned flags)
{
	char b[256]; int i, n = 0;
	b[0] = 0;
	for (i = 0; i < nsegs && n < 200; i++) n += snprintf(b + n, sizeof(b) - (size_t)n, " %d:%llu", segs[i].t, (unsigned long long)segs[i].len);
	vf_describe("osr=%u flags=%#x sysfips=%d cb=%d timer segments(type:len)=%s", osr, flags, sim_sysfips, sim_cb_set, b);
}
static void config(unsigned osr, unsigned flags)
{
	(void)osr;
	t_nomem = !!(flags & JENT_DISABLE_MEMORY_ACCESS);
	t_jit = vf_chance(1, 2);
	t_goodspan = vf_chance(1, 4) ? (1u << vf_range(8, 20)) : 4096;
	if (t_scale == 1 && vf_chance(1, 5)) t_scale = vf_chance(1, 2) ? 1u << vf_range(1, 12) : vf_range(2, 20000);
}

/* C01: disturbances while data is being requested */
static void p_gate(void)
{
	struct inst in; unsigned osr = small_osr(), eo, flags; int i, nops, plain;
	if (vf_chance(2, 3)) osr = (unsigned)vf_range(3, 5);
	sim_sysfips = vf_chance(1, 8);
	plain = vf_chance(1, 5);
	if (plain) sim_sysfips = 0;
	flags = rnd_flags(plain ? 2 : 1);
	if (!plain && sim_sysfips && vf_chance(1, 2)) flags &= ~(unsigned)(JENT_NTG1 | JENT_FORCE_FIPS), flags |= JENT_DISABLE_INTERNAL_TIMER;
	install_cb();
	eo = osr < 3 ? 3 : osr;
	/* pass start-up undisturbed, then alternate */
	good(1125 + (vf_chance(1, 10) ? vf_below(2000) : 0));
	config(osr, flags);
	timer_start();
	describe(osr, flags);
	if (do_init_ex(osr, flags)) return;
	nsegs = cseg = 0; segpos = 0;
	if (!do_alloc(&in, osr, flags)) return;
	nops = (int)vf_range(3, 6);
	for (i = 0; i < nops; i++) {
		nsegs = cseg = 0; segpos = 0;
		good(vf_below(321 * eo));
		if (vf_chance(4, 5)) disturb(in.c->osr, in.c->ntg1);
		if (vf_chance(1, 3)) { good(vf_below(200)); disturb(in.c->osr, in.c->ntg1); }
		describe(osr, flags);
		if (vf_chance(1, 8)) {
			/* any combination of recorded failures, also ones real measurements hardly produce together */
			static const unsigned bits[] = { RF_RCT, RF_APT, RF_LAG, RF_RM, RF_P(RF_RCT), RF_P(RF_APT), RF_P(RF_LAG), RF_P(RF_RM) };
			unsigned m = bits[vf_below(8)], k;
			for (k = (unsigned)vf_below(3); k; k--) m |= bits[vf_below(8)];
			in.ec->health_failure |= m; in.c->h.fail |= m;
			vf_count("placed_failures", 1);
			if (vf_chance(1, 2)) { nsegs = cseg = 0; segpos = 0; }
		}
		do_read(&in, rnd_len(), vf_chance(2, 5));
		if (!in.ec) return;
	}
	do_free(&in);
}
/* C02: a lag window filled with predictable samples up to the global cutoffs, across recovery */
static void p_lagwin(void)
{
	struct inst in; unsigned osr = 3 + (vf_chance(1, 5) ? 1 : 0), flags = JENT_DISABLE_INTERNAL_TIMER | (vf_chance(1, 4) ? JENT_NTG1 : JENT_FORCE_FIPS); int i;
	flags |= (unsigned)vf_range(1, 9) << 27;
	install_cb();
	config(osr, flags);
	timer_start();
	describe(osr, flags);
	if (do_init_ex(osr, flags) || !do_alloc(&in, osr, flags)) return;
	for (i = 0; i < 3; i++) {
		nsegs = cseg = 0; segpos = 0;
		good(vf_below(3000));
		add_seg(SG_LAGRUN, i ? vf_range(3000, 40000) : vf_range(104000, 140000), vf_range(4, 7), vf_range(60, REF_LAGL[osr] - 2), 0);
		describe(osr, flags);
		do_read(&in, i ? vf_range(64, 1024) : 5000, vf_chance(3, 4));
		if (!in.ec || s_unsim) return;
	}
	do_free(&in);
}
/* C03: noise accounting with mostly good timers */
static void p_noise(void)
{
	struct inst in; unsigned osr = small_osr(), flags; int i;
	sim_sysfips = vf_chance(1, 6);
	flags = rnd_flags(0);
	if (vf_chance(1, 2)) install_cb();
	config(osr, flags);
	if (vf_chance(1, 3)) add_seg(SG_PSTUCK, 100000000, vf_range(1, 100), 0, 0);
	timer_start();
	describe(osr, flags);
	if (!vf_chance(1, 4) && do_init_ex(osr, flags)) return;
	if (!do_alloc(&in, osr, flags)) return;
	for (i = 0; i < (int)vf_range(1, 4); i++) {
		if (vf_chance(1, 2)) { nsegs = cseg = 0; segpos = 0; add_seg(SG_PSTUCK, 100000000, vf_range(1, 250), 0, 0); }
		if (vf_chance(1, 6)) place_counters(&in);
		do_read(&in, vf_chance(1, 8) ? vf_range(129, 400) : rnd_len(), vf_chance(1, 3));
		if (!in.ec) return;
	}
	do_free(&in);
}
/* large requests: whatever holds for the first blocks of a request holds for all of them */
static void p_long(void)
{
	static const size_t L[] = { 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000 };
	struct inst in; unsigned osr = vf_chance(3, 4) ? (unsigned)vf_below(4) : (unsigned)vf_range(4, 8), flags; size_t len; uint64_t samples; int huge = vf_idx % 24 == 7;
	sim_sysfips = vf_chance(1, 6);
	flags = (rnd_flags(0) & 0x07ffffffu) | (unsigned)vf_range(1, 3) << 27;
	if (huge) { osr = 3; flags &= ~(7u << 24); }
	if (vf_chance(1, 2)) install_cb();
	config(osr, flags);
	timer_start();
	describe(osr, flags);
	if (do_init_ex(osr, flags) || !do_alloc(&in, osr, flags)) return;
	len = huge ? (vf_thorough ? vf_range(32768, 131073) : vf_chance(1, 3) ? 65535 + vf_below(3) : vf_range(8192, 70000)) : vf_chance(1, 2) ? L[vf_below(17)] : vf_range(129, 8300);
	samples = (len + 31) / 32 * 321 * in.c->osr;
	if (vf_chance(1, 2)) { nsegs = cseg = 0; segpos = 0; good(vf_chance(1, 3) ? samples * 9 / 10 + vf_below(samples / 8) : vf_below(samples)); disturb(in.c->osr, in.c->ntg1); if (vf_chance(1, 3)) { good(vf_below(samples)); disturb(in.c->osr, in.c->ntg1); } }
	else if (vf_chance(1, 2)) { nsegs = cseg = 0; segpos = 0; add_seg(SG_PSTUCK, 100000000, vf_range(1, 200), 0, 0); }
	if (vf_chance(1, 6)) place_counters(&in);
	describe(osr, flags);
	do_read(&in, len, vf_chance(1, 3));
	vf_count("long_reads", 1); vf_count("long_read_bytes", len);
	if (!in.ec || s_unsim) return;
	nsegs = cseg = 0; segpos = 0;
	do_read(&in, rnd_len(), 0);
	if (in.ec) do_free(&in);
}
/* C05: every class of unusable timer at start-up, and sequences of attempts */
static unsigned bt_osr;
/* two values, changing exactly k times over the 1024 judged measurements */
static void exact_variation(unsigned k)
{
	static uint8_t tog[1024];
	uint64_t base = vf_range(30, 5000);
	unsigned i, n = 0, cur = 0;
	memset(tog, 0, sizeof(tog));
	if (k > 1023) k = 1023;
	while (n < k) { unsigned p = (unsigned)vf_range(1, 1023); if (!tog[p]) { tog[p] = 1; n++; } }
	for (i = 0; i < 1400; i++) {
		if (i < 101) cur ^= (unsigned)vf_below(2);
		else if (i < 101 + 1024 && tog[i - 101]) cur ^= 1;
		t_varseq[i] = base + cur;
	}
	nsegs = cseg = 0; segpos = 0;
	add_seg(SG_VAR, 1125, 0, 0, 0);
}
/* exactly k of the 1024 judged measurements repeat the one before */
static void exact_stuck(unsigned k)
{
	unsigned i, fresh = 1024 - k, acc = (unsigned)vf_below(1024);
	uint64_t v = vf_range(30, 5000);
	for (i = 0; i < 1400; i++) {
		if (i < 101) v = good_delta();
		else if (i < 1125) { acc += fresh; if (acc >= 1024) { acc -= 1024; v = 6000 + i * 700 + vf_below(600); } }
		t_varseq[i] = v;
	}
	nsegs = cseg = 0; segpos = 0;
	add_seg(SG_VAR, 1125, 0, 0, 0);
}
static void bad_timer(void)
{
	nsegs = cseg = 0; segpos = 0;
	if (!s_gcd_set && vf_chance(1, 2)) t_scale = 1;
	if (vf_chance(1, 3)) good(vf_below(1125));
	switch (vf_below(16)) {
	case 15: exact_stuck((unsigned)vf_range(919, 924)); vf_count("exact_stuck_timers", 1); break;
	case 13: case 14: { unsigned o = bt_osr < 3 ? 3 : bt_osr > 20 ? 20 : bt_osr; exact_variation((1024 + o - 1) / o + (unsigned)vf_below(4) - 2); vf_count("exact_variation_timers", 1); break; }
	case 0: add_seg(SG_ZT, vf_chance(1, 2) ? 1 : 3000, 0, 0, 0); break;
	case 1: add_seg(SG_ZERO, vf_range(1, 2000), 0, 0, 0); break;
	case 2: add_seg(SG_CONST, vf_range(1, 3000), vf_range(1, 5000), 0, 0); break;
	case 3: add_seg(SG_ARITH, vf_range(1, 3000), vf_range(1, 9), vf_range(20, 5000), 0); break;
	case 4: add_seg(SG_NEG1, 3000, vf_range(1, 12), 0, 0); break;
	case 5: add_seg(SG_NEG, vf_range(1, 8), 0, 0, 0); break;
	case 6: add_seg(SG_PERIOD, vf_range(50, 3000), vf_range(2, 10), 0, 0); break;
	case 7: /* a coarse but live timer; permanent, as an established divisor outlives the script */
		if (!s_gcd_set && t_scale == 1) t_scale = vf_chance(1, 2) ? 0x7fffffffu + vf_below(3) - 1 : (1u << vf_range(1, 30));
		break;
	case 8: add_seg(SG_COARSE, 4000, vf_range(1, 100), vf_range(2, 1500), 0); break;
	case 9: add_seg(SG_PSTUCK, 4000, vf_range(300, 980), 0, 0); break;
	case 10: add_seg(SG_EVERY3, 4000, vf_below(3), 0, 0); break;
	case 11: add_seg(SG_STUCKMIX, 4000, vf_range(0, 500), vf_range(0, 500), vf_below(3)); break;
	case 12: add_seg(SG_APTMIX, 4000, vf_range(20, 500), vf_range(1, 8), 0); break;
	}
}
static void p_startup(void)
{
	struct inst in; int i, n = (int)vf_range(2, 6);
	sim_sysfips = vf_chance(1, 6);
	install_cb();
	config(3, 0);
	timer_start();
	if (vf_chance(1, 10)) t_base = t_last = t_off = 0;
	for (i = 0; i < n; i++) {
		unsigned osr = vf_chance(1, 12) ? (unsigned)vf_range(19, 24) : small_osr(), flags = rnd_flags(0);
		int r;
		bt_osr = osr;
		if (vf_chance(3, 4)) bad_timer(); else { nsegs = cseg = 0; segpos = 0; }
		t_nomem = !!(flags & JENT_DISABLE_MEMORY_ACCESS);
		t_r = 0;
		sim_mlock_fail = vf_chance(1, 8) ? (vf_chance(3, 4) ? (vf_chance(1, 2) ? ENOMEM : EAGAIN) : EACCES) : 0;
		describe(osr, flags);
		if (vf_chance(1, 2)) {
			int plain = vf_chance(1, 5);
#ifndef VF_PROD
			/* a refusal would go on to the internal timer, which is not scripted */
			if (nsegs || sim_mlock_fail || !(flags & JENT_DISABLE_INTERNAL_TIMER)) plain = 0;
#endif
			if (plain) { t_nomem = 0; r = do_init(); t_nomem = !!(flags & JENT_DISABLE_MEMORY_ACCESS); vf_count("plain_inits", 1); }
			else { sim_gcd_fail = vf_chance(1, 10); r = do_init_ex(osr, flags); sim_gcd_fail = 0; }
			vf_count(r ? "init_refused" : "init_accepted", 1);
			if (s_unsim) return;
		}
		t_r = 0;
		if (vf_chance(1, 2)) { nsegs = cseg = 0; segpos = 0; sim_mlock_fail = 0; }
		if (vf_chance(2, 3)) {
			int got;
			sim_gcd_fail = vf_chance(1, 10); got = do_alloc(&in, osr, flags); sim_gcd_fail = 0;
			if (got) {
				vf_count("alloc_accepted", 1);
				if (s_unsim) return;
				sim_mlock_fail = 0;
				do_read(&in, vf_range(1, 40), 0);
				do_free(&in);
			} else vf_count("alloc_refused", 1);
		}
		if (s_unsim) return;
	}
}
/* C06: repeated recoverable failures */
static void p_ladder(void)
{
	struct inst in; unsigned osr, flags; int i, n;
	osr = vf_chance(1, 4) ? (unsigned)vf_range(17, 20) : (unsigned)vf_range(0, 8);
	if (!strcmp(vf_profile, "climb")) osr = (unsigned)vf_range(0, 6);
	flags = rnd_flags(1);
	install_cb();
	config(osr, flags);
	timer_start();
	describe(osr, flags);
	if (do_init_ex(osr, flags)) return;
	if (vf_chance(1, 3)) { good(vf_below(400)); disturb(osr < 3 ? 3 : osr, !!(flags & JENT_NTG1)); }
	if (!do_alloc(&in, osr, flags)) return;
	n = !strcmp(vf_profile, "climb") ? 20 : (int)vf_range(2, 5);	/* climb: all the way up */
	for (i = 0; i < n; i++) {
		unsigned o = in.c->osr; int nt = in.c->ntg1, k;
		uint64_t c = nt ? REF_RCT_NTG1[o] : REF_RCT[o];
		nsegs = cseg = 0; segpos = 0;
		good(vf_below(300 * o));
		if (n == 20 || vf_chance(3, 4)) add_seg(SG_CONST, c + 2, vf_range(20, 4000), 0, 0);
		else disturb(o, nt);
		/* further disturbances during the recovery's start-up test, start-up stages and retry */
		for (k = 0; k < (int)vf_below(4) && n != 20; k++) {
			good(vf_chance(1, 2) ? vf_below(1124) : 1124 + vf_below(321 * (o + 1)));
			disturb(o < 20 ? o + 1 : 20, nt);
		}
		if (n != 20 && vf_chance(1, 6)) { good(vf_below(1100)); add_seg(SG_ZERO, vf_chance(1, 2) ? 1 : 40, 0, 0, 0); }
		describe(osr, flags);
		if (vf_chance(1, 8)) place_counters(&in);
		do_read(&in, n == 20 ? vf_range(1, 32) : rnd_len(), n == 20 || vf_chance(5, 6));
		if (!in.ec || s_unsim) return;
		if (n != 20 && vf_chance(1, 10)) { sim_mlock_fail = ENOMEM; nsegs = cseg = 0; segpos = 0; add_seg(SG_CONST, c + 20 + REF_RCT[20], 77, 0, 0); do_read(&in, 33, 1); sim_mlock_fail = 0; }
	}
	vf_count("recoveries", in.c->reinit);
	if (n == 20) vf_count("climbs", 1);
	do_free(&in);
}
/* C06: what the health tests had counted when the collector was replaced still counts afterwards */
static void p_carry(void)
{
	struct inst in; unsigned osr = (unsigned)vf_range(3, vf_chance(1, 4) ? 17 : 5), flags = rnd_flags(1); int i;
	install_cb();
	config(osr, flags);
	timer_start();
	describe(osr, flags);
	if (do_init_ex(osr, flags) || !do_alloc(&in, osr, flags)) return;
	for (i = 0; i < 3 && in.c->osr < 19; i++) {
		unsigned o = in.c->osr; int nt = in.c->ntg1;
		unsigned c = nt ? REF_RCT_NTG1[o] : REF_RCT[o], apt = nt ? REF_APT_NTG1[o] : REF_APT[o];
		nsegs = cseg = 0; segpos = 0; npost = 1;
		switch (vf_below(3)) {
		case 0: {	/* a run of predictable measurements that goes on */
			unsigned l = REF_LAGL[o + 1] - REF_LAGL[o];
			if (vf_chance(1, 4)) l = REF_LAGL_P[o + 1] - REF_LAGL[o];
			good(vf_range(10, 100 * o));
			add_seg(SG_PERIOD, REF_LAGL[o] + vf_range(8, 24), vf_range(3, 8), 0, 0);
			post[0] = segs[nsegs - 1]; post[0].len = l + vf_below(5) - 2;
			break; }
		case 1:		/* the failure falls on the first measurements of a proportion-test window */
			good((512 * 8 - in.c->h.apt_obs - (c + 1) + vf_below(7) - 3) % 512);
			add_seg(SG_CONST, c + 2, vf_range(20, 4000), 0, 0);
			post[0] = segs[nsegs - 1]; post[0].t = SG_APTMIX; post[0].b = vf_range(1, 4);
			post[0].len = vf_chance(1, 2) ? vf_range(1, 30) : vf_range(300, 900);
			break;
		default:	/* a proportion-test failure, and more of the same value */
			good((512 * 8 - in.c->h.apt_obs) % 512);
			add_seg(SG_APTMIX, 512, vf_range(20, 4000), apt < 380 ? 3 : apt < 440 ? vf_range(6, 8) : vf_range(20, 60), 0);
			post[0] = segs[nsegs - 1]; post[0].b = vf_range(1, 4);
			post[0].len = vf_chance(1, 2) ? vf_range(1, 30) : vf_range(100, 600);
			break;
		}
		describe(osr, flags);
		do_read(&in, vf_range(1, 32), 1);
		npost = 0;
		if (!in.ec || s_unsim) return;
	}
	vf_count("recoveries", in.c->reinit);
	do_free(&in);
}
/* C07: known-answer verdicts at arbitrary points; also from the callback */
static struct inst *cb_in;
static struct rand_data *cb_ec;
static int cb_mode;
static void st_callback(struct rand_data *ec, unsigned mask)
{
	model_cb(ec, mask);
	if (cb_mode == 1 && ec == cb_ec && cb_in && cb_in->c) {
		cb_mode = 0;
		sim_kat_fail = 1;
		if (jent_selftest(ec) != EHASH) vf_fail("selftest-verdict", "failing known-answer test reported success");
		s_stf_at = nA;
		vf_count("selftest_failed_during_collection", 1);
	}
}
static void st_other_thread(void)
{
	/* what a self test bound to the instance does when it fails in another thread */
	if (!cb_in || !cb_in->ec) return;
	sim_kat_fail = 1;
	if (jent_selftest(cb_in->ec) != EHASH) vf_fail("selftest-verdict", "failing known-answer test reported success");
	s_stf_at = nA + 1;
	vf_count("selftest_failed_in_flight", 1);
}
static void p_selftest(void)
{
	struct inst in; unsigned osr = (unsigned)vf_range(3, 5), flags; int i, n, failed = 0;
	flags = rnd_flags(0);
	jent_set_fips_failure_callback(st_callback);
	sim_cb_set = 1;
	config(osr, flags);
	timer_start();
	describe(osr, flags);
	if (vf_chance(1, 6)) {
		sim_kat_fail = (int)vf_range(1, 2);
		i = sim_kat_fail;
		while (i--) {
			op_begin("init with failing self test");
			if (jent_entropy_init_ex(osr, flags) != EHASH) vf_fail("selftest-init", "initialisation succeeded although a known-answer test failed");
			op_end(); s_run = 0;
		}
		if (vf_chance(1, 2)) {
			sim_kat_fail = 1;
			op_begin("alloc with failing self test");
			if (jent_entropy_collector_alloc(osr, flags)) vf_fail("selftest-init", "instance allocated although the implied initialisation must fail");
			op_end();
		}
	}
	sim_kat_fail = 0;
	if (!do_alloc(&in, osr, flags)) return;
	cb_in = &in; cb_ec = in.ec;
	n = (int)vf_range(4, 9);
	for (i = 0; i < n; i++) {
		nsegs = cseg = 0; segpos = 0;
		cb_ec = in.ec;
		t_hook = NULL;
		switch (vf_below(6)) {
		case 5:
			if (!vf_chance(1, 2)) break;
			t_hook = st_other_thread; t_hook_at = t_total + vf_below(17 * 322 * in.c->osr * 3);
			if (in.c->fips && vf_chance(1, 3)) { good(vf_below(300)); add_seg(SG_CONST, REF_RCT[in.c->osr] + 2, 99, 0, 0); }
			break;
		case 0:
			sim_kat_fail = 0;
			if (jent_selftest(vf_chance(1, 2) ? in.ec : NULL)) vf_fail("selftest-verdict", "passing known-answer test reported failure");
			break;
		case 1:
			sim_kat_fail = 1;
			if (jent_selftest(NULL) != EHASH) vf_fail("selftest-verdict", "failing known-answer test reported success");
			break;
		case 2:
			if (!vf_chance(1, 2)) break;
			sim_kat_fail = 1;
			if (jent_selftest(in.ec) != EHASH) vf_fail("selftest-verdict", "failing known-answer test reported success");
			in.c->stf = 1; failed = 1;
			break;
		case 3:
			if (in.c->fips && sim_cb_set) {
				good(vf_below(300));
				add_seg(SG_CONST, (in.c->ntg1 ? REF_RCT_NTG1[in.c->osr] : REF_RCT[in.c->osr]) + 2, 99, 0, 0);
				cb_mode = 1;
			}
			break;
		case 4: break;
		}
		do_read(&in, rnd_len(), vf_chance(1, 2));
		cb_mode = 0; sim_kat_fail = 0; t_hook = NULL;
		if (s_unsim || !in.ec) return;
		if (in.c->stf) vf_count("reads_after_failed_selftest", 1);
	}
	(void)failed;
	vf_count("kat_runs", kat_runs);
	do_free(&in);
}
/* C19: a timer that only ticks in multiples of g behaves like the divided timer */
static void p_scale(void)
{
	struct inst in[3]; unsigned osr = (unsigned)vf_range(3, 4), flags = rnd_flags(vf_chance(1, 3) ? 1 : 2); int i;
	static const uint64_t sc[] = { 1, 2, 3, 10, 16, 100, 256, 1000, 4096, 1000000, 0x7ffffffe, 0x7fffffff };
	t_scale = vf_chance(1, 2) ? sc[vf_below(12)] : vf_range(1, 100000);
	config(osr, flags);
	t_goodspan = 1u << vf_range(6, 14);
	if (vf_chance(1, 3)) {
		/* every start-up delta a multiple of k but one or two: the divisor is that of all of them */
		uint64_t k = vf_range(2, 300); unsigned j, p = 101 + (vf_chance(1, 3) ? 0 : vf_chance(1, 2) ? 1023 : (unsigned)vf_below(1024));
		for (j = 0; j < 1400; j++) t_varseq[j] = k * vf_range(3, 900);
		t_varseq[p] += vf_chance(1, 2) ? 1 : vf_range(1, k);
		if (vf_chance(1, 3)) t_varseq[101 + vf_below(1024)] += vf_range(1, k);
		add_seg(SG_VAR, 1125, 0, 0, 0);
		vf_count("single_exception_timers", 1);
	}
	timer_start();
	describe(osr, flags);
	memset(in, 0, sizeof(in));
	while (vf_chance(1, 3)) {
		/* refused (or passed) attempts of every class first */
		uint64_t keep = t_scale;
		bt_osr = osr;
		bad_timer(); t_r = 0;
		describe(osr, flags);
		do_init_ex(osr, flags);
		if (s_unsim) return;
		if (!s_gcd_set) t_scale = keep;
		nsegs = cseg = 0; segpos = 0; t_r = 0;
		vf_count("attempts_before", 1);
	}
	for (i = 0; i < 3; i++) {
		if (do_init_ex(osr, flags) && i == 0) {
			/* refused: no divisor may have been established */
			t_scale = vf_range(1, 50);
			if (do_init_ex(osr, flags)) return;
		}
		if (s_gcd_set && vf_chance(1, 2)) t_scale = s_gcd * vf_range(1, 5);
		if (!do_alloc(&in[i], osr, flags)) continue;
		do_read(&in[i], rnd_len(), 0);
		if (s_gcd) { vf_count("divisor_checks", 1); vf_state(s_gcd); }
	}
	for (i = 0; i < 3; i++) if (in[i].ec) { do_read(&in[i], 32, 0); do_free(&in[i]); }
}
/* C08: configuration honoured or refused */
static void p_config(void)
{
	struct inst in; unsigned osr, flags; int i;
	sim_sysfips = vf_chance(1, 5);
	config(3, 0);
	timer_start();
	for (i = 0; i < 4; i++) {
		static const unsigned os[] = { 0, 1, 2, 3, 4, 19, 20, 21, 22, 255, 256, 0x7fffffff, 0x80000000u, 0xffffffffu };
		osr = vf_chance(1, 2) ? os[vf_below(14)] : (unsigned)vf_range(0, 24);
		flags = rnd_flags(0);
		if (vf_chance(1, 3)) flags |= JENT_DISABLE_MEMORY_ACCESS;
		if (vf_chance(1, 4)) flags |= JENT_FORCE_INTERNAL_TIMER;	/* with DISABLE or NTG1: contradictory */
		if (vf_chance(1, 4)) flags &= ~(7u << 24), flags |= (unsigned)vf_range(0, 7) << 24;
		if (vf_chance(1, 4)) flags &= 0x07ffffffu, flags |= (unsigned)vf_range(0, 13) << 27;
		/* sizes at and beyond the documented maximum, without the work of filling them */
		if (vf_chance(1, 60)) { flags &= 0x07ffffffu; flags |= (unsigned)vf_range(18, 31) << 27; flags &= ~(unsigned)(JENT_NTG1 | JENT_FORCE_FIPS); vf_count("largest_memories", 1); }
		if ((flags & JENT_DISABLE_MEMORY_ACCESS) && vf_chance(1, 3)) flags = (flags & 0x07ffffffu) | (unsigned)vf_range(0, 31) << 27;	/* no memory, any size asked for */
		if (vf_chance(1, 60)) flags |= JENT_CACHE_ALL;
		if (vf_chance(1, 6)) sim_mlock_fail = vf_chance(1, 3) ? ENOMEM : vf_chance(1, 2) ? EAGAIN : vf_chance(1, 2) ? EPERM : EINVAL; else sim_mlock_fail = 0;
		t_nomem = !!(flags & JENT_DISABLE_MEMORY_ACCESS);
		t_r = 0;
		describe(osr, flags);
		if (vf_chance(1, 2)) do_init_ex(osr, flags);
		t_r = 0;
		if (do_alloc(&in, osr, flags)) {
			vf_count("accepted", 1);
			if (!s_unsim && vf_chance(1, 3)) {
				/* the status of any combination of failures */
				unsigned m = 0, k, keep = in.ec->health_failure, ck = in.c->h.fail;
				for (k = 0; k < 4; k++) { if (vf_chance(1, 3)) m |= 1u << k; if (vf_chance(1, 3)) m |= 0x10000u << k; }
				in.ec->health_failure = in.c->h.fail = m;
				check_status(&in);
				in.ec->health_failure = keep; in.c->h.fail = ck;
			}
			if (!s_unsim && osr < 8) do_read(&in, rnd_len(), 0);
			if (!s_unsim && osr < 8 && vf_chance(1, 4)) { place_counters(&in); do_read(&in, rnd_len(), vf_chance(1, 2)); }
			if (in.ec) do_free(&in);
		} else vf_count("refused", 1);
		if (s_unsim) return;
	}
}
static void run(void)
{
	static const struct { const char *n; void (*f)(void); } tab[] = {
		{ "gate", p_gate }, { "noise", p_noise }, { "startup", p_startup }, { "ladder", p_ladder },
		{ "selftest", p_selftest }, { "scale", p_scale }, { "config", p_config }, { "lagwin", p_lagwin }, { "long", p_long }, { "climb", p_ladder }, { "carry", p_carry },
	};
	unsigned i;
	(void)hlv;
	for (i = 0; i < sizeof(tab) / sizeof(tab[0]); i++)
		if (!strcmp(vf_profile, tab[i].n)) {
			tab[i].f();
			vf_count("measurements", st_meas); vf_count("stuck_measurements", st_stuck);
			vf_count("blocks", st_blocks); vf_count("memory_rct_recoveries", st_recov);
			return;
		}
	vf_inconclusive("unknown profile %s", vf_profile);
}
int main(int argc, char **argv) { return vf_main(argc, argv, run); }
