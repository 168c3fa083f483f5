/* Cache discovery of the platforms that are not user-space Linux: the kernel
 * on x86 (CPUID on every processor) and arm64 (cache ID registers), any other
 * x86 (CPUID), macOS (sysctl), Windows (processor information records) and
 * AIX. The interfaces are stand-ins answering from a generated machine; the
 * derived working-set sizes are compared with the machine. */
#include "vf.h"
#if defined(P_KX86) || defined(P_KARM)
#include "kshim.h"
#else
#include "pshim/probe.h"
#if defined(P_WIN)
#include "pshim/windows.h"
#endif
#endif
#include <unistd.h>
uint32_t jent_cache_size_roundup(int all_caches);

#define MAXC 24
struct cache { unsigned type, level, ways, parts, line, sets; unsigned long long size; };
static struct { struct cache c[20]; int n; int ext; } M[MAXC]; static int ncpu;
static unsigned long long L[3]; static unsigned long asked;
static int here;	/* the processor the code runs on */
static int sane; static unsigned long long F[MAXC][3];
static unsigned long long pick(unsigned lvl)
{
	static const unsigned long long b[] = { 16384, 262144, 4194304 };
	unsigned long long s = b[lvl > 3 ? 2 : lvl ? lvl - 1 : 0] << vf_below(5);
	return vf_chance(1, 4) ? s / 2 * 3 : s;
}
static void note(int lvl, unsigned long long s) { if (s > L[lvl]) L[lvl] = s; }
static uint32_t want(int all)
{
	unsigned long long sum = L[0] + (all ? L[1] + L[2] : 0); uint64_t p = 1;
	if (!sum) return 0;
	while (p <= sum) p *= 2;
	return (uint32_t)p;
}
/* ---- x86 ---- */
#if defined(P_KX86) || defined(P_CPUID)
static unsigned cap = 0x1f, ecap = 0x80000028u;
static void leaf(unsigned l, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d)
{
	struct cache *q;
	asked++;
	*a = *b = *c = *d = 0;
	if ((l & 0x80000000u) ? l > ecap : l > cap) {	/* another leaf's contents */
		*a = 0x21 | (unsigned)(vf_below(3) << 5); *b = (unsigned)vf_rnd(); *c = (unsigned)vf_below(4096); *d = 7; return;
	}
	if (l != (M[here].ext ? 0x8000001du : 4u)) { if (l != 4 && l != 0x8000001du) { *a = (unsigned)vf_rnd(); *b = (unsigned)vf_rnd(); *c = 63; } return; }
	if (sub >= (unsigned)M[here].n) return;
	q = &M[here].c[sub];
	*a = q->type | q->level << 5 | (unsigned)vf_below(2) << 8 | (unsigned)vf_below(64) << 14;
	*b = (q->ways - 1) << 22 | (q->parts - 1) << 12 | (q->line - 1);
	*c = q->sets - 1; *d = (unsigned)vf_below(8);
}
static void mk(int cpu)
{
	int i, n = sane ? (int)vf_range(3, 5) : (int)vf_below(20);
	unsigned long long f[3] = { 0, 0, 0 };
	M[cpu].n = n;
	M[cpu].ext = cpu && vf_chance(9, 10) ? M[0].ext : (int)vf_below(2);
	for (i = 0; i < n; i++) {
		struct cache *q = &M[cpu].c[i];
		static const unsigned T[] = { 1, 2, 3, 3, 3 }, V[] = { 1, 1, 2, 3, 4 };
		q->type = sane ? T[i] : vf_chance(1, 12) ? 0 : vf_chance(1, 12) ? (unsigned)vf_range(4, 31) : (unsigned)vf_range(1, 3);
		q->level = sane ? V[i] : (unsigned)vf_below(8);
		q->line = vf_chance(9, 10) ? 64 : 1u << vf_below(9); q->parts = vf_chance(9, 10) ? 1 : (unsigned)vf_range(1, 4); q->ways = (unsigned)vf_range(1, 20);
		q->sets = (unsigned)(pick(q->level) / q->line / q->parts / q->ways); if (!q->sets) q->sets = 1;
		q->size = 1ull * q->line * q->parts * q->ways * q->sets;
	}
	for (i = 0; i < n && i < 16; i++) {
		struct cache *q = &M[cpu].c[i];
		if (!q->type) break;
		if (q->level == 1 && q->type == 1 && !f[0]) f[0] = q->size;
		if ((q->level == 2 || q->level == 3) && (q->type == 1 || q->type == 3) && !f[q->level - 1]) f[q->level - 1] = q->size;
	}
	if (M[cpu].ext ? ecap < 0x8000001du : cap < 4) return;
	for (i = 0; i < 3; i++) F[cpu][i] = f[i];
}
#endif
#if defined(P_CPUID)
int pr_cpuid(unsigned l, unsigned s, unsigned *a, unsigned *b, unsigned *c, unsigned *d)
{
	if ((l & 0x80000000u) ? l > ecap : l > cap) return 0;
	leaf(l, s, a, b, c, d);
	return 1;
}
#endif
/* ---- arm64 ---- */
#if defined(P_KARM)
static u64 clidr[MAXC], csselr[MAXC], seen_sel[MAXC], mmfr2;
static struct cache AC[MAXC][8][2];
static u64 enc(struct cache *q)
{
	unsigned ln = 0;
	while ((16u << ln) < q->line) ln++;
	if ((mmfr2 >> 20) & 15) return ln | (u64)(q->ways - 1) << 3 | (u64)(q->sets - 1) << 32;
	return ln | (u64)(q->ways - 1) << 3 | (u64)(q->sets - 1) << 13 | (u64)vf_below(16) << 28;
}
u64 ks_sysreg_read(const char *n)
{
	asked++;
	if (!strcmp(n, "clidr_el1")) return clidr[here];
	if (!strcmp(n, "id_aa64mmfr2_el1") || !strcmp(n, "SYS_ID_AA64MMFR2_EL1")) return mmfr2;
	if (!strcmp(n, "csselr_el1")) return csselr[here];
	if (!strcmp(n, "ccsidr_el1")) { u64 s = seen_sel[here]; unsigned l = (s >> 1) & 7; return enc(&AC[here][l][s & 1]); }
	vf_inconclusive("register %s", n);
}
void ks_sysreg_write(const char *n, u64 v) { if (strcmp(n, "csselr_el1")) vf_fail("register-written", "register %s written", n); csselr[here] = v; }
void ks_isb(void) { seen_sel[here] = csselr[here]; }
static void mk(int cpu)
{
	int l, on = 1; u64 c = 0;
	for (l = 1; l <= 7; l++) {
		int k; unsigned ty = sane ? (l == 1 ? 3u : l <= 3 ? (vf_chance(4, 5) ? 4u : 0) : 0) : vf_chance(1, 6) ? 0 : (unsigned)vf_below(8);
		c |= (u64)ty << (3 * (l - 1));
		for (k = 0; k < 2; k++) {
			struct cache *q = &AC[cpu][l - 1][k];
			int cx = ((mmfr2 >> 20) & 15) != 0;
			q->line = 16u << vf_below(8); q->ways = (unsigned)vf_range(1, cx ? 40 : 32);
			q->sets = (unsigned)(pick((unsigned)l) / q->line / q->ways); if (!q->sets) q->sets = 1;
			if (!cx && q->sets > 32768) q->sets = 32768;
			if (vf_chance(1, 30)) { q->ways = cx ? 1u + (unsigned)vf_below(2097152) : 1024; q->sets = 1 + (unsigned)vf_below(64); }
			if (cx && vf_chance(1, 20)) { q->sets = 32768u + (unsigned)vf_below(40000); q->ways = 1; q->line = 16; }
			q->size = 1ull * q->line * q->ways * q->sets;
		}
		if (!ty) on = 0;
		if (on && l <= 3 && (ty == 2 || ty == 3 || ty == 4)) F[cpu][l - 1] = AC[cpu][l - 1][0].size;
	}
	clidr[cpu] = c | (u64)vf_below(1 << 20) << 21;
	csselr[cpu] = seen_sel[cpu] = vf_below(16);
}
#endif
/* ---- kernel ---- */
#if defined(P_KX86) || defined(P_KARM)
struct cpuinfo_x86 boot_cpu_data;
#if defined(P_KX86)
void ks_cpuid(unsigned l, unsigned s, unsigned *a, unsigned *b, unsigned *c, unsigned *d) { leaf(l, s, a, b, c, d); }
u64 ks_sysreg_read(const char *n) { (void)n; return 0; }
void ks_sysreg_write(const char *n, u64 v) { (void)n; (void)v; }
void ks_isb(void) { }
#else
void ks_cpuid(unsigned l, unsigned s, unsigned *a, unsigned *b, unsigned *c, unsigned *d) { (void)l; (void)s; *a = *b = *c = *d = 0; }
#endif
static u64 online; static int locked, refuse[MAXC], home;
void ks_cpus_lock(int on) { locked += on ? 1 : -1; if (locked < 0) vf_fail("hotplug-lock", "the processor lock is released without being held"); }
/* a processor may go while the set is not locked */
int ks_next_online(int c)
{
	for (c++; c < ncpu; c++) if (online >> c & 1) {
		if (!locked) vf_fail("hotplug-lock", "the online processors are walked without the processor lock");
		return c;
	}
	return -1;
}
int cpu_online(int c) { return c >= 0 && c < ncpu && (online >> c & 1); }
int smp_call_function_single(int c, void (*f)(void *), void *a, int wait)
{
	int o = here;
	if (c < 0 || c >= ncpu || !(online >> c & 1)) return -ENXIO;
	if (!wait) vf_fail("no-wait", "the results of processor %d are not waited for", c);
	if (refuse[c]) return -ENXIO;
	here = c; f(a); here = o;
	vf_count("processors_asked", 1);
	return 0;
}
void on_each_cpu(void (*f)(void *), void *a, int wait) { int c; for (c = 0; c < ncpu; c++) if (online >> c & 1) smp_call_function_single(c, f, a, wait); }
void ks_point(void) { }
#endif
/* ---- macOS ---- */
#if defined(P_APPLE)
static struct { const char *n; int kind; uint64_t v; } S[6] = { { "hw.perflevel0.l1dcachesize" }, { "hw.l1dcachesize" }, { "hw.perflevel0.l2cachesize" }, { "hw.l2cachesize" }, { "hw.perflevel0.l3cachesize" }, { "hw.l3cachesize" } };
int pr_sysctl(const char *n, void *o, size_t *len, void *p, size_t l)
{
	int i; size_t need; uint32_t v;
	asked++;
	if (p || l) vf_fail("sysctl-set", "a value is set");
	for (i = 0; i < 6; i++) if (!strcmp(S[i].n, n)) break;
	if (i == 6 || S[i].kind == 0) { if (i == 6 && strncmp(n, "hw.", 3)) vf_fail("sysctl-name", "asked for %s", n); return -1; }
	need = S[i].kind == 2 ? 4 : S[i].kind == 3 ? 2 : 8;
	if (*len < need) return -1;
	v = (uint32_t)S[i].v;
	if (need == 8) memcpy(o, &S[i].v, 8); else memcpy(o, &v, need);
	*len = need;
	return 0;
}
static void mk(int c)
{
	int i; (void)c;
	for (i = 0; i < 6; i++) {
		S[i].kind = vf_chance(1, 3) ? 0 : vf_chance(2, 3) ? 1 : vf_chance(3, 4) ? 2 : 3;
		S[i].v = pick((unsigned)i / 2 + 1); if (vf_chance(1, 10)) S[i].v = 0; if (S[i].kind == 1 && vf_chance(1, 15)) S[i].v = 0x8000000000000000ull + vf_rnd() / 2;
		if (!L[i / 2] && (S[i].kind == 1 || S[i].kind == 2) && S[i].v && S[i].v < 1ull << 63) note(i / 2, S[i].v);
	}
}
#endif
/* ---- AIX ---- */
#if defined(P_AIX)
struct pr_aix pr_aix;
static void mk(int c)
{
	(void)c; pr_aix.icache_size = 12345;
	pr_aix.dcache_size = vf_chance(1, 8) ? (vf_chance(1, 2) ? 0 : -1) : (int)pick(1);
	pr_aix.L2_cache_size = vf_chance(1, 8) ? (vf_chance(1, 2) ? 0 : -1) : (int)pick(2);
	if (pr_aix.dcache_size > 0) note(0, (unsigned)pr_aix.dcache_size);
	if (pr_aix.L2_cache_size > 0) note(1, (unsigned)pr_aix.L2_cache_size);
}
#endif
/* ---- Windows ---- */
#if defined(P_WIN)
static unsigned char rec[16384]; static unsigned reclen; static int gfail; static unsigned lasterr;
unsigned pr_lasterr(void) { return lasterr; }
static const size_t HDR = offsetof(SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX, Cache);
int pr_glpi(int rel, void *buf, unsigned *len)
{
	unsigned have = *len;
	asked++;
	if (rel != RelationCache && rel != RelationAll) vf_fail("relation", "asked for relation %d", rel);
	if (gfail == 1) { lasterr = 5; return 0; }
	if (!buf || have < reclen) { *len = reclen; lasterr = ERROR_INSUFFICIENT_BUFFER; return 0; }
	if (gfail == 2) { lasterr = 5; return 0; }
	memcpy(buf, rec, reclen); *len = reclen;
	return 1;
}
static void mk(int c)
{
	int i, n = (int)vf_range(0, 60), over = 0; unsigned o = 0; (void)c;
	gfail = vf_chance(1, 20) ? (int)vf_range(1, 2) : 0;
	for (i = 0; i < n; i++) {
		SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX r; unsigned size = (unsigned)(HDR + sizeof(CACHE_RELATIONSHIP)), real;
		memset(&r, 0, sizeof(r));
		r.Relationship = vf_chance(1, 6) ? (LOGICAL_PROCESSOR_RELATIONSHIP)vf_below(5) : RelationCache;
		r.Cache.Level = (BYTE)vf_range(1, 4); r.Cache.Type = (PROCESSOR_CACHE_TYPE)vf_below(4); r.Cache.CacheSize = (DWORD)pick(r.Cache.Level); r.Cache.LineSize = 64; r.Cache.GroupCount = 1;
		if (vf_chance(1, 6)) size += 8u * (unsigned)vf_below(8);
		real = size;
		if (!sane && vf_chance(1, 25)) switch (vf_below(4)) {
		case 0: size = 0; break;
		case 1: size = (unsigned)vf_below(HDR); break;
		case 2: size = 0xfffffff0u; break;
		case 3: if (r.Relationship == RelationCache) real = size = (unsigned)vf_range(HDR, HDR + sizeof(CACHE_RELATIONSHIP) - 1) & ~3u; if (size < HDR) size = real = (unsigned)HDR; break;
		}
		r.Size = size;
		if (o + real > sizeof(rec)) break;
		{ unsigned m = real < sizeof(r) ? real : (unsigned)sizeof(r); memcpy(rec + o, &r, m); if (real > m) memset(rec + o + m, 0x5a, real - m); }
		o += real;
		if (size < HDR || size == 0xfffffff0u) over = 1;
		if (r.Relationship == RelationCache && size < HDR + sizeof(CACHE_RELATIONSHIP)) over = 1;
		if (over || gfail || r.Relationship != RelationCache) continue;
		if (r.Cache.Level == 1 && r.Cache.Type == CacheData) note(0, r.Cache.CacheSize);
		else if ((r.Cache.Level == 2 || r.Cache.Level == 3) && (r.Cache.Type == CacheUnified || r.Cache.Type == CacheData)) note(r.Cache.Level - 1, r.Cache.CacheSize);
	}
	if (!sane && vf_chance(1, 10) && o) o -= (unsigned)vf_below(o > HDR ? HDR : o);	/* the last record is cut short */
	reclen = o;
	/* recompute what complete records say */
	if (!gfail) {
		unsigned p = 0; memset(L, 0, sizeof(L));
		while (reclen - p >= HDR) {
			SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX r; memset(&r, 0, sizeof(r)); memcpy(&r, rec + p, HDR);
			if (r.Size < HDR || r.Size > reclen - p) break;
			if (r.Relationship == RelationCache) {
				if (r.Size < HDR + sizeof(CACHE_RELATIONSHIP)) break;
				memcpy(&r, rec + p, HDR + sizeof(CACHE_RELATIONSHIP));
				if (r.Cache.Level == 1 && r.Cache.Type == CacheData) note(0, r.Cache.CacheSize);
				else if ((r.Cache.Level == 2 || r.Cache.Level == 3) && (r.Cache.Type == CacheUnified || r.Cache.Type == CacheData)) note(r.Cache.Level - 1, r.Cache.CacheSize);
			}
			p += r.Size;
		}
	}
}
#endif
static void one(void)
{
	int i, k; uint32_t a, b; unsigned long n1;
	sane = vf_chance(1, 2);
#if defined(P_KX86) || defined(P_KARM)
	ncpu = (int)vf_range(1, MAXC); online = vf_rnd(); home = (int)vf_below((unsigned)ncpu); online |= 1ull << home; here = home;
	if (vf_chance(1, 2)) online = ~0ull;
#else
	ncpu = 1;
#endif
#if defined(P_KX86) || defined(P_CPUID)
	if (vf_chance(1, 5)) cap = (unsigned)vf_below(8); if (vf_chance(1, 5)) ecap = 0x80000000u + (unsigned)vf_below(0x40);
#if defined(P_KX86)
	boot_cpu_data.cpuid_level = (int)cap; boot_cpu_data.extended_cpuid_level = ecap;
#endif
#endif
#if defined(P_KARM)
	mmfr2 = vf_rnd() & ~(15ull << 20); if (vf_chance(1, 2)) mmfr2 |= (u64)vf_range(1, 2) << 20;
#endif
	for (i = 0; i < ncpu; i++) mk(i);
#if defined(P_KX86) || defined(P_KARM)
	for (i = 0; i < ncpu; i++) refuse[i] = vf_chance(1, 12);
	for (i = 0; i < ncpu; i++) if ((online >> i & 1) && !refuse[i]) for (k = 0; k < 3; k++) note(k, F[i][k]);
#elif defined(P_CPUID)
	for (k = 0; k < 3; k++) note(k, F[0][k]);
#endif
	(void)k;
	vf_describe("%d processors, largest caches %llu/%llu/%llu", ncpu, L[0], L[1], L[2]);
	if (L[0] + L[1] + L[2] >= 1ull << 31 || L[0] >= 1ull << 31) { vf_count("out_of_range", 1); }
	if (vf_chance(1, 2)) { a = jent_cache_size_roundup(0); b = jent_cache_size_roundup(1); } else { b = jent_cache_size_roundup(1); a = jent_cache_size_roundup(0); }
#if defined(P_KX86) || defined(P_KARM)
	if (locked) vf_fail("hotplug-lock", "the processor lock is still held");
#endif
	if (L[0] + L[1] + L[2] < 1ull << 31 && (a != want(0) || b != want(1))) vf_fail("cache-size", "caches %llu/%llu/%llu give %u and %u instead of %u and %u", L[0], L[1], L[2], a, b, want(0), want(1));
	if ((a & (a - 1)) || (b & (b - 1))) vf_fail("cache-size", "%u and %u are not powers of two", a, b);
	n1 = asked;
	for (i = 0; i < 4; i++) if (jent_cache_size_roundup(i & 1) != (i & 1 ? b : a)) vf_fail("cache-size", "the answer changes");
	if (asked != n1) vf_count("asked_again", 1);
	vf_count("machines", 1); vf_count("questions", asked); if (!L[0]) vf_count("without_l1", 1);
	vf_state(vf_mix(vf_mix(a, b), L[0] ^ L[1] << 20 ^ L[2] << 40));
	vf_sample("%d processors, caches %llu/%llu/%llu give %u and %u", ncpu, L[0], L[1], L[2], a, b);
}
int main(int argc, char **argv) { return vf_main(argc, argv, one); }
