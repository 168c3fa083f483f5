#include "vf.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>

#define NCOUNT 96
#define BMBITS (1u << 20)
#define NVIOL 24
#define NSAMP 10
struct vf_shm {
	char cname[NCOUNT][48];
	uint64_t cval[NCOUNT];
	int ncount;
	uint8_t bm[BMBITS / 8];
	uint8_t sig[BMBITS / 8];
	uint64_t csig; int nontriv;
	char samp[NSAMP][400];
	int nsamp;
	int case_state;		/* 0 none, 1 fail, 2 inconclusive */
	char key[96];
	char msg[1500];
	char desc[1500];
};
static struct vf_shm *S;
struct vf_rng vf_r;
const char *vf_profile = "";
unsigned long vf_idx;
uint64_t vf_seed;
int vf_verbose, vf_thorough;

void vf_rng_seed(struct vf_rng *r, uint64_t a, uint64_t b)
{
	int i;
	r->s[0] = a * 0x9e3779b97f4a7c15ULL + 0x1234567;
	r->s[1] = b * 0xc2b2ae3d27d4eb4fULL + 0x7654321;
	if (!(r->s[0] | r->s[1])) r->s[0] = 1;
	for (i = 0; i < 16; i++) vf_rng_next(r);
}
uint64_t vf_rng_next(struct vf_rng *r)
{
	uint64_t a = r->s[0], b = r->s[1];
	r->s[0] = b;
	a ^= a << 23;
	r->s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
	return r->s[1] + b;
}
void vf_fail(const char *key, const char *fmt, ...)
{
	va_list ap;
	static int once;
	if (__atomic_exchange_n(&once, 1, __ATOMIC_SEQ_CST))
		for (;;) pause();
	va_start(ap, fmt);
	snprintf(S->key, sizeof(S->key), "%s", key);
	vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
	va_end(ap);
	S->case_state = 1;
	if (vf_verbose) fprintf(stderr, "FAIL %s: %s\n", key, S->msg);
	_exit(99);
}
void vf_inconclusive(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
	va_end(ap);
	S->case_state = 2;
	_exit(98);
}
void vf_count(const char *name, uint64_t n)
{
	int i;
	for (i = 0; i < S->ncount; i++)
		if (!strcmp(S->cname[i], name)) {
			__atomic_fetch_add(&S->cval[i], n, __ATOMIC_RELAXED);
			return;
		}
	if (S->ncount < NCOUNT) {
		i = S->ncount;
		snprintf(S->cname[i], sizeof(S->cname[i]), "%s", name);
		S->cval[i] = n;
		S->ncount = i + 1;
	}
}
void vf_state(uint64_t h)
{
	S->csig = vf_mix(S->csig, h); S->nontriv = 1;
	h = vf_mix(h, 77) % BMBITS;
	S->bm[h / 8] |= (uint8_t)(1u << (h % 8));
}
void vf_sample(const char *fmt, ...)
{
	va_list ap;
	if (S->nsamp >= NSAMP) return;
	va_start(ap, fmt);
	vsnprintf(S->samp[S->nsamp], sizeof(S->samp[0]), fmt, ap);
	va_end(ap);
	S->nsamp++;
}
void vf_describe(const char *fmt, ...)
{
	va_list ap;
	size_t l = strlen(S->desc);
	va_start(ap, fmt);
	vsnprintf(S->desc + l, sizeof(S->desc) - l, fmt, ap);
	va_end(ap);
}
static void jstr(FILE *f, const char *s)
{
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = (unsigned char)*s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c < 0x20 || c >= 0x7f) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}
static int run_case(void (*fn)(void), unsigned long idx, unsigned tmo, const char *errfile,
		    int *sig, int *code)
{
	pid_t p;
	int st;
	S->case_state = 0;
	S->csig = 0x51; S->nontriv = 0;
	S->key[0] = S->msg[0] = S->desc[0] = 0;
	fflush(NULL);
	p = fork();
	if (p < 0) return -1;
	if (!p) {
		struct itimerval it = { { 0, 0 }, { (time_t)tmo, 0 } };
		int fd = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0600);
		if (fd >= 0 && !vf_verbose) { dup2(fd, 2); }
		vf_idx = idx;
		vf_rng_seed(&vf_r, vf_seed, idx * 2654435761UL + 17);
		setitimer(ITIMER_REAL, &it, NULL);
		fn();
		fflush(NULL);
		if (getenv("VF_LSAN")) { extern void __attribute__((weak)) __lsan_do_leak_check(void);
			if (__lsan_do_leak_check) __lsan_do_leak_check(); }
		_exit(0);
	}
	while (waitpid(p, &st, 0) < 0)
		if (errno != EINTR) return -1;
	*sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
	*code = WIFEXITED(st) ? WEXITSTATUS(st) : 0;
	return 0;
}
int vf_main(int argc, char **argv, void (*fn)(void))
{
	unsigned long from = 0, to = 1, i, done = 0, incon = 0;
	const char *out = NULL;
	char errfile[512], tail[1600];
	unsigned tmo = 60;
	int nviol = 0, k;
	FILE *f;
	static struct { char key[96], msg[3000], desc[1500]; unsigned long idx; } V[NVIOL];
	char inmsg[1500] = "";

	for (k = 1; k < argc; k++) {
		if (!strcmp(argv[k], "--seed")) vf_seed = strtoull(argv[++k], 0, 0);
		else if (!strcmp(argv[k], "--from")) from = strtoul(argv[++k], 0, 0);
		else if (!strcmp(argv[k], "--to")) to = strtoul(argv[++k], 0, 0);
		else if (!strcmp(argv[k], "--out")) out = argv[++k];
		else if (!strcmp(argv[k], "--profile")) vf_profile = argv[++k];
		else if (!strcmp(argv[k], "--timeout")) tmo = (unsigned)atoi(argv[++k]);
		else if (!strcmp(argv[k], "--thorough")) vf_thorough = 1;
		else if (!strcmp(argv[k], "-v")) vf_verbose = 1;
		else { fprintf(stderr, "bad arg %s\n", argv[k]); return 3; }
	}
	S = mmap(NULL, sizeof(*S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (S == MAP_FAILED) return 3;
	snprintf(errfile, sizeof(errfile), "%s.err", out ? out : "/dev/null");
	if (!out) snprintf(errfile, sizeof(errfile), "/dev/null");
	for (i = from; i < to; i++) {
		int sig = 0, code = 0, tries = 0;
again:
		if (run_case(fn, i, tmo * (unsigned)(tries ? 3 : 1), errfile, &sig, &code)) return 3;
		if (sig == SIGALRM && !tries++) goto again;
		if (sig == SIGKILL && !S->case_state) { fprintf(stderr, "child killed\n"); return 3; }
		done++;
		if (S->nontriv) { uint64_t g = S->csig % BMBITS; S->sig[g / 8] |= (uint8_t)(1u << (g % 8)); }
		if (!sig && !code) continue;
		if (code == 98 && S->case_state == 2) {
			incon++;
			snprintf(inmsg, sizeof(inmsg), "case %lu: %.1400s", i, S->msg);
			continue;
		}
		tail[0] = 0;
		f = fopen(errfile, "r");
		if (f) {
			size_t n = fread(tail, 1, sizeof(tail) - 1, f);
			tail[n] = 0;
			fclose(f);
		}
		if (nviol < NVIOL) {
			V[nviol].idx = i;
			snprintf(V[nviol].desc, sizeof(V[0].desc), "%s", S->desc);
			if (S->case_state == 1) {
				snprintf(V[nviol].key, sizeof(V[0].key), "%s", S->key);
				snprintf(V[nviol].msg, sizeof(V[0].msg), "%s", S->msg);
			} else if (sig == SIGALRM) {
				snprintf(V[nviol].key, sizeof(V[0].key), "hang");
				snprintf(V[nviol].msg, sizeof(V[0].msg), "case did not finish (twice)");
			} else {
				const char *s = strstr(tail, "Sanitizer:"), *u = strstr(tail, "runtime error:");
				char what[64] = "crash";
				if (s) { snprintf(what, sizeof(what), "sanitizer-%.40s", s + 11);
					 for (char *q = what; *q; q++) if (*q == ' ' || *q == '\n' || *q == ':') { *q = 0; break; } }
				else if (u) snprintf(what, sizeof(what), "ubsan");
				else if (sig) snprintf(what, sizeof(what), "signal-%d", sig);
				snprintf(V[nviol].key, sizeof(V[0].key), "%s", what);
				snprintf(V[nviol].msg, sizeof(V[0].msg), "signal %d exit %d; stderr: %s", sig, code, tail);
			}
			nviol++;
		}
		if (nviol >= 8 || sig == SIGALRM) break;	/* enough witnesses */
	}
	f = out ? fopen(out, "w") : stdout;
	if (!f) return 3;
	fprintf(f, "{\"cases\": %lu, \"inconclusive\": %lu, \"inconclusive_msg\": ", done, incon);
	jstr(f, inmsg);
	fprintf(f, ", \"counters\": {");
	for (k = 0; k < S->ncount; k++) {
		if (k) fputc(',', f);
		jstr(f, S->cname[k]);
		fprintf(f, ": %llu", (unsigned long long)S->cval[k]);
	}
	fprintf(f, "}, \"samples\": [");
	for (k = 0; k < S->nsamp; k++) {
		if (k) fputc(',', f);
		jstr(f, S->samp[k]);
	}
	fprintf(f, "], \"violations\": [");
	for (k = 0; k < nviol; k++) {
		if (k) fputc(',', f);
		fprintf(f, "{\"case\": %lu, \"key\": ", V[k].idx);
		jstr(f, V[k].key);
		fprintf(f, ", \"msg\": ");
		jstr(f, V[k].msg);
		fprintf(f, ", \"desc\": ");
		jstr(f, V[k].desc);
		fprintf(f, "}");
	}
	fprintf(f, "]}\n");
	if (out) {
		char bmf[512];
		fclose(f);
		snprintf(bmf, sizeof(bmf), "%s.bm", out);
		f = fopen(bmf, "w");
		if (f) { fwrite(S->bm, 1, sizeof(S->bm), f); fwrite(S->sig, 1, sizeof(S->sig), f); fclose(f); }
		unlink(errfile);
	}
	return 0;
}
