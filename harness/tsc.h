/* Scripted processor counter for builds without the mock timer: the counter
 * instruction is made to trap (PR_SET_TSC) and answered from a callback. Code
 * outside the program (vDSO, libc) gets the real counter. */
#ifndef TSC_H
#define TSC_H
#include <signal.h>
#include <ucontext.h>
#include <sys/prctl.h>
#include <x86intrin.h>
extern char __executable_start, etext;
static void (*tsc_cb)(void *, uint64_t *); static void *tsc_arg;
static struct sigaction tsc_old; static uint64_t tsc_traps;
static void tsc_sig(int s, siginfo_t *si, void *u)
{
	ucontext_t *c = u;
	greg_t *g = c->uc_mcontext.gregs;
	const uint8_t *p = (const uint8_t *)g[REG_RIP];
	int in = (char *)p >= &__executable_start && (char *)p < &etext;
	unsigned len = 0;
	uint64_t v = 0;
	/* the kernel reports a refused instruction without an address */
	if (si->si_code == SI_KERNEL || si->si_code == SEGV_MAPERR || si->si_code == SEGV_ACCERR) {
		if (si->si_code == SI_KERNEL && p[0] == 0x0f && p[1] == 0x31) len = 2;
		if (si->si_code == SI_KERNEL && p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xf9) len = 3;
	}
	if (!len) { sigaction(SIGSEGV, &tsc_old, NULL); return; }
	if (in && tsc_cb) { tsc_traps++; tsc_cb(tsc_arg, &v); }
	else { prctl(PR_SET_TSC, PR_TSC_ENABLE); v = __rdtsc(); prctl(PR_SET_TSC, PR_TSC_SIGSEGV); }
	g[REG_RAX] = (greg_t)(uint32_t)v; g[REG_RDX] = (greg_t)(v >> 32);
	if (len == 3) g[REG_RCX] = 0;
	g[REG_RIP] += len;
	(void)s;
}
static int tsc_script(void (*cb)(void *, uint64_t *), void *arg)
{
	static int on;
	struct sigaction a;
	tsc_cb = cb; tsc_arg = arg;
	if (!cb) return prctl(PR_SET_TSC, PR_TSC_ENABLE);
	if (!on) {
		memset(&a, 0, sizeof(a)); a.sa_sigaction = tsc_sig; a.sa_flags = SA_SIGINFO | SA_NODEFER;
		sigaction(SIGSEGV, &a, &tsc_old); on = 1;
	}
	if (prctl(PR_SET_TSC, PR_TSC_SIGSEGV)) vf_inconclusive("the processor counter cannot be made to trap here");
	return 0;
}
#endif
