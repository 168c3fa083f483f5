#!/usr/bin/env python3
"""Derives the health-test cutoffs from their published formulas, independently
of the tables in the library (exact tail sums in high-precision arithmetic).
Run once with python3-vt; its output is committed as harness/ref_tables.h.
"""
from mpmath import mp, mpf, floor, sqrt, findroot, log
mp.prec = 400

def inv_binom_cdf(n, p, alpha):
    """smallest k with P[X<=k] >= 1-alpha, X~Bin(n,p); upper tail summed from the top"""
    p = mpf(p); q = 1 - p
    tail = mpf(0)
    term = p ** n            # P[X=n]
    k = n
    while True:
        # tail = P[X > k]... add P[X=k], if it would exceed alpha then k is the answer
        if tail + term > alpha:
            return k
        tail += term
        if k == 0:
            return 0
        term = term * k / (n - k + 1) * q / p
        k -= 1

def apt(osr, alpha_exp, safety):
    p = mpf(2) ** (-mpf(safety) / osr)
    return min(512, 2 + inv_binom_cdf(511, p, mpf(2) ** -alpha_exp))

def lag_global(osr, alpha_exp):
    p = mpf(2) ** (-mpf(1) / osr)
    return inv_binom_cdf((1 << 17) - 8, p, mpf(2) ** -alpha_exp)

def lag_local(osr, alpha_exp):
    n = (1 << 17) - 8
    p = mpf(2) ** (-mpf(1) / osr); q = 1 - p
    alpha = mpf(2) ** -alpha_exp
    def no_run(r):
        x = mpf(1)
        for _ in range(200):
            x = 1 + q * p ** r * x ** (r + 1)
        return (1 - p * x) / ((r + 1 - r * x) * q) * x ** (-(n + 1))
    lo = 1
    # first guess: n q p^r ~ alpha
    r = max(1, int(log(n * q / alpha) / -log(p)) - 5)
    while no_run(r) < 1 - alpha:
        r += 1
    while r > 1 and no_run(r - 1) >= 1 - alpha:
        r -= 1
    return r

def rctmem(osr, tau, safety, cap):
    n = 107 * osr
    p = mpf(2) ** (1 - mpf(safety) / osr)
    pp = min(p, mpf(1) / 2)
    v = int(floor(n * p + tau * sqrt(n * pp * (1 - pp))))
    return min(v, n + cap)

def row(name, f):
    print("static const unsigned int %s[21] = { 0," % name,
          ", ".join(str(int(f(o))) for o in range(1, 21)), "};")

print("/* generated by tools/gen_tables.py from the published formulas */")
row("REF_APT", lambda o: apt(o, 30, 1))
row("REF_APT_P", lambda o: apt(o, 60, 1))
row("REF_APT_NTG1", lambda o: apt(o, 30, 8))
row("REF_APT_NTG1_P", lambda o: apt(o, 60, 8))
row("REF_RCT", lambda o: 30 * o)
row("REF_RCT_P", lambda o: 60 * o)
row("REF_RCT_NTG1", lambda o: -(-30 * o // 8))
row("REF_RCT_NTG1_P", lambda o: -(-60 * o // 8))
row("REF_LAGG", lambda o: lag_global(o, 22))
row("REF_LAGG_P", lambda o: lag_global(o, 44))
row("REF_LAGL", lambda o: lag_local(o, 22))
row("REF_LAGL_P", lambda o: lag_local(o, 44))
row("REF_RM", lambda o: rctmem(o, 4, 1, 0))
row("REF_RM_P", lambda o: rctmem(o, 5, 1, 1))
row("REF_RM_NTG1", lambda o: rctmem(o, 4, 8, 0))
row("REF_RM_NTG1_P", lambda o: rctmem(o, 5, 8, 1))
