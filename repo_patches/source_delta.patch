From 37d3d2aff7426f0833895cb9b413298e83a6ae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:36 +0000
Subject: [PATCH 1/7] fix: unmark the startup tests when initialization fails
 before the timer test

jent_entropy_init() and jent_entropy_init_ex() returned the verdict of
jent_entropy_init_common_pre() directly. A failing GCD self test (e.g. EMEM
for refused secure memory) left jent_selftest_run set, so that a later
jent_entropy_collector_alloc() skipped the startup tests altogether.
---
 src/jitterentropy-base.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 142a82b..8a5833b 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -1202,7 +1202,7 @@ int jent_entropy_init(void)
 	int ret = jent_entropy_init_common_pre(0);
 
 	if (ret)
-		return ret;
+		return jent_entropy_init_common_post(ret);
 
 	ret = jent_time_entropy_init(0, JENT_DISABLE_INTERNAL_TIMER);
 
@@ -1230,7 +1230,7 @@ int jent_entropy_init_ex(unsigned int osr, unsigned int flags)
 	ret = jent_entropy_init_common_pre(flags);
 
 	if (ret)
-		return ret;
+		return jent_entropy_init_common_post(ret);
 
 	/*
 	 * NTG.1 forbids the internal timer, and the collector allocation
-- 
2.43.0


From d87adfb6ed5ba44acc6ec8872918aa5a9d47f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:36 +0000
Subject: [PATCH 2/7] fix: keep the self test verdict in a word of its own

selftest_failed was documented as a full word because jent_selftest() may run
on another thread, but it was declared as a bitfield sharing a storage unit
with state the entropy collection rewrites: a concurrent update could lose the
failure or corrupt its neighbors, and the accesses were a data race.
---
 src/jitterentropy-base.c     | 4 ++--
 src/jitterentropy-internal.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 8a5833b..ac39dcc 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -306,7 +306,7 @@ ssize_t jent_read_entropy(struct rand_data *ec, char *data, size_t len)
 		 * self test failing on another thread stops a request already
 		 * in flight.
 		 */
-		if (ec->selftest_failed) {
+		if (jent_atomic_load_u32(&ec->selftest_failed)) {
 			ret = JENT_ERR_SELFTEST;
 			goto err;
 		}
@@ -1140,7 +1140,7 @@ int jent_selftest(struct rand_data *ec)
 {
 	if (jent_sha3_tester()) {
 		if (ec)
-			ec->selftest_failed = 1;
+			jent_atomic_store_u32(&ec->selftest_failed, 1);
 		return EHASH;
 	}
 
diff --git a/src/jitterentropy-internal.h b/src/jitterentropy-internal.h
index e962148..24e3ee4 100644
--- a/src/jitterentropy-internal.h
+++ b/src/jitterentropy-internal.h
@@ -568,7 +568,7 @@ struct rand_data
 	 * mode. A full word rather than a bitfield: the self test may run on
 	 * another thread, and setting a bitfield would rewrite its neighbors.
 	 */
-	unsigned int selftest_failed:1;
+	uint32_t selftest_failed;
 
 #ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
 	volatile uint8_t notime_interrupt;	/* indicator to interrupt ctr */
-- 
2.43.0


From a7867fcc5924416f33f279355acecd9ad7e47bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:36 +0000
Subject: [PATCH 3/7] fix: carry a failed self test over the health test
 recovery

jent_health_failure_reset() replaced the collector without its selftest_failed
verdict, so that an instance put permanently out of service by a bound
jent_selftest() resumed output after the next intermittent health failure.
---
 src/jitterentropy-base.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index ac39dcc..67ea8fa 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -447,6 +447,10 @@ static int jent_health_failure_reset(
 	new_ec->read_invocations = (*ec)->read_invocations;
 	new_ec->bytes_output = (*ec)->bytes_output;
 
+	/* A failed self test puts the instance permanently out of service. */
+	jent_atomic_store_u32(&new_ec->selftest_failed,
+			      jent_atomic_load_u32(&(*ec)->selftest_failed));
+
 	jent_entropy_collector_free(*ec);
 	*ec = new_ec;
 
-- 
2.43.0


From 085d93b1e5556c12008fb840f100c399255f504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:09 +0000
Subject: [PATCH 4/7] fix: do not read the context of a registered timer thread
 handler

The counting thread took the CPU to pin itself to out of the handler context
as if it were the struct jent_notime_ctx of the builtin handler. The context of
a handler registered with jent_entropy_switch_notime_impl() is the handler's
own, so this read past its end and pinned the thread to an arbitrary CPU.
---
 src/jitterentropy-timer.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/jitterentropy-timer.c b/src/jitterentropy-timer.c
index ce5e33a..b160e99 100644
--- a/src/jitterentropy-timer.c
+++ b/src/jitterentropy-timer.c
@@ -198,15 +198,29 @@ static int jent_notime_sample_timer(void *arg)
 #endif
 {
 	struct rand_data *ec = (struct rand_data *)arg;
-	struct jent_notime_ctx *thread_ctx =
-		(struct jent_notime_ctx *)ec->notime_thread_ctx;
 
 	/*
 	 * Best-effort pin to a dedicated CPU; a failure here is ignored as
 	 * the counter still ticks on whatever CPU the scheduler picks.
+	 *
+	 * Only the context of the builtin handler is known to be a struct
+	 * jent_notime_ctx. What an externally registered handler keeps in its
+	 * context is its own business, the CPU is determined without it then.
 	 */
-	if (thread_ctx)
-		(void)jent_thread_pin_to_cpu(thread_ctx->notime_cpu);
+	if (notime_thread == &jent_notime_thread_builtin) {
+		struct jent_notime_ctx *thread_ctx =
+			(struct jent_notime_ctx *)ec->notime_thread_ctx;
+
+		if (thread_ctx)
+			(void)jent_thread_pin_to_cpu(thread_ctx->notime_cpu);
+	} else if (jent_notime_cpu_configured) {
+		(void)jent_thread_pin_to_cpu(jent_notime_cpu);
+	} else {
+		long highest = jent_cpu_highest();
+
+		if (highest >= 0)
+			(void)jent_thread_pin_to_cpu((unsigned long)highest);
+	}
 
 	ec->notime_timer = 0;
 
-- 
2.43.0


From 77ab9dbeb03dc744e178bbedd35c8735673409f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:57 +0000
Subject: [PATCH 5/7] fix: refuse NTG.1 together with the forced internal timer
 on allocation

jent_entropy_init_ex() refuses the combination, but an allocation following a
successful initialization accepted it, ignored the request for the internal
timer, and returned an instance whose flags jent_entropy_init_ex() refuses in
every later recovery.
---
 src/jitterentropy-base.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 67ea8fa..ec1e3d9 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -644,9 +644,9 @@ static struct rand_data
 
 	/*
 	 * Requesting disabling and forcing of internal timer
-	 * makes no sense.
+	 * makes no sense. NTG.1 disables it, see below.
 	 */
-	if ((flags & JENT_DISABLE_INTERNAL_TIMER) &&
+	if ((flags & (JENT_DISABLE_INTERNAL_TIMER | JENT_NTG1)) &&
 	    (flags & JENT_FORCE_INTERNAL_TIMER))
 		return NULL;
 
-- 
2.43.0


From 8fa8dbd06a5aaac2293c1cd8e82f3ac8a0f0cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:29 +0000
Subject: [PATCH 6/7] fix: do not let allocations rely on a start-up test still
 in progress

jent_selftest_run is set before the timer test begins, as that test needs a
collector of its own. Another thread allocating at that time skipped the
start-up test, obtained a collector although the test may yet fail and sampled
the common timer divisor before it was established.
---
 src/jitterentropy-base.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index ec1e3d9..1cbe298 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -628,8 +628,17 @@ unsigned int jent_hashloop_cnt(unsigned int flags)
  */
 static int jent_selftest_run = 0;
 
+/*
+ * Whether the most recent initialization completed successfully. The word above
+ * is already set while the timer is still being tested, because that test needs
+ * a collector of its own. It must not let another thread allocate a collector
+ * for use on the strength of a test that is still running and may fail.
+ */
+static int jent_startup_passed = 0;
+
 static struct rand_data
-*jent_entropy_collector_alloc_internal(unsigned int osr, unsigned int flags)
+*jent_entropy_collector_alloc_tested(unsigned int osr, unsigned int flags,
+				     int test_passed)
 {
 	struct rand_data *entropy_collector;
 	uint32_t memsize = 0;
@@ -662,7 +671,8 @@ static struct rand_data
 		return NULL;
 
 	/* Force the self test to be run */
-	if (!jent_atomic_load_int(&jent_selftest_run) &&
+	if ((!jent_atomic_load_int(&jent_selftest_run) ||
+	     (test_passed && !jent_atomic_load_int(&jent_startup_passed))) &&
 	    jent_entropy_init_ex(osr, flags))
 		return NULL;
 
@@ -783,6 +793,20 @@ err:
 	return NULL;
 }
 
+/* Collector for the start-up test itself and the test interfaces */
+static struct rand_data
+*jent_entropy_collector_alloc_internal(unsigned int osr, unsigned int flags)
+{
+	return jent_entropy_collector_alloc_tested(osr, flags, 0);
+}
+
+/* Collector to be handed out: the start-up test must have completed */
+static struct rand_data
+*jent_entropy_collector_alloc_regular(unsigned int osr, unsigned int flags)
+{
+	return jent_entropy_collector_alloc_tested(osr, flags, 1);
+}
+
 static struct rand_data *_jent_entropy_collector_alloc(unsigned int osr,
 						       unsigned int flags)
 {
@@ -809,7 +833,7 @@ static struct rand_data *_jent_entropy_collector_alloc(unsigned int osr,
 
 	flags = jent_update_secure_mem(flags);
 
-	ec = jent_entropy_collector_alloc_internal(osr, flags);
+	ec = jent_entropy_collector_alloc_regular(osr, flags);
 
 	if (!ec)
 		return ec;
@@ -847,7 +871,7 @@ static struct rand_data *_jent_entropy_collector_alloc(unsigned int osr,
 			 * OSR, hash loop count and memory size.
 			 */
 			if (jent_health_failure_reset(
-				&ec, jent_entropy_collector_alloc_internal)) {
+				&ec, jent_entropy_collector_alloc_regular)) {
 				jent_entropy_collector_free(ec);
 				return NULL;
 			}
@@ -1179,6 +1203,7 @@ static inline int jent_entropy_init_common_post(int ret)
 	/* Unmark the execution of the self tests if they failed. */
 	if (ret)
 		jent_atomic_store_int(&jent_selftest_run, 0);
+	jent_atomic_store_int(&jent_startup_passed, !ret);
 
 	return ret;
 }
-- 
2.43.0


From 8d090af4644b8105e0470840b80edfddb4e7b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:44 +0000
Subject: [PATCH 7/7] fix: publish the common timer divisor in one step

A thread that lost the claim on the divisor could finish its own start-up
and allocate a collector before the winner had published the value. That
collector then used no divisor at all for its whole life, although the
comment promised the winner's. Store the divisor, which fits an int, with
one compare-and-exchange instead of a claim, a write and a flag.
---
 arch/jitterentropy-arch-atomic.c | 32 +++++++++++---------
 arch/jitterentropy-arch-atomic.h | 15 ++++-----
 src/jitterentropy-gcd.c          | 52 ++++++++++++--------------------
 3 files changed, 46 insertions(+), 53 deletions(-)

diff --git a/arch/jitterentropy-arch-atomic.c b/arch/jitterentropy-arch-atomic.c
index 510b904..2191dc3 100644
--- a/arch/jitterentropy-arch-atomic.c
+++ b/arch/jitterentropy-arch-atomic.c
@@ -59,9 +59,9 @@
  *
  * The dispatch is:
  *   - Linux kernel                -> smp_load_acquire() / smp_store_release()
- *                                    and xchg()
+ *                                    and cmpxchg()
  *   - GCC / Clang (any target,    -> __atomic_load_n() / __atomic_store_n() /
- *     the FreeBSD kernel and the      __atomic_exchange_n() with
+ *     the FreeBSD kernel and the      __atomic_compare_exchange_n() with
  *     baremetal builds included)      __ATOMIC_ACQUIRE / _RELEASE / _ACQ_REL
  *   - MSVC                        -> the Interlocked intrinsics
  *   - anything else               -> volatile access
@@ -105,9 +105,9 @@ void jent_atomic_store_u32(uint32_t *ptr, uint32_t val)
 	smp_store_release(ptr, val);
 }
 
-int jent_atomic_exchange_int(int *ptr, int val)
+int jent_atomic_cmpxchg_int(int *ptr, int old, int val)
 {
-	return xchg(ptr, val);
+	return cmpxchg(ptr, old, val);
 }
 
 jent_fnptr jent_atomic_load_fnptr(jent_fnptr *ptr)
@@ -145,16 +145,19 @@ void jent_atomic_store_u32(uint32_t *ptr, uint32_t val)
 /*
  * The one read-modify-write, and on aarch64 the one place a freestanding build
  * can come apart: GCC 10 and later default to -moutline-atomics there, which
- * compiles this into a call to a libgcc helper - __aarch64_swp4_acq_rel - that
+ * compiles this into a call to a libgcc helper - __aarch64_cas4_acq_rel - that
  * chooses between the LSE and the LL/SC form at run time through an ifunc. A
  * -nostdlib link has no libgcc, the symbol stays undefined, and the first call
  * jumps into nothing. Such a build wants -mno-outline-atomics, as the kernel
  * uses for the same reason; see the note beside JENT_BAREMETAL in
  * jitterentropy.h.
  */
-int jent_atomic_exchange_int(int *ptr, int val)
+int jent_atomic_cmpxchg_int(int *ptr, int old, int val)
 {
-	return __atomic_exchange_n(ptr, val, __ATOMIC_ACQ_REL);
+	(void)__atomic_compare_exchange_n(ptr, &old, val, 0, __ATOMIC_ACQ_REL,
+					  __ATOMIC_ACQUIRE);
+
+	return old;
 }
 
 /* The builtins take any scalar, a pointer to a function included. */
@@ -207,9 +210,10 @@ void jent_atomic_store_u32(uint32_t *ptr, uint32_t val)
 	(void)_InterlockedExchange((volatile long *)ptr, (long)val);
 }
 
-int jent_atomic_exchange_int(int *ptr, int val)
+int jent_atomic_cmpxchg_int(int *ptr, int old, int val)
 {
-	return (int)_InterlockedExchange((volatile long *)ptr, (long)val);
+	return (int)_InterlockedCompareExchange((volatile long *)ptr, (long)val,
+						(long)old);
 }
 
 /*
@@ -259,13 +263,13 @@ void jent_atomic_store_u32(uint32_t *ptr, uint32_t val)
 }
 
 /* Not atomic at all here - see the note on this fallback above. */
-int jent_atomic_exchange_int(int *ptr, int val)
+int jent_atomic_cmpxchg_int(int *ptr, int old, int val)
 {
-	int old = *(volatile int *)ptr;
+	int cur = *(volatile int *)ptr;
 
-	*(volatile int *)ptr = val;
-
-	return old;
+	if (cur == old)
+		*(volatile int *)ptr = val;
+	return cur;
 }
 
 jent_fnptr jent_atomic_load_fnptr(jent_fnptr *ptr)
diff --git a/arch/jitterentropy-arch-atomic.h b/arch/jitterentropy-arch-atomic.h
index d928a25..8067e06 100644
--- a/arch/jitterentropy-arch-atomic.h
+++ b/arch/jitterentropy-arch-atomic.h
@@ -72,12 +72,13 @@
  * jent_selftest_run stands for the timer GCD and the switch blocks established
  * with it.
  *
- * jent_atomic_exchange_int() is the one read-modify-write, and it exists for
- * the one place that has to know whether it was the thread that set a latch:
- * the common timer GCD is a 64-bit value, and a claim taken on a 32-bit flag
- * lets exactly one thread write it - which keeps these helpers to the widths
- * every target has a lock-free access for. A 64-bit atomic would be a call
- * into libatomic on the 32-bit platforms that cannot do one inline.
+ * jent_atomic_cmpxchg_int() is the one read-modify-write: it stores val only
+ * if *ptr still is old, and returns what *ptr was. It exists for the one place
+ * where several threads arrive with a value each and the first has to prevail
+ * for all of them: the common timer GCD. That value is bounded well below
+ * INT_MAX, which keeps these helpers to the widths every target has a
+ * lock-free access for. A 64-bit atomic would be a call into libatomic on the
+ * 32-bit platforms that cannot do one inline.
  *
  * jent_atomic_load_fnptr() / jent_atomic_store_fnptr() are the one pair for a
  * pointer, and they are the one piece of shared state that is not a latch: the
@@ -116,7 +117,7 @@ void jent_atomic_store_int(int *ptr, int val);
 uint32_t jent_atomic_load_u32(uint32_t *ptr);
 void jent_atomic_store_u32(uint32_t *ptr, uint32_t val);
 
-int jent_atomic_exchange_int(int *ptr, int val);
+int jent_atomic_cmpxchg_int(int *ptr, int old, int val);
 
 jent_fnptr jent_atomic_load_fnptr(jent_fnptr *ptr);
 void jent_atomic_store_fnptr(jent_fnptr *ptr, jent_fnptr val);
diff --git a/src/jitterentropy-gcd.c b/src/jitterentropy-gcd.c
index e5e2169..43d5c2d 100644
--- a/src/jitterentropy-gcd.c
+++ b/src/jitterentropy-gcd.c
@@ -22,34 +22,22 @@
 #include "jitterentropy-gcd.h"
 #include "jitterentropy-internal.h"
 
-/* The common divisor for all timestamp deltas */
-static uint64_t jent_common_timer_gcd = 0;
-
 /*
- * The divisor above is established once per process and read by every
- * collector allocated afterwards, from whichever thread allocates it. It is
- * 64 bits wide, which not every 32-bit platform can load or store atomically
- * without a call into libatomic, so it is published through two 32-bit flags
- * instead (see arch/jitterentropy-arch-atomic.h):
- *
- *   - claimed is taken with an exchange, so of several threads analyzing at
- *     once exactly one writes the value - they measure their own deltas and
- *     need not arrive at the same divisor, so "they would write the same
- *     thing" does not hold here, and
- *   - set is stored with release after that write and loaded with acquire
- *     before every read, so a reader that is told the divisor is established
- *     also sees the value that was established.
+ * The common divisor for all timestamp deltas, or zero while none has been
+ * established.
  *
- * A thread that loses the claim carries on with the divisor of the thread that
- * won it, which is the behaviour a second caller has always had.
+ * It is established once per process and read by every collector allocated
+ * afterwards, from whichever thread allocates it. jent_gcd_analyze() accepts
+ * no divisor of UINT32_MAX / 2 or more, so an int holds every one of them and
+ * the value can be its own "established" flag (see
+ * arch/jitterentropy-arch-atomic.h). It is stored with a compare-and-exchange
+ * against zero: of several threads analyzing at once - they measure their own
+ * deltas and need not arrive at the same divisor - the first prevails, and a
+ * thread that comes second carries on with that divisor. There is no moment
+ * at which a divisor is claimed but cannot be read yet: a collector allocated
+ * then would use none for as long as it lives.
  */
-static int jent_common_timer_gcd_claimed = 0;
-static int jent_common_timer_gcd_set = 0;
-
-static inline int jent_gcd_tested(void)
-{
-	return jent_atomic_load_int(&jent_common_timer_gcd_set);
-}
+static int jent_common_timer_gcd = 0;
 
 /* A straight forward implementation of the Euclidean algorithm for GCD. */
 static inline uint64_t jent_gcd64(uint64_t a, uint64_t b)
@@ -154,11 +142,9 @@ int jent_gcd_analyze(uint64_t *delta_history, size_t nelem, size_t osr)
 	 * this point - the guard states the invariant rather than covering a
 	 * reachable case.
 	 */
-	if (running_gcd && !jent_gcd_tested() &&
-	    !jent_atomic_exchange_int(&jent_common_timer_gcd_claimed, 1)) {
-		jent_common_timer_gcd = running_gcd;
-		jent_atomic_store_int(&jent_common_timer_gcd_set, 1);
-	}
+	if (running_gcd)
+		(void)jent_atomic_cmpxchg_int(&jent_common_timer_gcd, 0,
+					      (int)running_gcd);
 
 out:
 	return ret;
@@ -183,10 +169,12 @@ void jent_gcd_fini(uint64_t *delta_history, size_t nelem)
 
 int jent_gcd_get(uint64_t *value)
 {
-	if (!jent_gcd_tested())
+	int gcd = jent_atomic_load_int(&jent_common_timer_gcd);
+
+	if (!gcd)
 		return 1;
 
-	*value = jent_common_timer_gcd;
+	*value = (uint64_t)gcd;
 	return 0;
 }
 
-- 
2.43.0

