import sys; sys.path.insert(0,'/tmp/seed')
from mk import seed
CF={"cflags":"-DOPENSSL -Wl,--no-as-needed -lcrypto\n"}
M='arch/jitterentropy-arch-memory.c'
seed('openssl-unwiped-when-heap-full','C25',[(M,"""	if (!CRYPTO_secure_allocated(ptr))
		jent_memset_secure(ptr, len);
	OPENSSL_secure_free(ptr);""","""	if (!CRYPTO_secure_malloc_initialized())
		jent_memset_secure(ptr, len);
	OPENSSL_secure_free(ptr);""")],
r'''#include "common.h"
#include <openssl/crypto.h>
static int seen, dirty;
static void *m(size_t n, const char *f, int l) { size_t *p = malloc(n + 16); if (!p) return NULL; p[0] = n; return p + 2; }
static void *r(void *o, size_t n, const char *f, int l) { void *x = m(n, f, l); if (x && o) { memcpy(x, o, n < ((size_t *)o)[-2] ? n : ((size_t *)o)[-2]); free((size_t *)o - 2); } return x; }
static void fr(void *o, const char *f, int l) { size_t i; if (!o) return; if (((size_t *)o)[-2] > 4000) { seen++; for (i = 0; i < ((size_t *)o)[-2]; i++) if (((char *)o)[i]) { dirty++; break; } } free((size_t *)o - 2); }
int main(void)
{
	struct rand_data *ec; char b[64];
	CHECK(CRYPTO_set_mem_functions(m, r, fr), "memory functions");
	CHECK(CRYPTO_secure_malloc_init(16384, 16), "secure heap");
	jent_set_mock_timer(tm, NULL);
	CHECK(!jent_entropy_init_ex(3, JENT_DISABLE_INTERNAL_TIMER | JENT_MAX_MEMSIZE_32kB), "init");
	ec = jent_entropy_collector_alloc(3, JENT_DISABLE_INTERNAL_TIMER | JENT_MAX_MEMSIZE_32kB);
	CHECK(ec && jent_read_entropy(ec, b, 64) == 64, "use");
	jent_entropy_collector_free(ec);
	CHECK(seen, "no ordinary block seen");
	CHECK(!dirty, "%d ordinary blocks released with contents", dirty);
	return 0;
}''',"OpenSSL build, a secure heap that is initialised but full","ordinary memory holding collector data is released unwiped",extra=CF)
seed('openssl-demand-with-full-heap','C25',[(M,"""	if (!tmp && !(flags & JENT_FORCE_SECURE_MEM))
		tmp = OPENSSL_malloc(len);""","""	if (!tmp && (!(flags & JENT_FORCE_SECURE_MEM) ||
		     CRYPTO_secure_malloc_initialized()))
		tmp = OPENSSL_malloc(len);""")],
r'''#include "common.h"
#include <openssl/crypto.h>
int main(void)
{
	struct rand_data *ec;
	CHECK(CRYPTO_secure_malloc_init(16384, 16), "secure heap");
	jent_set_mock_timer(tm, NULL);
	ec = jent_entropy_collector_alloc(3, JENT_FORCE_SECURE_MEM | JENT_DISABLE_INTERNAL_TIMER | JENT_MAX_MEMSIZE_64kB);
	CHECK(!ec, "an instance demanding secure memory exists although the heap cannot hold it");
	return 0;
}''',"OpenSSL build, secure memory demanded, a secure heap that is initialised but full","demanded secure memory is silently replaced by ordinary memory",extra=CF)
