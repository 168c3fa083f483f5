#include "cshim.h"
#define gcry_malloc(n) be_plain(n, 0, 0)
#define gcry_calloc(a, b) be_plain((size_t)(a) * (b), 1, 0)
#define gcry_malloc_secure(n) be_secure(n, 0, 0)
#define gcry_calloc_secure(a, b) be_secure((size_t)(a) * (b), 1, 0)
#define gcry_xmalloc(n) be_plain(n, 0, 1)
#define gcry_xcalloc(a, b) be_plain((size_t)(a) * (b), 1, 1)
#define gcry_xmalloc_secure(n) be_secure(n, 0, 1)
#define gcry_xcalloc_secure(a, b) be_secure((size_t)(a) * (b), 1, 1)
#define gcry_is_secure(p) be_is_secure(p)
#define gcry_free(p) be_free(p, 0, 0)
#define gcry_fips_mode_active() be_fips()
