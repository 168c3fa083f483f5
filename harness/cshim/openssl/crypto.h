#include "cshim.h"
#define OPENSSL_malloc(n) be_plain(n, 0, 0)
#define OPENSSL_zalloc(n) be_plain(n, 1, 0)
#define OPENSSL_free(p) be_free(p, 0, 1)
#define OPENSSL_clear_free(p, n) be_free(p, n, 1)
#define OPENSSL_secure_malloc(n) be_secure(n, 0, 0)
#define OPENSSL_secure_zalloc(n) be_secure(n, 1, 0)
#define OPENSSL_secure_free(p) be_free(p, 0, 0)
#define OPENSSL_secure_clear_free(p, n) be_free(p, n, 0)
#define OPENSSL_cleanse(p, n) be_cleanse(p, n)
#define CRYPTO_secure_malloc_initialized() be_arena()
#define CRYPTO_secure_allocated(p) be_is_secure(p)
#define CRYPTO_malloc(n, f, l) be_plain(n, 0, 0)
#define CRYPTO_free(p, f, l) be_free(p, 0, 1)
#define CRYPTO_secure_malloc(n, f, l) be_secure(n, 0, 0)
#define CRYPTO_secure_free(p, f, l) be_free(p, 0, 0)
#define FIPS_mode() be_fips()
