#include <openssl/crypto.h>
