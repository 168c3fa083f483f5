/* make the library believe it is built for a C library other than glibc */
#include <features.h>
#undef __GLIBC__
#undef __GLIBC_MINOR__
