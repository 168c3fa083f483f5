#include_next <linux/limits.h>
#ifndef SIZE_MAX
#include <stdint.h>
#endif
#ifndef UINT_MAX
#include <limits.h>
#endif
