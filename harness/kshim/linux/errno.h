#include_next <linux/errno.h>
#ifndef ERESTARTSYS
#define ERESTARTSYS 512
#define ENOTSUPP 524
#endif
