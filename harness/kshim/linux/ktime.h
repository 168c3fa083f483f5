#include "kshim.h"
