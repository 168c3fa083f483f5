#include "stamp.h"
