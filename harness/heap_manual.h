// As heap_posix.h, but without posix_memalign: the library aligns by hand
#pragma once
#include "heap_posix.h"
#undef _POSIX_ADVISORY_INFO
