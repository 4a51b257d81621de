// As heap_posix.h, but with the vector extensions' _mm_malloc
#pragma once
#include "heap_posix.h"
#include <immintrin.h>
#define SSE_INSTR_SET 2
