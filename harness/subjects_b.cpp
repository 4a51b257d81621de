// Cascading
#include "subjects.h"
#include <ktl/ktl.h>

using namespace ktl;

namespace vf
{
    void register_b()
    {
        reg_default<cascading<linear_allocator<64>>>(spec("cascading<linear<64>>", { 64, 48, 32, 16 }, 64, 0));
        reg_default<cascading<linear_allocator<256>>>(spec("cascading<linear<256>>", { 256, 128, 240 }, 128, 0));
        reg_default<cascading<linear_allocator<8192>>>(spec("cascading<linear<8192>>", { 8192, 4096, 2730 }, 3000, 0));
        reg_default<cascading<linear_allocator<100>>>(spec("cascading<linear<100>>", { 100, 96 }, 60, 0));
        reg_default<cascading<freelist<0, 64, linear_allocator<512>>>>(spec("cascading<freelist<0,64,linear<512>>>", { 64 }, 64, 0, true));
        reg_default<cascading<freelist<16, 48, linear_allocator<100>>>>(spec("cascading<freelist<16,48,linear<100>>>", { 16, 48 }, 52, 0, true));
        reg_default<cascading<fallback<linear_allocator<128>, linear_allocator<512>>>>(spec("cascading<fallback<linear<128>,linear<512>>>", { 128, 512 }, 200, 0));
        reg_default<cascading<segragator<32, linear_allocator<128>, linear_allocator<512>>>>(spec("cascading<segragator<32,linear<128>,linear<512>>>", { 32, 128, 512 }, 200, 0));
        reg_default<cascading<threaded<linear_allocator<256>>>>(spec("cascading<threaded<linear<256>>>", { 256 }, 128, 0));
        reg_default<cascading<shared<linear_allocator<256>>>>(spec("cascading<shared<linear<256>>>", { 256 }, 128, 0));
        reg_default<cascading<cascading<linear_allocator<128>>>>(spec("cascading<cascading<linear<128>>>", { 128 }, 80, 0));
    }
}
