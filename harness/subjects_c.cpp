// Fallback and its builders
#include "subjects.h"
#include <ktl/ktl.h>

using namespace ktl;

namespace vf
{
    namespace
    {
        struct TwoStacks { stack<256> a; stack<1024> b; };
    }

    void register_c()
    {
        reg_default<fallback<linear_allocator<512>, mallocator>>(spec("fallback<linear<512>,mallocator>", { 512, 496 }, 200, 0, false, true));
        reg_default<fallback<linear_allocator<100>, linear_allocator<1000>>>(spec("fallback<linear<100>,linear<1000>>", { 100, 1000, 96, 992 }, 150, 1100));
        reg_raw<fallback<stack_allocator<256>, stack_allocator<1024>>, TwoStacks>(spec("fallback<stack<256>,stack<1024>>", { 256, 1024 }, 150, 1280),
            [](TwoStacks& e) { return fallback<stack_allocator<256>, stack_allocator<1024>>(e.a, e.b); });
        reg_raw<fallback<stack_allocator<256>, mallocator>, TwoStacks>(spec("fallback<stack<256>,mallocator>", { 256 }, 100, 0, false, true),
            [](TwoStacks& e) { return fallback<stack_allocator<256>, mallocator>(e.a); });
        reg_default<fallback<fallback<linear_allocator<64>, linear_allocator<256>>, mallocator>>(spec("fallback<fallback<linear<64>,linear<256>>,mallocator>", { 64, 256 }, 100, 0, false, true));
        reg_default<fallback<cascading<linear_allocator<128>>, mallocator>>(spec("fallback<cascading<linear<128>>,mallocator>", { 128 }, 150, 0, false, true));
        reg_default<fallback<freelist<0, 32, linear_allocator<256>>, cascading<linear_allocator<1024>>>>(spec("fallback<freelist<0,32,linear<256>>,cascading<linear<1024>>>", { 32, 1024 }, 60, 0, true));
        reg_default<fallback<null_allocator, linear_allocator<512>>>(spec("fallback<null,linear<512>>", { 512 }, 100, 512));
        reg_default<fallback<linear_allocator<512>, null_allocator>>(spec("fallback<linear<512>,null>", { 512 }, 100, 512));
        reg_default<fallback_builder_min<linear_allocator<64>, linear_allocator<128>, linear_allocator<256>, linear_allocator<512>>>(spec("fallback_builder_min<4 linear>", { 64, 128, 256, 512 }, 120, 960));
        reg_default<fallback_builder_max<linear_allocator<64>, linear_allocator<128>, linear_allocator<256>, linear_allocator<512>, mallocator>>(spec("fallback_builder_max<4 linear,mallocator>", { 64, 128, 256, 512 }, 120, 0, false, true));
        reg_default<fallback_builder_min<linear_allocator<48>, linear_allocator<48>, linear_allocator<48>, linear_allocator<48>, linear_allocator<48>, linear_allocator<48>, linear_allocator<48>, mallocator>>(spec("fallback_builder_min<7 linear,mallocator>", { 48 }, 50, 0, false, true));
        // The same composition three levels deep, primary and fallback of one kind
        reg_default<fallback<linear_allocator<256>, fallback<linear_allocator<256>, fallback<linear_allocator<256>, mallocator>>>>(spec("fallback chain of equal linears", { 256 }, 100, 0, false, true));
    }
}
