// Segragator and its builders
#include "subjects.h"
#include <ktl/ktl.h>

using namespace ktl;

namespace vf
{
    namespace
    {
        struct OneStack { stack<1024> a; };
        template<size_t Max>
        using FList = freelist<0, Max, mallocator>;
        template<size_t Min, size_t Max>
        using RList = freelist<Min, Max, mallocator>;
    }

    void register_d()
    {
        reg_default<segragator<64, linear_allocator<1024>, mallocator>>(spec("segragator<64,linear<1024>,mallocator>", { 64, 1024 }, 100, 0, false, true));
        reg_default<segragator<16, freelist<0, 16, mallocator>, mallocator>>(spec("segragator<16,freelist<0,16,mallocator>,mallocator>", { 16 }, 40, 0, true, true));
        reg_default<segragator<8192, cascading<linear_allocator<8192>>, mallocator>>(spec("segragator<8192,cascading<linear<8192>>,mallocator>", { 8192 }, 9000, 0, false, true));
        reg_raw<segragator<128, stack_allocator<1024>, mallocator>, OneStack>(spec("segragator<128,stack<1024>,mallocator>", { 128, 1024 }, 150, 0, false, true),
            [](OneStack& e) { return segragator<128, stack_allocator<1024>, mallocator>(e.a); });
        reg_default<segragator<0, mallocator, linear_allocator<512>>>(spec("segragator<0,mallocator,linear<512>>", { 1, 512 }, 100, 0, false, true));
        reg_default<segragator<300, linear_allocator<256>, linear_allocator<2048>>>(spec("segragator<300,linear<256>,linear<2048>>", { 256, 300, 301, 2048 }, 400, 2304));

        // README: freelists by size, backed by a cascading linear allocator and malloc
        using Readme = segragator_builder_max<FList<8>, threshold<8>, FList<128>, threshold<128>, FList<512>, threshold<512>, FList<1024>, threshold<1024>,
            fallback<cascading<linear_allocator<4096>>, mallocator>>;
        reg_default<Readme>(spec("segragator_builder_max<README>", { 8, 128, 512, 1024, 4096 }, 1200, 0, true, true));
        using Ranges = segragator_builder_min<RList<0, 16>, threshold<16>, RList<16, 64>, threshold<64>, RList<64, 256>, threshold<256>, mallocator>;
        reg_default<Ranges>(spec("segragator_builder_min<ranges>", { 16, 64, 256 }, 300, 0, true, true));
        using Nine = segragator_builder_min<
            linear_allocator<512>, threshold<16>, linear_allocator<512>, threshold<32>, linear_allocator<512>, threshold<48>, linear_allocator<512>, threshold<64>,
            linear_allocator<512>, threshold<80>, linear_allocator<512>, threshold<96>, linear_allocator<512>, threshold<112>, linear_allocator<512>, threshold<128>, mallocator>;
        reg_default<Nine>(spec("segragator_builder_min<9>", { 16, 32, 48, 64, 80, 96, 112, 128 }, 140, 0, false, true));
        reg_default<segragator<32, segragator<16, linear_allocator<256>, linear_allocator<256>>, fallback<linear_allocator<256>, mallocator>>>(
            spec("segragator<32,segragator<16,..>,fallback<..>>", { 16, 32, 256 }, 60, 0, false, true));
    }
}
