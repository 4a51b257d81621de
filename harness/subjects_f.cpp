// Typed allocators, and deep or unusual compositions
#include "subjects.h"
#include <ktl/ktl.h>

using namespace ktl;

namespace vf
{
    namespace
    {
        struct P24 { char c[24]; };
        struct P3 { char c[3]; };
        struct alignas(16) P48 { char c[48]; };
        struct SinkEnv { Sink sink; };
        Spec leafy_spec(const char* n, std::vector<size_t> s, size_t t, size_t c, bool r = false, bool h = false) { return leafy(spec(n, std::move(s), t, c, r, h)); }
    }

    void register_f()
    {
        reg_default_typed<type_linear_allocator<double, 4096>>(spec("type_linear<double,4096>", { 4096 }, 500, 4096));
        reg_default_typed<type_shared_linear_allocator<P24, 4096>>(spec("type_shared_linear<24B,4096>", { 4096, 4080 }, 500, 4096));
        reg_default_typed<type_allocator<P3, fallback<linear_allocator<256>, mallocator>>>(spec("type<3B,fallback<linear<256>,mallocator>>", { 256 }, 100, 0, false, true));
        reg_default_typed<type_allocator<P48, mallocator>>(spec("type<48B,mallocator>", { 48, 4800 }, 700, 0, false, true));
        reg_default_typed<type_shared_cascading_allocator<P24, linear_allocator<1000>>>(spec("type_shared_cascading<24B,linear<1000>>", { 984, 1000 }, 400, 0));

        reg_default<segragator<32, cascading<freelist<0, 32, linear_allocator<256>>>, fallback<linear_allocator<1024>, cascading<linear_allocator<2048>>>>>(
            spec("segragator<32,cascading<freelist>,fallback<linear,cascading>>", { 32, 1024, 2048 }, 200, 0, true));
        reg_default<shared<threaded<segragator<64, freelist<0, 64, cascading<linear_allocator<512>>>, mallocator>>>>(
            spec("shared<threaded<segragator<64,freelist<cascading>,mallocator>>>", { 64 }, 120, 0, true, true));
        reg_default<fallback<shared<linear_allocator<256>>, shared<linear_allocator<512>>>>(spec("fallback<shared<linear<256>>,shared<linear<512>>>", { 256, 512 }, 120, 768));
        reg_default<freelist<0, 40, freelist<0, 40, linear_allocator<1024>>>>(spec("freelist<0,40,freelist<0,40,linear<1024>>>", { 40 }, 44, 1024, true));
        reg_default<fallback<freelist<0, 16, cascading<linear_allocator<160>>>, freelist<16, 64, mallocator>>>(spec("fallback<freelist<0,16,cascading>,freelist<16,64,mallocator>>", { 16, 64 }, 70, 0, true, true));
        reg_default<segragator<16, null_allocator, linear_allocator<512>>>(spec("segragator<16,null,linear<512>>", { 16, 512 }, 80, 512));
        reg_raw<shared<overflow<cascading<linear_allocator<640>>, Sink>>, SinkEnv>(spec("shared<overflow<cascading<linear<640>>>>", { 512 }, 200, 0),
            [](SinkEnv& e) { return shared<overflow<cascading<linear_allocator<640>>, Sink>>(e.sink); });

        // Recorded leaf allocators as the memory source
        using L0 = leafs::leaf<0, leafs::OWNS | leafs::MAXSZ>;
        using L1 = leafs::leaf<1, 0>;
        using L2 = leafs::leaf<2, leafs::OWNS>;
        reg_default<cascading<L0>>(leafy_spec("cascading<leaf>", { 64, 512 }, 200, 0));
        reg_default<cascading<L2>>(leafy_spec("cascading<leaf without max_size>", { 64, 512 }, 200, 0));
        reg_default<fallback<L0, L1>>(leafy_spec("fallback<leaf,leaf>", { 64, 512 }, 200, 0));
        reg_default<freelist<16, 96, L1>>(leafy_spec("freelist<16,96,leaf>", { 16, 96 }, 100, 0, true));
        reg_default<segragator<128, freelist<0, 128, L0>, L1>>(leafy_spec("segragator<128,freelist<0,128,leaf>,leaf>", { 128, 512 }, 200, 0, true));
        reg_raw<overflow<L0, Sink>, SinkEnv>(leafy_spec("overflow<leaf>", { 64, 384, 512 }, 200, 0), [](SinkEnv& e) { return overflow<L0, Sink>(e.sink); });
        reg_raw<overflow<freelist<0, 512, cascading<L0>>, Sink>, SinkEnv>(leafy_spec("overflow<freelist<0,512,cascading<leaf>>>", { 64, 384 }, 200, 0, true), [](SinkEnv& e) { return overflow<freelist<0, 512, cascading<L0>>, Sink>(e.sink); });
        reg_default<shared<fallback<cascading<L0>, freelist<0, 256, L1>>>>(leafy_spec("shared<fallback<cascading<leaf>,freelist<0,256,leaf>>>", { 256, 512 }, 200, 0, true));
        reg_default<segragator_builder_min<L0, threshold<64>, freelist<64, 256, L1>, threshold<256>, L2>>(leafy_spec("segragator_builder_min<leaf,freelist<leaf>,leaf>", { 64, 256, 512 }, 300, 0, true));
    }
}
