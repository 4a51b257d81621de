// Compositions on recorded sources, in every position, and compositions for large blocks
#include "subjects.h"
#include <ktl/ktl.h>

using namespace ktl;

namespace vf
{
    namespace
    {
        struct SinkEnv { Sink sink; };
        template<typename A>
        struct Target { A a; };
        struct P24 { char c[24]; };
        struct P7 { char c[7]; };

        template<int N>
        using LO = leafs::leaf<N, leafs::OWNS>;
        template<int N>
        using LM = leafs::leaf<N, leafs::OWNS | leafs::MAXSZ>;
        template<int N>
        using LB = leafs::leaf<N, 0>;
        template<int N>
        using LS = leafs::leaf<N, leafs::OWNS | leafs::SHARED>;

        Spec ls(const char* n, std::vector<size_t> s, size_t t, bool retains = false, bool heap = false) { return leafy(spec(n, std::move(s), t, 0, retains, heap)); }
    }

    void register_g()
    {
        reg_default<cascading<freelist<0, 64, LO<0>>>>(ls("cascading<freelist<0,64,leaf>>", { 64 }, 66, true));
        reg_default<cascading<fallback<LO<0>, LO<1>>>>(ls("cascading<fallback<leaf,leaf>>", { 64, 512 }, 200));
        reg_default<cascading<segragator<64, LM<0>, LM<1>>>>(ls("cascading<segragator<64,leaf,leaf>>", { 64, 512 }, 200));
        reg_default<cascading<cascading<LO<0>>>>(ls("cascading<cascading<leaf>>", { 64, 512 }, 200));
        reg_default<cascading<shared<LM<0>>>>(ls("cascading<shared<leaf>>", { 64, 512 }, 200));
        reg_default<cascading<threaded<LO<0>>>>(ls("cascading<threaded<leaf>>", { 64, 512 }, 200));
        reg_default<freelist<0, 48, cascading<LM<0>>>>(ls("freelist<0,48,cascading<leaf>>", { 48 }, 50, true));
        reg_default<freelist<8, 200, fallback<LO<0>, LB<1>>>>(ls("freelist<8,200,fallback<leaf,leaf>>", { 8, 200 }, 202, true));
        reg_default<freelist<0, 96, freelist<64, 128, LB<0>>>>(ls("freelist<0,96,freelist<64,128,leaf>>", { 96 }, 98, true));
        reg_raw<freelist<0, 64, overflow<LB<0>, Sink>>, SinkEnv>(ls("freelist<0,64,overflow<leaf>>", { 64 }, 66, true), [](SinkEnv& e) { return freelist<0, 64, overflow<LB<0>, Sink>>(e.sink); });
        reg_raw<overflow<overflow<LB<0>, Sink>, Sink>, SinkEnv>(ls("overflow<overflow<leaf>>", { 64, 256 }, 200), [](SinkEnv& e) { return overflow<overflow<LB<0>, Sink>, Sink>(e.sink, e.sink); });
        reg_raw<overflow<freelist<100, 300, LB<0>>, Sink>, SinkEnv>(ls("overflow<freelist<100,300,leaf>>", { 1, 172 }, 174, true), [](SinkEnv& e) { return overflow<freelist<100, 300, LB<0>>, Sink>(e.sink); });
        reg_raw<fallback<overflow<LO<0>, Sink>, LB<1>>, SinkEnv>(ls("fallback<overflow<leaf>,leaf>", { 64, 384, 512 }, 200), [](SinkEnv& e) { return fallback<overflow<LO<0>, Sink>, LB<1>>(e.sink); });
        reg_raw<segragator<100, overflow<LO<0>, Sink>, LB<1>>, SinkEnv>(ls("segragator<100,overflow<leaf>,leaf>", { 100, 512 }, 200), [](SinkEnv& e) { return segragator<100, overflow<LO<0>, Sink>, LB<1>>(e.sink); });
        reg_default<fallback<freelist<0, 64, LO<0>>, freelist<64, 256, LB<1>>>>(ls("fallback<freelist<0,64,leaf>,freelist<64,256,leaf>>", { 64, 256 }, 260, true));
        reg_default<fallback<cascading<LM<0>>, cascading<LO<1>>>>(ls("fallback<cascading<leaf>,cascading<leaf>>", { 64, 512 }, 300));
        reg_default<fallback<freelist<0, 32, cascading<LO<0>>>, fallback<LO<1>, LB<2>>>>(ls("fallback<freelist<0,32,cascading<leaf>>,fallback<leaf,leaf>>", { 32, 512 }, 100, true));
        reg_default<segragator<48, cascading<LO<0>>, segragator<256, freelist<48, 256, LO<1>>, LB<2>>>>(ls("segragator<48,cascading<leaf>,segragator<256,freelist<leaf>,leaf>>", { 48, 256, 512 }, 300, true));
        reg_default<fallback_builder_min<LO<0>, LO<1>, LO<2>, LO<3>, LB<4>>>(ls("fallback_builder_min<5 leaves>", { 64, 512 }, 300));
        reg_default<fallback_builder_max<LO<0>, LO<1>, LO<2>, LO<3>, LO<4>, LB<5>>>(ls("fallback_builder_max<6 leaves>", { 64, 512 }, 300));
        reg_default<segragator_builder_max<LO<0>, threshold<16>, LO<1>, threshold<48>, LO<2>, threshold<100>, LO<3>, threshold<200>, LB<4>>>(ls("segragator_builder_max<5 leaves>", { 16, 48, 100, 200 }, 300));
        reg_default<segragator_builder_max<freelist<0, 16, LB<0>>, threshold<16>, freelist<16, 64, LB<1>>, threshold<64>, freelist<64, 256, LB<2>>, threshold<256>, fallback<cascading<LM<3>>, LB<4>>>>(
            ls("segragator_builder_max<freelists,fallback<cascading>>", { 16, 64, 256, 512 }, 300, true));
        reg_default<threaded<fallback<LO<0>, LB<1>>>>(ls("threaded<fallback<leaf,leaf>>", { 512 }, 200));
        reg_default<atomic_shared<threaded<freelist<0, 64, LB<0>>>>>(ls("atomic_shared<threaded<freelist<0,64,leaf>>>", { 64 }, 66, true));
        reg_default<freelist<0, 64, LS<0>>>(ls("freelist<0,64,shared leaf>", { 64 }, 66, true));
        reg_raw<reference<cascading<LM<0>>>, Target<cascading<LM<0>>>>(ls("reference<cascading<leaf>>", { 512 }, 200), [](Target<cascading<LM<0>>>& e) { return reference<cascading<LM<0>>>(e.a); });
        reg_default_typed<type_allocator<P24, shared<LM<0>>>>(ls("type<24B,shared<leaf>>", { 24, 240, 504 }, 200));
        reg_default_typed<type_allocator<P7, freelist<0, 70, LB<0>>>>(ls("type<7B,freelist<0,70,leaf>>", { 7, 70 }, 77, true));
        reg_default_typed<type_allocator<uint16_t, fallback<LO<0>, LB<1>>>>(ls("type<2B,fallback<leaf,leaf>>", { 512 }, 200));
        reg_default_typed<type_allocator<P24, cascading<LM<0>>>>(ls("type<24B,cascading<leaf>>", { 24, 240, 504 }, 200));

        // Large blocks
        reg_default<cascading<linear_allocator<300000>>>(spec("cascading<linear<300000>>", { 300000, 65536, 150000, 131072 }, 60000, 0));
        reg_default<segragator<70000, cascading<linear_allocator<140000>>, mallocator>>(big(spec("segragator<70000,cascading<linear<140000>>,mallocator>", { 70000, 65536, 140000 }, 80000, 0, false, true)));
        reg_default<freelist<65536, 262144, mallocator>>(only_heap(spec("freelist<65536,262144,mallocator>", { 65536, 65537, 262144 }, 262150, 0, true, true)));
        reg_raw<overflow<mallocator, Sink>, SinkEnv>(big(spec("overflow<mallocator> large", { 65536, 131072, 65408, 100000 }, 100000, 0, false, true)), [](SinkEnv& e) { return overflow<mallocator, Sink>(e.sink); });
        reg_default<fallback<linear_allocator<200000>, mallocator>>(big(spec("fallback<linear<200000>,mallocator>", { 65536, 200000, 131072 }, 70000, 0, false, true)));
        reg_default_typed<type_allocator<P24, shared<fallback<linear_allocator<120000>, mallocator>>>>(big(spec("type<24B,shared<fallback<linear<120000>,mallocator>>>", { 65544, 120000 }, 50000, 0, false, true)));
    }
}
