#include "c16.h"

namespace c16
{
    template<int K0, int K1, int K2>
    void three(unsigned which, Rng& rng)
    {
        using E = Expect<false, P0<K0>, P1<K1>, P2<K2>>;
        leafs::world().cfg[0].cap = 300;
        leafs::world().cfg[1].cap = 400;
        switch (which)
        {
        case 0: { fallback_builder_min<P0<K0>, P1<K1>, P2<K2>> a; return both<E>("fallback_builder_min", a, rng); }
        case 1: { fallback_builder_max<P0<K0>, P1<K1>, P2<K2>> a; return both<E>("fallback_builder_max", a, rng); }
        case 2: { leafs::world().cfg[0] = leafs::world().cfg[1] = leafs::Config(); segragator_builder_min<P0<K0>, threshold<64>, P1<K1>, threshold<256>, P2<K2>> a; return both<E>("segragator_builder_min", a, rng); }
        case 3: { leafs::world().cfg[0] = leafs::world().cfg[1] = leafs::Config(); segragator_builder_max<P0<K0>, threshold<64>, P1<K1>, threshold<256>, P2<K2>> a; return both<E>("segragator_builder_max", a, rng); }
        }
    }

    void threes(unsigned n, unsigned which, Rng& rng)
    {
        switch (n)
        {
        case 0: return three<1, 0, 1>(which, rng);
        case 1: return three<0, 1, 0>(which, rng);
        case 2: return three<0, 0, 1>(which, rng);
        case 3: return three<2, 1, 3>(which, rng);
        }
    }

    void run_case(uint64_t idx, Rng& rng)
    {
        leafs::world().reset();
        const unsigned k = unsigned(idx % 4), n = unsigned(idx / 4);
        if (k == 0) return singles(n % 5, unsigned(rng.below(12)), rng);
        if (k == 3 && n % 2)
        {
            const unsigned a = unsigned(rng.below(4));
            return threes(a, unsigned(rng.below(4)), rng);
        }
        if (k == 3 && n % 8 == 0)
        {
            global<SH> a;
            a.set_allocator(SH());
            return both<Expect<false, SH>>("global", a, rng);
        }
        n % 8 < 4 ? pairs_a(n % 8, unsigned(rng.below(10)), rng) : pairs_b(n % 8, unsigned(rng.below(10)), rng);
    }
}

int main(int argc, char** argv) { return run_main(argc, argv, "c16", c16::run_case); }
