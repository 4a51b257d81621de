#include "c16.h"

namespace c16
{
    template<int K0, int K1>
    void pair(unsigned which, Rng& rng)
    {
        using X = P0<K0>;
        using Y = P1<K1>;
        using E = Expect<false, X, Y>;
        leafs::world().cfg[0].cap = rng.chance(1, 2) ? 600 : 200;
        leafs::world().cfg[0].maxSingle = rng.chance(1, 2) ? 120 : SIZE_MAX;
        switch (which)
        {
        case 0: { fallback<X, Y> a; return both<E>("fallback", a, rng); }
        case 1: { leafs::world().cfg[0] = leafs::Config(); segragator<96, X, Y> a; return both<E>("segragator", a, rng); }
        case 2: { shared<fallback<X, Y>> a; return both<E>("shared<fallback>", a, rng); }
        case 3: { fallback<linear_allocator<512>, fallback<X, Y>> a; return both<E>("fallback<linear,fallback>", a, rng); }
        case 4: { leafs::world().cfg[0] = leafs::Config(); segragator<48, linear_allocator<2048>, segragator<200, X, Y>> a; return both<E>("segragator<linear,segragator>", a, rng); }
        case 5: { fallback<fallback<X, null_allocator>, Y> a; return both<E>("fallback<fallback<X,null>,Y>", a, rng); }
        case 6: { type_allocator<Small, shared<threaded<fallback<X, Y>>>> a; return drive<Small, E>("type<shared<threaded<fallback>>>", a, rng); }
        case 7: { fallback<cascading<X>, Y> a; leafs::world().cfg[0].maxSingle = 120; return both<E>("fallback<cascading,Y>", a, rng); }
        case 8: { NullStream s; using O = overflow<X, NullStream>; fallback<O, Y> a(O{ s }, Y()); return both<Expect<true, X, Y>>("fallback<overflow,Y>", a, rng); }
        case 9: { NullStream s; overflow<fallback<X, Y>, NullStream> a(s); return both<Expect<true, X, Y>>("overflow<fallback>", a, rng); }
        }
    }

    void pairs_a(unsigned n, unsigned which, Rng& rng)
    {
        switch (n)
        {
        case 0: return pair<1, 1>(which, rng);
        case 1: return pair<1, 0>(which, rng);
        case 2: return pair<0, 1>(which, rng);
        case 3: return pair<0, 0>(which, rng);
        }
    }
}
