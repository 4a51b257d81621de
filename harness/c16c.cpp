#include "c16.h"

namespace c16
{
    template<int K>
    void single(unsigned which, Rng& rng)
    {
        using X = P0<K>;
        using E = Expect<false, X>;
        switch (which)
        {
        case 0: { shared<X> a; return both<E>("shared", a, rng); }
        case 1: { atomic_shared<X> a; return both<E>("atomic_shared", a, rng); }
        case 2: { threaded<X> a; return both<E>("threaded", a, rng); }
        case 3: { X x; reference<X> a(x); return both<E>("reference", a, rng); }
        case 4: { freelist<0, 256, X> a; return both<E>("freelist", a, rng); }
        case 5: { leafs::world().cfg[0].cap = rng.range(200, 1500); cascading<X> a; return both<E>("cascading", a, rng); }
        case 6: { NullStream s; overflow<X, NullStream> a(s); return both<Expect<true, X>>("overflow", a, rng); }
        case 7: { type_allocator<Small, shared<X>> a; return drive<Small, E>("type<shared>", a, rng); }
        case 8: { type_allocator<Big, atomic_shared<threaded<X>>> a; return drive<Big, E>("type<atomic_shared<threaded>>", a, rng); }
        case 9: { shared<cascading<X>> a; leafs::world().cfg[0].cap = rng.range(100, 900); return both<E>("shared<cascading>", a, rng); }
        case 10: { NullStream s; threaded<overflow<freelist<0, 512, X>, NullStream>> a(s); return both<Expect<true, X>>("threaded<overflow<freelist>>", a, rng); }
        case 11: { X x; type_allocator<Small, reference<X>> a(x); return drive<Small, E>("type<reference>", a, rng); }
        }
    }

    void singles(unsigned n, unsigned which, Rng& rng)
    {
        switch (n)
        {
        case 0: return single<0>(which, rng);
        case 1: return single<1>(which, rng);
        case 2: return single<2>(which, rng);
        case 3: return single<3>(which, rng);
        case 4: return single<4>(which, rng);
        }
    }
}
