#include "c39.h"

namespace c39
{
    template<unsigned P, unsigned F>
    void pair()
    {
        join<1, src<P, 0>, src<F, 1>>(flags(P), flags(F));
        join<0, freelist<0, 128, src<P, 0>>, guarded<src<F, 1>>>("freelist<" + flags(P) + ">", "overflow<" + flags(F) + ">");
        join<0, guarded<src<P, 0>>, threaded<src<F, 1>>>("overflow<" + flags(P) + ">", "threaded<" + flags(F) + ">");
        if constexpr (!(F & leafs::CTOR) || (F & leafs::OWNS)) join<0, src<P, 0>, segragator<100, src<F, 1>, src<F, 2>>>(flags(P), "segragator<" + flags(F) + ", " + flags(F) + ">");
        if constexpr (!(P & leafs::CTOR) || (P & leafs::OWNS)) join<0, linear_allocator<512>, segragator<200, src<P, 0>, src<F, 1>>>("linear", "segragator<" + flags(P) + ", " + flags(F) + ">");
    }

    template<unsigned P>
    void register_with_source()
    {
        wrap<2, src<P, 0>>(flags(P));
        pair<P, 0>();
        pair<P, 1>();
        pair<P, 2>();
        pair<P, 3>();
        pair<P, 4>();
        pair<P, 5>();
        pair<P, 6>();
        pair<P, 7>();
    }

#define JOINED(x, y) x##y
#define NAMED(n) JOINED(register_with_, n)
    void NAMED(WITH)() { register_with_source<WITH>(); }
}
