// All compositions of one and two layers over sources with and without the optional operations
#include "leaf.h"
#include "offers.h"

#include <string>

using namespace ktl;

namespace vf
{
    typedef void (*offer_fn)(const std::string& name, bool owns, bool mustOwn, bool max, bool mustMax);

    namespace
    {
        struct nothing { template<typename T> nothing& operator<<(const T&) { return *this; } };
        offer_fn g_fn;
        size_t g_count;

        template<typename A, typename = void> struct typed : std::false_type {};
        template<typename A> struct typed<A, std::void_t<typename A::value_type>> : std::true_type {};
        template<typename A, typename = void> struct has_typed_owns : std::false_type {};
        template<typename A> struct has_typed_owns<A, std::void_t<decltype(bool(std::declval<const A&>().owns(std::declval<typename A::value_type*>())))>> : std::true_type {};

        template<typename A>
        void look(const std::string& name)
        {
            bool owns;
            if constexpr (typed<A>::value) owns = has_typed_owns<A>::value;
            else owns = has_owns<A>::value;
            g_fn(name, owns, promises<A>::owns, has_max<A>::value, promises<A>::max);
            g_count++;
        }

        // One layer more
        template<int Depth, typename A>
        void wrap(const std::string& name)
        {
            look<A>(name);
            look<type_allocator<long, reference<A>>>("type<reference<" + name + ">>");
            look<type_allocator<long, shared<A>>>("type<shared<" + name + ">>");
            if constexpr (Depth > 0)
            {
                wrap<Depth - 1, freelist<16, 64, A>>("freelist<" + name + ">");
                wrap<Depth - 1, threaded<A>>("threaded<" + name + ">");
                wrap<Depth - 1, reference<A>>("reference<" + name + ">");
                wrap<Depth - 1, global<A>>("global<" + name + ">");
                wrap<Depth - 1, overflow<A, nothing>>("overflow<" + name + ">");
                wrap<Depth - 1, shared<A>>("shared<" + name + ">");
                wrap<Depth - 1, atomic_shared<A>>("atomic_shared<" + name + ">");
                if constexpr (has_owns<A>::value) wrap<Depth - 1, cascading<A>>("cascading<" + name + ">");
            }
        }

        constexpr unsigned OWNS = leafs::OWNS, MAXSZ = leafs::MAXSZ;
        template<unsigned F> using src = leafs::leaf<int(20 + F), F>;
        const char* const NAMES[] = { "source", "source with owns", "source with max_size", "source with both" };

        template<unsigned P, unsigned F>
        void pair()
        {
            wrap<1, segragator<32, src<P>, src<F>>>(std::string("segragator<") + NAMES[P] + ", " + NAMES[F] + ">");
            if constexpr (P & OWNS) wrap<1, fallback<src<P>, src<F>>>(std::string("fallback<") + NAMES[P] + ", " + NAMES[F] + ">");
        }
        template<unsigned P>
        void pairs()
        {
            wrap<2, src<P>>(NAMES[P]);
            pair<P, 0>();
            pair<P, OWNS>();
            pair<P, MAXSZ>();
            pair<P, OWNS | MAXSZ>();
        }
    }

    size_t all_offers(offer_fn fn)
    {
        static_assert(leafs::OWNS == 1 && leafs::MAXSZ == 2, "NAMES");
        g_fn = fn;
        g_count = 0;
        pairs<0>();
        pairs<OWNS>();
        pairs<MAXSZ>();
        pairs<OWNS | MAXSZ>();
        wrap<1, mallocator>("mallocator");
        wrap<1, null_allocator>("null_allocator");
        wrap<1, linear_allocator<64>>("linear_allocator");
        wrap<1, stack_allocator<64>>("stack_allocator");
        return g_count;
    }
}
