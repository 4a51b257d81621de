// Which optional operations a composition has to offer: exactly those which its parts allow. Decided from what it is made of, without looking at the
// composition itself; only allocators which wrap nothing are asked.
#pragma once
#include <ktl/ktl.h>

#include <type_traits>
#include <utility>

namespace vf
{
    template<typename A, typename = void>
    struct has_owns : std::false_type {};
    template<typename A>
    struct has_owns<A, std::void_t<decltype(bool(std::declval<const A&>().owns(std::declval<void*>())))>> : std::true_type {};
    template<typename A, typename = void>
    struct has_max : std::false_type {};
    template<typename A>
    struct has_max<A, std::void_t<decltype(size_t(std::declval<const A&>().max_size()))>> : std::true_type {};

    template<typename A> struct promises { static constexpr bool owns = has_owns<A>::value, max = has_max<A>::value; };
    template<size_t Min, size_t Max, typename A> struct promises<ktl::freelist<Min, Max, A>> : promises<A> {};
    template<typename A> struct promises<ktl::threaded<A>> : promises<A> {};
    template<typename A> struct promises<ktl::reference<A>> : promises<A> {};
    template<typename A> struct promises<ktl::global<A>> : promises<A> {};
    template<typename A, typename S> struct promises<ktl::overflow<A, S>> : promises<A> {};
    template<typename A, template<typename> typename C> struct promises<ktl::shared<A, C>> : promises<A> {};
    template<typename T, typename A> struct promises<ktl::type_allocator<T, A>> : promises<A> {};
    template<typename A> struct promises<ktl::cascading<A>> { static constexpr bool owns = true, max = promises<A>::max; }; // it needs owns() of what it wraps
    template<typename P, typename F> struct promises<ktl::fallback<P, F>> { static constexpr bool owns = promises<P>::owns && promises<F>::owns, max = promises<P>::max && promises<F>::max; };
    template<size_t N, typename P, typename F> struct promises<ktl::segragator<N, P, F>> { static constexpr bool owns = promises<P>::owns && promises<F>::owns, max = promises<P>::max && promises<F>::max; };
}
