// C39: every composition of parts which the documentation admits, whatever optional operations they have, can be used in full.
#pragma once
#include "leaf.h"
#include "offers.h"
#include "vf.h"

#include <memory>
#include <string>
#include <vector>

using namespace ktl;

namespace c39
{
    struct Said
    {
        uint64_t items = 0;
        template<typename T> Said& operator<<(const T&) noexcept { items++; return *this; }
    };
    inline Said& said() { static Said s; return s; }

    // A corruption-detecting allocator which always reports here
    template<typename A>
    struct guarded : overflow<A, Said>
    {
        guarded() noexcept(std::is_nothrow_default_constructible_v<A>) : overflow<A, Said>(said()) {}
    };

    // What a composition can be asked to do. Typed: through a type_allocator by a counted handle, and through std::allocator_traits
    struct Ops
    {
        const char* name;
        bool mustOwn, mustMax;
        int mustConstruct;
        void* (*make)();
        void (*drop)(void* a);
        void* (*allocate)(void* a, size_t n);
        void (*deallocate)(void* a, void* p, size_t n);
        int (*owns)(void* a, void* p);
        bool (*maximum)(void* a, size_t* out);
        bool (*equal)(void* a, void* b);
        int (*construct)(void* a, long* p, long v);   // -1: not offered
        int (*destroy)(void* a, long* p);
        void* (*typed_make)();
        void (*typed_drop)(void* a);
        void* (*typed_copy)(void* a);
        long* (*typed_allocate)(void* a, size_t n);
        void (*typed_deallocate)(void* a, long* p, size_t n);
        void (*typed_construct)(void* a, long* p, long v);
        void (*typed_destroy)(void* a, long* p);
        size_t (*typed_maximum)(void* a);
        bool (*typed_equal)(void* a, void* b);
        char* (*bytes_allocate)(void* a, size_t n); // through a copy for another type
        void (*bytes_deallocate)(void* a, char* p, size_t n);
    };
    inline std::vector<Ops>& all() { static auto* v = new std::vector<Ops>; return *v; }

    template<typename V, typename A, typename... Args> struct offers_construct : std::false_type {};
    template<typename A, typename... Args> struct offers_construct<std::void_t<decltype(std::declval<A&>().construct(std::declval<Args>()...))>, A, Args...> : std::true_type {};
    template<typename A, typename T, typename = void> struct offers_destroy : std::false_type {};
    template<typename A, typename T> struct offers_destroy<A, T, std::void_t<decltype(std::declval<A&>().destroy(std::declval<T*>()))>> : std::true_type {};

    // ------------------------------------------------------------------------------------------------------------------- the documented requirements
    // 1: it has to offer construction, 0: it must not, -1: either (a segragator which cannot tell to which part memory belongs)
    constexpr int of_both(bool owns, int p, int f) { return p == 1 ? 1 : p == 0 && f == 0 ? 0 : owns && (p == 1 || f == 1) ? 1 : -1; }
    template<typename A> struct promised { static constexpr int constructs = offers_construct<void, A, long*, long&>::value; };
    template<size_t Min, size_t Max, typename A> struct promised<freelist<Min, Max, A>> : promised<A> {};
    template<typename A> struct promised<threaded<A>> : promised<A> {};
    template<typename A> struct promised<guarded<A>> { static constexpr int constructs = 1; };
    template<typename A, template<typename> typename C> struct promised<shared<A, C>> : promised<A> {};
    template<typename A> struct promised<cascading<A>> : promised<A> {};
    template<typename P, typename F> struct promised<fallback<P, F>> { static constexpr int constructs = of_both(true, promised<P>::constructs, promised<F>::constructs); };
    template<size_t N, typename P, typename F> struct promised<segragator<N, P, F>> { static constexpr int constructs = of_both(vf::promises<P>::owns, promised<P>::constructs, promised<F>::constructs); };

    template<typename C>
    void add(const std::string& name)
    {
        using S = shared<C>;
        using T = type_allocator<long, S>;
        using R = std::allocator_traits<T>;
        using B = typename R::template rebind_alloc<char>;
        Ops o;
        o.name = (new std::string(name))->c_str();
        o.mustOwn = vf::promises<C>::owns;
        o.mustMax = vf::promises<C>::max;
        o.mustConstruct = promised<C>::constructs;
        o.make = []() -> void* { return new C; };
        o.drop = [](void* a) { delete static_cast<C*>(a); };
        o.allocate = [](void* a, size_t n) -> void* { return static_cast<C*>(a)->allocate(n); };
        o.deallocate = [](void* a, void* p, size_t n) { static_cast<C*>(a)->deallocate(p, n); };
        o.owns = [](void* a, void* p) -> int {
            if constexpr (vf::has_owns<C>::value) return static_cast<const C*>(a)->owns(p);
            else return -1;
        };
        o.maximum = [](void* a, size_t* out) -> bool {
            if constexpr (vf::has_max<C>::value) { *out = static_cast<const C*>(a)->max_size(); return true; }
            else return false;
        };
        o.equal = [](void* a, void* b) -> bool {
            const C &x = *static_cast<const C*>(a), &y = *static_cast<const C*>(b);
            const bool e = x == y;
            VF_CHECK(e == !(x != y), "not-negated", "== and != agree");
            return e;
        };
        o.construct = [](void* a, long* p, long v) -> int {
            if constexpr (offers_construct<void, C, long*, long&>::value) { static_cast<C*>(a)->construct(p, v); return 1; }
            else return -1;
        };
        o.destroy = [](void* a, long* p) -> int {
            if constexpr (offers_destroy<C, long>::value) { static_cast<C*>(a)->destroy(p); return 1; }
            else return -1;
        };
        o.typed_make = []() -> void* { return new T; };
        o.typed_drop = [](void* a) { delete static_cast<T*>(a); };
        o.typed_copy = [](void* a) -> void* { return new T(*static_cast<const T*>(a)); };
        o.typed_allocate = [](void* a, size_t n) -> long* { return R::allocate(*static_cast<T*>(a), n); };
        o.typed_deallocate = [](void* a, long* p, size_t n) { R::deallocate(*static_cast<T*>(a), p, n); };
        o.typed_construct = [](void* a, long* p, long v) { R::construct(*static_cast<T*>(a), p, v); };
        o.typed_destroy = [](void* a, long* p) { R::destroy(*static_cast<T*>(a), p); };
        o.typed_maximum = [](void* a) -> size_t { return R::max_size(*static_cast<T*>(a)); };
        o.typed_equal = [](void* a, void* b) -> bool { return *static_cast<const T*>(a) == *static_cast<const T*>(b); };
        o.bytes_allocate = [](void* a, size_t n) -> char* { B b(*static_cast<const T*>(a)); return b.allocate(n); };
        o.bytes_deallocate = [](void* a, char* p, size_t n) { B b(*static_cast<const T*>(a)); b.deallocate(p, n); };
        all().push_back(o);
    }

    // ------------------------------------------------------------------------------------------------------------------- the compositions
    template<unsigned F, int Side> using src = leafs::leaf<int(F) + 8 * Side, F>;
    inline std::string flags(unsigned f) { return std::string("source") + (f & leafs::OWNS ? "+owns" : "") + (f & leafs::MAXSZ ? "+max" : "") + (f & leafs::CTOR ? "+construct" : ""); }

    template<typename A, template<typename> typename W> struct unary { using type = W<A>; };
    template<typename A> using w_freelist = freelist<16, 256, A>;

    // Every wrapper which the documentation admits around A
    template<int Depth, typename A>
    void wrap(const std::string& name)
    {
        add<A>(name);
        if constexpr (Depth > 0)
        {
            wrap<Depth - 1, freelist<16, 256, A>>("freelist<" + name + ">");
            wrap<Depth - 1, threaded<A>>("threaded<" + name + ">");
            wrap<Depth - 1, guarded<A>>("overflow<" + name + ">");
            wrap<Depth - 1, shared<A>>("shared<" + name + ">");
            if constexpr (vf::promises<A>::owns) wrap<Depth - 1, cascading<A>>("cascading<" + name + ">");
        }
    }

    template<int Depth, typename P, typename F>
    void join(const std::string& p, const std::string& f)
    {
        // A segragator needs a first part which owns if that constructs
        if constexpr (vf::promises<P>::owns || promised<P>::constructs == 0) wrap<Depth, segragator<64, P, F>>("segragator<" + p + ", " + f + ">");
        // A fallback needs a first part which owns
        if constexpr (vf::promises<P>::owns) wrap<Depth, fallback<P, F>>("fallback<" + p + ", " + f + ">");
    }

}
