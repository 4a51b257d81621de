// Type-erased allocators under test. Each subject is one composition of the library's allocators, driven by bytes.
#pragma once
#include "leaf.h"
#include "offers.h"
#include "vf.h"

#include <functional>
#include <memory>
#include <type_traits>
#include <utility>

namespace vf
{
    struct Subject
    {
        virtual ~Subject() = default;
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual int owns(void* p) = 0;               // 1, 0, or -1: not offered
        virtual bool max_size(size_t* out) = 0;      // false: not offered
        virtual bool guards_ok() = 0;
        virtual void* neighbour(size_t i) = 0;       // memory around it, which is not its own
        virtual void* allocate_units(size_t count) = 0; // count objects, for typed subjects; bytes otherwise
    };

    struct Spec
    {
        std::string name;
        std::vector<size_t> sizes;   // sizes at which the composition changes its mind
        size_t unit = 1;             // requests are made in multiples of this
        size_t typical = 256;        // sizes mostly below this
        size_t cap = 0;              // total bytes it can hold; 0: unbounded
        bool retains = false;        // keeps memory for reuse after the client gave it back
        bool heap = false;           // draws on the C heap for client memory
        bool leafy = false;          // all client memory comes from recorded sources (and the heap, if so marked)
        bool onlyHeap = false;       // all client memory comes directly from the heap
        bool big = false;            // serves requests of any size
        bool mustOwn = false, mustMax = false; // the optional operations it has to offer, and no others
        std::function<std::unique_ptr<Subject>()> make;
    };

    inline std::vector<Spec>& registry()
    {
        static auto* r = new std::vector<Spec>;
        return *r;
    }

    template<typename A, typename = void>
    struct offers_owns : std::false_type {};
    template<typename A>
    struct offers_owns<A, std::void_t<decltype(bool(std::declval<const A&>().owns(std::declval<void*>())))>> : std::true_type {};
    template<typename A, typename = void>
    struct offers_max : std::false_type {};
    template<typename A>
    struct offers_max<A, std::void_t<decltype(size_t(std::declval<const A&>().max_size()))>> : std::true_type {};

    struct NoEnv {};

    // A stream which accepts anything and counts
    struct Sink
    {
        uint64_t items = 0;
        std::string text;
        Sink& operator<<(const char* s) { items++; text += s; return *this; }
        Sink& operator<<(void* p) { items++; text += fmt("%p", p); return *this; }
        template<typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
        Sink& operator<<(T v)
        {
            items++;
            if constexpr (std::is_signed_v<T>) text += fmt("%lld", (long long)v);
            else text += fmt("%llu", (unsigned long long)v);
            return *this;
        }
    };

    struct Guard
    {
        uint64_t w[8];
        Guard() { for (int i = 0; i < 8; i++) w[i] = mix(uint64_t(i) + 77); }
        bool ok() const
        {
            for (int i = 0; i < 8; i++)
                if (w[i] != mix(uint64_t(i) + 77)) return false;
            return true;
        }
    };

    template<typename A, typename Env>
    struct RawSubject : Subject
    {
        Guard g0;
        Env env;
        Guard g1;
        A a;
        Guard g2;

        template<typename F>
        explicit RawSubject(F f) : env(), a(f(env)) {}

        void* allocate(size_t n) override { return a.allocate(n); }
        void* allocate_units(size_t n) override { return a.allocate(n); }
        void deallocate(void* p, size_t n) override { a.deallocate(p, n); }
        int owns(void* p) override
        {
            if constexpr (offers_owns<A>::value) return static_cast<const A&>(a).owns(p) ? 1 : 0;
            else return -1;
        }
        bool max_size(size_t* out) override
        {
            if constexpr (offers_max<A>::value) { *out = static_cast<const A&>(a).max_size(); return true; }
            else return false;
        }
        bool guards_ok() override { return g0.ok() && g1.ok() && g2.ok(); }
        void* neighbour(size_t i) override { Guard* g = i % 3 == 0 ? &g0 : i % 3 == 1 ? &g1 : &g2; return reinterpret_cast<char*>(g) + (i / 3 % 2 ? sizeof(Guard) - 1 : 0); }
    };

    // Typed: bytes are converted to a number of objects
    template<typename A, typename Env>
    struct TypedSubject : Subject
    {
        typedef typename A::value_type T;
        Guard g0;
        Env env;
        Guard g1;
        A a;
        Guard g2;

        template<typename F>
        explicit TypedSubject(F f) : env(), a(f(env)) {}

        void* allocate(size_t n) override { return a.allocate(n / sizeof(T)); }
        void* allocate_units(size_t n) override { return a.allocate(n); }
        void deallocate(void* p, size_t n) override { a.deallocate(static_cast<T*>(p), n / sizeof(T)); }
        int owns(void* p) override
        {
            if constexpr (offers_owns_t<A>()) return static_cast<const A&>(a).owns(static_cast<T*>(p)) ? 1 : 0;
            else return -1;
        }
        bool max_size(size_t* out) override
        {
            if constexpr (offers_max<A>::value) { *out = static_cast<const A&>(a).max_size() * sizeof(T); return true; }
            else return false;
        }
        bool guards_ok() override { return g0.ok() && g1.ok() && g2.ok(); }
        void* neighbour(size_t i) override { Guard* g = i % 3 == 0 ? &g0 : i % 3 == 1 ? &g1 : &g2; return reinterpret_cast<char*>(g) + (i / 3 % 2 ? sizeof(Guard) - 1 : 0); }

        template<typename B>
        static constexpr bool offers_owns_t() { return offers_owns_typed<B>::value; }
        template<typename B, typename = void>
        struct offers_owns_typed : std::false_type {};
        template<typename B>
        struct offers_owns_typed<B, std::void_t<decltype(bool(std::declval<const B&>().owns(std::declval<typename B::value_type*>())))>> : std::true_type {};
    };

    template<typename A, typename Env, template<typename, typename> class S, typename F>
    void reg_as(Spec spec, F f)
    {
        spec.mustOwn = promises<A>::owns;
        spec.mustMax = promises<A>::max;
        spec.make = [f]() -> std::unique_ptr<Subject> { return std::unique_ptr<Subject>(new S<A, Env>(f)); };
        registry().push_back(std::move(spec));
    }

    template<typename A, typename Env = NoEnv, typename F>
    void reg_raw(Spec spec, F f) { reg_as<A, Env, RawSubject>(std::move(spec), f); }

    template<typename A, typename Env = NoEnv, typename F>
    void reg_typed(Spec spec, F f) { spec.unit = sizeof(typename A::value_type); reg_as<A, Env, TypedSubject>(std::move(spec), f); }

    inline Spec spec(const char* name, std::vector<size_t> sizes, size_t typical, size_t cap, bool retains = false, bool heap = false)
    {
        Spec s;
        s.name = name;
        s.sizes = std::move(sizes);
        s.typical = typical;
        s.cap = cap;
        s.retains = retains;
        s.heap = heap;
        return s;
    }

    // A default-constructed allocator
    template<typename A>
    void reg_default(Spec s) { reg_raw<A>(std::move(s), [](NoEnv&) -> A { return A(); }); }
    template<typename A>
    void reg_default_typed(Spec s) { reg_typed<A>(std::move(s), [](NoEnv&) -> A { return A(); }); }

    void register_a();
    void register_b();
    void register_c();
    void register_d();
    void register_e();
    void register_f();
    void register_g();
    inline void register_all()
    {
        register_a();
        register_b();
        register_c();
        register_d();
        register_e();
        register_f();
        register_g();
    }

    inline Spec leafy(Spec s) { s.leafy = true; return s; }
    inline Spec big(Spec s) { s.big = true; return s; }
    inline Spec only_heap(Spec s) { s.onlyHeap = s.heap = true; return s; }
}
