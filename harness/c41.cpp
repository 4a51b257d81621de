// C41: built with KTL_DEBUG_ASSERT, an operation of which the precondition is broken stops at a breakpoint, and no other operation does.
#include "vf.h"
#include <ktl/ktl.h>

#include <array>
#include <csetjmp>
#include <csignal>
#include <functional>
#include <memory>
#include <vector>

#ifndef KTL_DEBUG_ASSERT
#error "this is about KTL_DEBUG_ASSERT"
#endif

using namespace vf;
using namespace ktl;

namespace
{
    sigjmp_buf g_back;
    volatile sig_atomic_t g_expecting = 0;
    void on_stop(int) { g_expecting = 0; siglongjmp(g_back, 1); }

    // f breaks the precondition of one operation: it must be stopped
    template<typename F>
    void misuse(const char* kind, const char* what, F&& f)
    {
        const int signals[3] = { SIGTRAP, SIGABRT, SIGILL };
        struct sigaction mine = {}, before[3];
        mine.sa_handler = on_stop;
        mine.sa_flags = SA_NODEFER;
        bool stopped = true;
        for (int i = 0; i < 3; i++) sigaction(signals[i], &mine, &before[i]);
        if (sigsetjmp(g_back, 1) == 0)
        {
            g_expecting = 1;
            f();
            stopped = false;
        }
        g_expecting = 0;
        for (int i = 0; i < 3; i++) sigaction(signals[i], &before[i], nullptr);
        VF_CHECK(stopped, "not-stopped", "%s: %s was not stopped", kind, what);
        stat("stopped");
        stat((std::string("stopped:") + what).c_str());
    }
    // f keeps to the preconditions: a breakpoint ends the program (reported as SIGTRAP)
    template<typename F>
    void use(F&& f) { f(); stat("correct_uses"); }

    template<typename T> void consume(const T& t) { const T* p = &t; asm volatile("" : : "r"(p) : "memory"); }

    // An index which is outside [0, n)
    size_t outside(Rng& rng, size_t n)
    {
        switch (rng.below(6))
        {
        case 0: case 1: return n;
        case 2: return n + 1;
        case 3: return n + rng.below(1000);
        case 4: return ~size_t(0) - rng.below(3);
        default: return std::max(n, size_t(rng.next()));
        }
    }

    // Blocks are abandoned when an operation was stopped: they lie in static memory
    alignas(64) char g_area[1 << 20];
    size_t g_top = 0;
    struct bump
    {
        bool operator==(const bump&) const noexcept { return true; }
        bool operator!=(const bump&) const noexcept { return false; }
        void* allocate(size_t n) noexcept
        {
            const size_t need = (n + 63) / 64 * 64 + 64;
            if (n > sizeof g_area || g_top + need > sizeof g_area) return nullptr;
            void* p = g_area + g_top;
            g_top += need;
            return p;
        }
        void deallocate(void*, size_t) noexcept {}
        bool owns(void* p) const noexcept { return p >= g_area && p < g_area + sizeof g_area; }
    };
    struct Built : bump
    {
        template<typename T, typename... A> void construct(T* p, A&&... a) { ::new (static_cast<void*>(p)) T(std::forward<A>(a)...); }
        template<typename T> void destroy(T* p) { p->~T(); }
    };
    // Knows which blocks are its own, and has room for few
    struct Small
    {
        char* from;
        size_t top = 0;
        Small() noexcept { bump b; from = static_cast<char*>(b.allocate(256)); }
        Small(Small&&) = delete;
        bool operator==(const Small& o) const noexcept { return this == &o; }
        bool operator!=(const Small& o) const noexcept { return this != &o; }
        void* allocate(size_t n) noexcept { n = (n + 15) / 16 * 16; if (top + n > 256) return nullptr; top += n; return from + top - n; }
        void deallocate(void*, size_t) noexcept {}
        bool owns(void* p) const noexcept { return p >= from && p < from + 256; }
        template<typename T, typename... A> void construct(T* p, A&&... a) { ::new (static_cast<void*>(p)) T(std::forward<A>(a)...); }
        template<typename T> void destroy(T* p) { p->~T(); }
    };
    // Two of these are different unless they say otherwise
    struct Told : bump
    {
        int id;
        Told(int i = 0) noexcept : id(i) {}
        bool operator==(const Told& o) const noexcept { return id == o.id; }
        bool operator!=(const Told& o) const noexcept { return id != o.id; }
    };

    // Lives in storage which is not destroyed
    template<typename A>
    struct Abandoned
    {
        alignas(A) unsigned char place[sizeof(A)];
        template<typename... X> explicit Abandoned(X&&... x) { ::new (static_cast<void*>(place)) A(std::forward<X>(x)...); }
        A& operator*() { return *std::launder(reinterpret_cast<A*>(place)); }
        A* operator->() { return &**this; }
    };

    struct Kind { std::string name; std::function<void(const char*, Rng&, uint64_t&)> run; };
    std::vector<Kind>& kinds() { static auto* k = new std::vector<Kind>; return *k; }

    // ---------------------------------------------------------------------------------------------------------- containers
    template<typename T, typename A>
    void vectors(const char* kind, Rng& rng, uint64_t& trace)
    {
        using V = trivial_vector<T, A>;
        Abandoned<V> h;
        V& v = *h;
        const size_t n = rng.chance(1, 4) ? 0 : rng.range(1, 60), spare = rng.chance(1, 2) ? rng.below(20) : 0;
        if (spare) v.reserve(n + spare);
        for (size_t i = 0; i < n; i++) v.push_back(T());
        const V& c = v;
        const size_t i = n ? rng.below(n) : 0, bad = outside(rng, n), past = n + 1 + rng.below(5), op = rng.below(13);
        trace = mix(trace ^ n ^ spare << 8 ^ op << 16 ^ bad << 24);
        if (n)
        {
            use([&] { consume(v[i]); consume(c[i]); consume(v.at(i)); consume(c.at(i)); consume(v[n - 1]); consume(c[n - 1]); consume(c.at(n - 1)); });
        }
        switch (op)
        {
        case 0: misuse(kind, "an index", [&] { consume(v[bad]); }); break;
        case 1: misuse(kind, "an index, const", [&] { consume(c[bad]); }); break;
        case 2: misuse(kind, "at()", [&] { consume(v.at(bad)); }); break;
        case 3: misuse(kind, "at(), const", [&] { consume(c.at(bad)); }); break;
        case 4: use([&] { v.emplace(v.end(), T()); v.emplace(v.begin(), T()); v.emplace(v.begin() + i, T()); }); break;
        case 5: if (n) misuse(kind, "emplace() behind the end", [&] { v.emplace(v.begin() + past, T()); }); break;
        case 6: if (n) misuse(kind, "emplace() before the beginning", [&] { v.emplace(reinterpret_cast<T*>(uintptr_t(v.begin()) - sizeof(T)), T()); }); break;
        case 7: misuse(kind, "erase() at the end", [&] { v.erase(v.end()); }); break;
        case 8: if (n) misuse(kind, "erase() before the beginning", [&] { v.erase(reinterpret_cast<T*>(uintptr_t(v.begin()) - sizeof(T))); }); break;
        case 9: if (n) misuse(kind, "erase() of a range behind the end", [&] { v.erase(v.begin() + rng.below(n + 1), v.begin() + past); }); break;
        case 10: if (n) misuse(kind, "erase() of a reversed range", [&] { v.erase(v.begin() + i + 1, v.begin() + i); }); break;
        case 11:
            use([&] { if (n > 1) v.erase(v.begin() + i); v.erase(v.begin(), v.begin()); v.erase(v.end(), v.end()); v.erase(v.begin() + v.size() / 2, v.end()); v.erase(v.begin(), v.end()); });
            misuse(kind, "pop_back() of an empty vector", [&] { v.pop_back(); });
            break;
        default:
            use([&] { while (v.size()) v.pop_back(); });
            misuse(kind, "pop_back() of an empty vector", [&] { v.pop_back(); });
        }
    }

    template<typename T, typename A>
    void arrays(const char* kind, Rng& rng, uint64_t& trace)
    {
        using R = trivial_array<T, A>;
        const size_t n = rng.chance(1, 6) ? 0 : rng.range(1, 60);
        Abandoned<R> h(n);
        R& v = *h;
        const R& c = v;
        const size_t bad = outside(rng, n), op = rng.below(4);
        trace = mix(trace ^ n ^ op << 16 ^ bad << 24);
        if (n) use([&] { for (size_t i = 0; i < n; i++) { v[i] = T(); consume(c[i]); consume(v.at(i)); consume(c.at(i)); } });
        switch (op)
        {
        case 0: misuse(kind, "an index", [&] { consume(v[bad]); }); break;
        case 1: misuse(kind, "an index, const", [&] { consume(c[bad]); }); break;
        case 2: misuse(kind, "at()", [&] { consume(v.at(bad)); }); break;
        default: misuse(kind, "at(), const", [&] { consume(c.at(bad)); }); break;
        }
    }

    template<typename T, size_t N>
    void buffers(const char* kind, Rng& rng, uint64_t& trace)
    {
        using B = trivial_buffer<T, N>;
        const size_t n = rng.below(2 * N + 3), op = rng.below(3);
        std::vector<T> from(n + 1);
        T* p = from.data();
        trace = mix(trace ^ n ^ op << 16);
        auto list = [&](auto&& f) {
            switch (n % 7)
            {
            case 0: { std::initializer_list<T> l = {}; f(l); break; }
            case 1: { std::initializer_list<T> l = { T() }; f(l); break; }
            case 2: { std::initializer_list<T> l = { T(), T() }; f(l); break; }
            case 3: { std::initializer_list<T> l = { T(), T(), T() }; f(l); break; }
            case 4: { std::initializer_list<T> l = { T(), T(), T(), T() }; f(l); break; }
            case 5: { std::initializer_list<T> l = { T(), T(), T(), T(), T() }; f(l); break; }
            default: { std::initializer_list<T> l = { T(), T(), T(), T(), T(), T(), T(), T(), T(), T(), T(), T() }; f(l); }
            }
        };
        switch (op)
        {
        case 0:
            list([&](std::initializer_list<T> l) {
                if (l.size() <= N) use([&] { B b(l); consume(b); });
                else misuse(kind, "a list longer than the buffer", [&] { B b(l); consume(b); });
            });
            break;
        case 1:
            use([&] { std::vector<T> full(N); B b(full.data(), full.data() + N); consume(b); });
            if (n != N) misuse(kind, "a buffer made from a range of another length", [&] { B b(p, p + n); consume(b); });
            break;
        default:
        {
            B b;
            use([&] { std::vector<T> full(N); b.assign(full.data(), full.data() + N); });
            if (n != N) misuse(kind, "a range of another length assigned to a buffer", [&] { b.assign(p, p + n); });
        }
        }
    }

    template<typename T, typename A>
    void heaps(const char* kind, Rng& rng, uint64_t& trace)
    {
        using Q = binary_heap<T, std::less<T>, A>;
        Abandoned<Q> h;
        Q& q = *h;
        const size_t n = rng.below(20), op = rng.below(3);
        if (rng.chance(1, 2)) q.reserve(n + 3);
        trace = mix(trace ^ n ^ op << 16);
        use([&] { for (size_t i = 0; i < n; i++) { q.insert(T(i % 7)); consume(q.peek()); } });
        if (op == 2) use([&] { q.clear(); });
        else use([&] { for (size_t i = 0; i < n; i++) { consume(q.peek()); q.pop(); } });
        if (rng.chance(1, 2)) misuse(kind, "peek() of an empty heap", [&] { consume(q.peek()); });
        else misuse(kind, "pop() of an empty heap", [&] { consume(q.pop()); });
    }

    template<size_t Bits, size_t Align>
    void packed(const char* kind, Rng& rng, uint64_t& trace)
    {
        using P = packed_ptr<char*, Bits, Align>;
        static char* const base = [] { static char area[4 * Align]; return reinterpret_cast<char*>((uintptr_t(area) + Align - 1) / Align * Align); }();
        const size_t off = Align > 1 ? rng.range(1, Align - 1) : 0;
        const uint32_t value = uint32_t(rng.next());
        trace = mix(trace ^ off ^ uint64_t(value) << 20);
        P p(base, value);
        use([&] { p.set_ptr(base + Align); p.set_ptr(nullptr); p.set_int(value); p.set_ptr(base); });
        if (Align == 1) { use([&] { P r(base + 1, value); r.set_ptr(base + 2); consume(r); }); return; }
        if (rng.chance(1, 2)) misuse(kind, "a packed pointer made from a misaligned pointer", [&] { P r(base + off, value); consume(r); });
        else misuse(kind, "a misaligned pointer set", [&] { p.set_ptr(base + off); });
    }

    // ---------------------------------------------------------------------------------------------------------- allocators
    template<typename A, typename... X>
    void null_returned(const char* kind, Rng& rng, uint64_t& trace, X&&... x)
    {
        Abandoned<A> h(std::forward<X>(x)...);
        const size_t n = rng.range(1, 100);
        trace = mix(trace ^ n);
        if (rng.chance(2, 3))
        {
            void* p = nullptr;
            use([&] { p = h->allocate(n); if (p) h->deallocate(p, n); });
            if (rng.chance(1, 2)) use([&] { p = h->allocate(n); });
        }
        misuse(kind, "nullptr returned", [&] { h->deallocate(nullptr, n); });
    }
    template<typename A> Kind returned(const char* name) { return { name, [](const char* k, Rng& r, uint64_t& t) { null_returned<A>(k, r, t); } }; }

    struct Quiet
    {
        template<typename T> Quiet& operator<<(T&&) { return *this; }
    };

    template<typename A>
    void typed_null_returned(const char* kind, Rng& rng, uint64_t& trace)
    {
        Abandoned<A> h;
        const size_t n = rng.range(1, 30);
        trace = mix(trace ^ n);
        use([&] { auto* p = h->allocate(n); if (p) h->deallocate(p, n); });
        misuse(kind, "nullptr returned", [&] { h->deallocate(nullptr, n); });
    }

    void nothing_returned(const char* kind, Rng& rng, uint64_t& trace)
    {
        null_allocator a;
        const size_t n = rng.range(1, 100);
        trace = mix(trace ^ n);
        use([&] { a.deallocate(a.allocate(n), n); a.deallocate(nullptr, 0); });
        int x = 0;
        misuse(kind, "a block returned to the null allocator", [&] { a.deallocate(&x, n); });
    }

    template<size_t N>
    void arenas(const char* kind, Rng& rng, uint64_t& trace)
    {
        using A = linear_allocator<N>;
        Abandoned<A> a, b;
        const size_t k = rng.range(1, 4), op = rng.below(4);
        trace = mix(trace ^ k ^ op << 8);
        std::vector<void*> p;
        for (size_t i = 0; i < k; i++) if (void* q = a->allocate(16)) p.push_back(q);
        switch (op)
        {
        case 0: misuse(kind, "an arena in use moved", [&] { Abandoned<A> c(std::move(*a)); consume(c); }); break;
        case 1: misuse(kind, "an arena in use moved by assignment", [&] { *b = std::move(*a); }); break;
        case 2:
            for (size_t i = p.size(); i--;) a->deallocate(p[i], 16);
            use([&] { A c(std::move(*a)); consume(c); });
            break;
        default:
            for (void* q : p) a->deallocate(q, 16);
            use([&] { *b = std::move(*a); });
        }
    }

    void lists(const char* kind, Rng& rng, uint64_t& trace)
    {
        using A = freelist<0, 64, Told>;
        const size_t op = rng.below(6), n = rng.range(1, 64), kept = rng.range(1, 5);
        trace = mix(trace ^ n ^ op << 8 ^ kept << 16);
        Abandoned<A> a(1), b(op & 1 ? 1 : 2);
        std::vector<void*> p;
        for (size_t i = 0; i < kept; i++) p.push_back(a->allocate(n));
        for (void* q : p) a->deallocate(q, n);
        switch (op)
        {
        // the allocator of the one which is assigned becomes that of the target, so it is that which has to own what is kept
        case 0: case 1: use([&] { *b = std::move(*a); void* q = b->allocate(n); b->deallocate(q, n); }); break;
        case 2: case 3: use([&] { A c(std::move(*a)); void* q = c.allocate(n); c.deallocate(q, n); }); break;
        default: use([&] { Abandoned<A> none(7); *b = std::move(*none); }); break;
        }
    }

    // Its copies are different allocators, even the one which was moved to
    struct Apart : bump
    {
        bool operator==(const Apart& o) const noexcept { return this == &o; }
        bool operator!=(const Apart& o) const noexcept { return this != &o; }
    };
    void kept_apart(const char* kind, Rng& rng, uint64_t& trace)
    {
        using A = freelist<0, 64, Apart>;
        const size_t op = rng.below(4), n = rng.range(1, 64);
        trace = mix(trace ^ n ^ op << 8);
        Abandoned<A> a, b;
        if (op < 2) { void* p = a->allocate(n); a->deallocate(p, n); }
        switch (op)
        {
        case 0: misuse(kind, "a free list with kept blocks moved to another allocator", [&] { Abandoned<A> c(std::move(*a)); consume(c); }); break;
        case 1: misuse(kind, "a free list with kept blocks assigned to another allocator", [&] { *b = std::move(*a); }); break;
        case 2: use([&] { Abandoned<A> c(std::move(*a)); consume(c); }); break;
        default: use([&] { *b = std::move(*a); });
        }
    }

    void cascades(const char* kind, Rng& rng, uint64_t& trace)
    {
        using A = cascading<Small>;
        Abandoned<A> a;
        const size_t op = rng.below(6), k = rng.range(0, 12);
        trace = mix(trace ^ k ^ op << 8);
        std::vector<uint64_t*> p;
        for (size_t i = 0; i < k; i++) p.push_back(static_cast<uint64_t*>(a->allocate(64)));
        uint64_t foreign = 0;
        for (uint64_t* q : p) use([&] { a->construct(q, 5u); a->destroy(q); });
        // An instance serves four blocks; those but the newest are dropped when empty
        bool several = false;
        for (size_t i = 0; i < k; i++)
            if (rng.chance(1, 2)) { use([&] { a->deallocate(p[i], 64); }); p[i] = nullptr; }
            else if (i / 4 != (k - 1) / 4) several = true;
        switch (op)
        {
        case 0: misuse(kind, "a construction elsewhere", [&] { a->construct(&foreign, 5u); }); break;
        case 1: misuse(kind, "a destruction elsewhere", [&] { a->destroy(&foreign); }); break;
        case 2: case 3:
            if (several && op == 2) misuse(kind, "a cascade with several instances dropped", [&] { (*a).~A(); });
            else if (several) misuse(kind, "a cascade with several instances assigned to", [&] { A b; *a = std::move(b); });
            break;
        default:
            for (uint64_t* q : p) if (q) a->deallocate(q, 64);
            if (op == 4) use([&] { (*a).~A(); });
            else use([&] { A b; *a = std::move(b); });
        }
    }

    void build()
    {
        using S24 = std::array<uint64_t, 3>;
        auto& k = kinds();
        k.push_back({ "vector of 1 byte", vectors<char, type_allocator<char, bump>> });
        k.push_back({ "vector of 4 bytes", vectors<int, type_allocator<int, bump>> });
        k.push_back({ "vector of 8 bytes", vectors<double, type_allocator<double, bump>> });
        k.push_back({ "vector of 24 bytes", vectors<S24, type_allocator<S24, bump>> });
        k.push_back({ "array of 1 byte", arrays<char, type_allocator<char, bump>> });
        k.push_back({ "array of 4 bytes", arrays<int, type_allocator<int, bump>> });
        k.push_back({ "array of 24 bytes", arrays<S24, type_allocator<S24, bump>> });
        k.push_back({ "buffer of 1 element", buffers<int, 1> });
        k.push_back({ "buffer of 4 elements", buffers<int, 4> });
        k.push_back({ "buffer of 4 large elements", buffers<S24, 4> });
        k.push_back({ "buffer of 11 elements", buffers<char, 11> });
        k.push_back({ "heap of 4 bytes", heaps<int, type_allocator<int, bump>> });
        k.push_back({ "heap of 8 bytes", heaps<uint64_t, type_allocator<uint64_t, Built>> });
        k.push_back({ "packed pointer, 1 of 1 bit", packed<1, 2> });
        k.push_back({ "packed pointer, 2 of 3 bits", packed<2, 8> });
        k.push_back({ "packed pointer, 4 of 4 bits", packed<4, 16> });
        k.push_back({ "packed pointer, 1 of 12 bits", packed<1, 4096> });
        k.push_back({ "packed pointer, none", packed<0, 1> });
        k.push_back(returned<linear_allocator<256>>("linear<256>"));
        k.push_back(returned<freelist<0, 64, bump>>("freelist<0,64>"));
        k.push_back(returned<freelist<16, 32, bump>>("freelist<16,32>"));
        k.push_back(returned<cascading<Small>>("cascading"));
        k.push_back(returned<freelist<0, 64, linear_allocator<256>>>("freelist<0,64,linear<256>>"));
        k.push_back({ "overflow", [](const char* n, Rng& r, uint64_t& t) { static Quiet q; null_returned<overflow<bump, Quiet>>(n, r, t, q); } });
        k.push_back({ "overflow<linear<512>>", [](const char* n, Rng& r, uint64_t& t) { static Quiet q; null_returned<overflow<linear_allocator<512>, Quiet>>(n, r, t, q); } });
        k.push_back({ "type<linear>", typed_null_returned<type_allocator<double, shared<linear_allocator<512>>>> });
        k.push_back({ "type<shared<freelist>>", typed_null_returned<type_allocator<int, shared<freelist<0, 64, bump>>>> });
        k.push_back({ "type<atomic_shared<threaded<cascading>>>", typed_null_returned<type_allocator<int, atomic_shared<cascading<Small>>>> });
        k.push_back({ "null", nothing_returned });
        k.push_back({ "linear<64>", arenas<64> });
        k.push_back({ "linear<4096>", arenas<4096> });
        k.push_back({ "freelist over one that can be told apart", lists });
        k.push_back({ "freelist over one that is only equal to itself", kept_apart });
        k.push_back({ "cascading, several instances", cascades });
    }
}

static void run_case(uint64_t idx, Rng& rng)
{
    if (kinds().empty()) build();
    const Kind& k = kinds()[idx % kinds().size()];
    vf::detail("%s", k.name.c_str());
    g_top = 0;
    uint64_t trace = hash_str(k.name.c_str());
    k.run(k.name.c_str(), rng, trace);
    sig(trace);
    digest(trace);
    if (idx < kinds().size()) sample(k.name);
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c41", run_case); }
