// C40: where memory comes from. All requests at the C heap, directly or by operator new, are counted during operations of the library, over sources
// which live in static memory. What each operation has to request follows from the composition: nothing, except for heap allocators (one
// request per block), counted states (one per state) and cascading allocators (one per instance).
#include "vf.h"
#include <ktl/ktl.h>

#include <algorithm>
#include <array>
#include <cerrno>
#include <cstdlib>
#include <functional>
#include <memory>
#include <new>
#include <vector>

// ---------------------------------------------------------------------------------------------------------- the heap
static thread_local int t_armed = 0;
static uint64_t g_requests = 0, g_returns = 0, g_last = 0;

extern "C"
{
    void* __real_malloc(size_t);
    void __real_free(void*);
    void* __real_calloc(size_t, size_t);
    void* __real_realloc(void*, size_t);
    int __real_posix_memalign(void**, size_t, size_t);
    void* __real_aligned_alloc(size_t, size_t);

    static void requested(size_t n) { if (t_armed > 0) { g_requests++; g_last = n; } }
    void* __wrap_malloc(size_t n) { requested(n); return __real_malloc(n); }
    void __wrap_free(void* p) { if (p && t_armed > 0) { g_returns++; } __real_free(p); }
    void* __wrap_calloc(size_t a, size_t b) { requested(a * b); return __real_calloc(a, b); }
    void* __wrap_realloc(void* p, size_t n) { requested(n); return __real_realloc(p, n); }
    int __wrap_posix_memalign(void** p, size_t a, size_t n) { requested(n); return __real_posix_memalign(p, a, n); }
    void* __wrap_aligned_alloc(size_t a, size_t n) { requested(n); return __real_aligned_alloc(a, n); }
}

static void* taken(size_t n, size_t a)
{
    if (t_armed > 0) { g_requests++; g_last = n; }
    void* p = a > alignof(std::max_align_t) ? __real_aligned_alloc(a, (n + a - 1) / a * a) : __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void given(void* p)
{
    if (p && t_armed > 0) { g_returns++; }
    __real_free(p);
}
void* operator new(size_t n) { return taken(n, 1); }
void* operator new[](size_t n) { return taken(n, 1); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return taken(n, 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return taken(n, 1); }
void* operator new(size_t n, std::align_val_t a) { return taken(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return taken(n, size_t(a)); }
void operator delete(void* p) noexcept { given(p); }
void operator delete[](void* p) noexcept { given(p); }
void operator delete(void* p, size_t) noexcept { given(p); }
void operator delete[](void* p, size_t) noexcept { given(p); }
void operator delete(void* p, std::align_val_t) noexcept { given(p); }
void operator delete[](void* p, std::align_val_t) noexcept { given(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { given(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { given(p); }

using namespace vf;
using namespace ktl;

namespace
{
    struct Armed
    {
        Armed() { t_armed++; }
        ~Armed() { t_armed--; }
    };

    // ---------------------------------------------------------------------------------------------------- static sources
    constexpr size_t REGION = 16384, REGIONS = 400;
    alignas(64) char g_memory[REGIONS][REGION];
    bool g_taken[REGIONS];
    uint64_t g_made = 0, g_dropped = 0;
    size_t g_cap = REGION;
    bool in_static(const void* p) { const uintptr_t c = uintptr_t(p), from = uintptr_t(&g_memory); return c >= from && c < from + sizeof g_memory; }

    // Blocks in a region of static memory, which is used from its start until everything was returned
    struct region_source
    {
        size_t at;
        size_t top = 0, live = 0;
        region_source() noexcept
        {
            at = 0;
            while (at < REGIONS && g_taken[at]) at++;
            if (at == REGIONS) { std::fprintf(stderr, "out of regions\n"); std::abort(); }
            g_taken[at] = true;
            g_made++;
        }
        region_source(region_source&& o) noexcept : at(o.at), top(o.top), live(o.live) { o.at = REGIONS; o.top = o.live = 0; g_made++; }
        region_source& operator=(region_source&& o) noexcept
        {
            if (this != &o)
            {
                if (at < REGIONS) g_taken[at] = false;
                at = o.at; top = o.top; live = o.live;
                o.at = REGIONS; o.top = o.live = 0;
            }
            return *this;
        }
        ~region_source() { if (at < REGIONS) g_taken[at] = false; g_dropped++; }
        bool operator==(const region_source& o) const noexcept { return at == o.at; }
        bool operator!=(const region_source& o) const noexcept { return at != o.at; }
        void* allocate(size_t n) noexcept
        {
            if (at >= REGIONS || n > g_cap) return nullptr;
            const size_t need = n ? (n + 15) / 16 * 16 : 16;
            if (top + need > g_cap) return nullptr;
            void* p = g_memory[at] + top;
            top += need;
            live++;
            return p;
        }
        void deallocate(void* p, size_t n) noexcept
        {
            const size_t need = n ? (n + 15) / 16 * 16 : 16;
            if (static_cast<char*>(p) + need == g_memory[at] + top) top -= need;
            if (--live == 0) top = 0;
        }
        bool owns(void* p) const noexcept { return at < REGIONS && p >= g_memory[at] && p < g_memory[at] + REGION; }
    };
    struct source : region_source
    {
        size_t max_size() const noexcept { return g_cap / 16 * 16; }
        template<typename T, typename... A> void construct(T* p, A&&... a) { ::new (static_cast<void*>(p)) T(std::forward<A>(a)...); }
        template<typename T> void destroy(T* p) { p->~T(); }
    };

    // Says nothing and keeps nothing
    struct Quiet
    {
        uint64_t items = 0;
        template<typename T> Quiet& operator<<(T&&) { items++; return *this; }
    };
    Quiet& quiet() { static Quiet q; return q; }

    // ------------------------------------------------------------------------------------------------- what is expected
    struct Counts
    {
        uint64_t requests = g_requests, returns = g_returns, made = g_made, dropped = g_dropped;
    };
    struct Delta
    {
        uint64_t requests, returns, made, dropped;
    };

    struct Env
    {
        std::string name;
        Delta since(const Counts& c) const
        {
            stat("operations_watched");
            return { g_requests - c.requests, g_returns - c.returns, g_made - c.made, g_dropped - c.dropped };
        }
        void nothing(const Counts& c, const char* what) const
        {
            const Delta d = since(c);
            VF_CHECK(!d.requests && !d.returns, "heap-used", "%s: %s: %zu requests and %zu returns at the heap", name.c_str(), what, size_t(d.requests), size_t(d.returns));
            stat("operations_without_heap");
        }
    };

    struct Plain { static constexpr size_t states = 0, perInstance = 0; static constexpr bool heap = false, keeps = false; };
    template<size_t S> struct States : Plain { static constexpr size_t states = S; };
    // The sources an instance of the cascading allocator consists of
    template<size_t K, size_t S = 0> struct Instances : Plain { static constexpr size_t perInstance = K, states = S; };
    struct Kept : Plain { static constexpr bool keeps = true; };
    struct Heap : Plain { static constexpr bool heap = true; };
    struct HeapKept : Heap { static constexpr bool keeps = true; };
    template<size_t K, bool Keeps = false, size_t S = 0> struct HeapInstances : Plain { static constexpr size_t perInstance = K, states = S; static constexpr bool heap = true, keeps = Keeps; };

    struct Default { template<typename A> static A make() { return A(); } };
    struct Streamed { template<typename A> static A make() { return A(quiet()); } };

    template<typename A, typename = void> struct has_unit : std::false_type { static constexpr size_t unit = 1; };
    template<typename A> struct has_unit<A, std::void_t<typename A::value_type>> : std::true_type { static constexpr size_t unit = sizeof(typename A::value_type); };
    template<typename A, typename = void> struct asks_owns : std::false_type {};
    template<typename A> struct asks_owns<A, std::void_t<decltype(std::declval<const A&>().owns(std::declval<void*>()))>> : std::true_type {};
    template<typename A, typename = void> struct asks_max : std::false_type {};
    template<typename A> struct asks_max<A, std::void_t<decltype(std::declval<const A&>().max_size())>> : std::true_type {};
    template<typename A, typename T, typename = void> struct constructs : std::false_type {};
    template<typename A, typename T> struct constructs<A, T, std::void_t<decltype(std::declval<A&>().construct(std::declval<T*>(), std::declval<const T&>())), decltype(std::declval<A&>().destroy(std::declval<T*>()))>> : std::true_type {};

    struct Obj { uint64_t a, b; };
    template<typename A, typename = void> struct object { using type = Obj; };
    template<typename A> struct object<A, std::void_t<typename A::value_type>> { using type = typename A::value_type; };

    struct Held { void* p; size_t n; bool heap; };

    template<typename A, typename X, typename Mk>
    void drive(const Env& e, Rng& rng, const std::vector<size_t>& sizes, uint64_t& trace)
    {
        constexpr size_t unit = has_unit<A>::unit;
        using T = typename object<A>::type;
        g_cap = X::perInstance ? rng.range(8, 128) * 16 : REGION;
        std::vector<Held> held;
        alignas(A) unsigned char place[2][sizeof(A)];
        int cur = 0;
        auto at = [&](int i) -> A& { return *std::launder(reinterpret_cast<A*>(place[i])); };
        Counts c0;
        { Armed on; ::new (static_cast<void*>(place[0])) A(Mk::template make<A>()); }
        {
            const Delta d = e.since(c0);
            VF_CHECK(d.requests == X::states && d.returns == 0, "heap-used", "%s: making it: %zu requests and %zu returns at the heap, it has %zu counted states", e.name.c_str(),
                size_t(d.requests), size_t(d.returns), X::states);
        }
        auto give = [&](size_t k) {
            const Held h = held[k];
            held.erase(held.begin() + ptrdiff_t(k));
            Counts c;
            {
                Armed on;
                if constexpr (has_unit<A>::value) at(cur).deallocate(static_cast<T*>(h.p), h.n / unit);
                else at(cur).deallocate(h.p, h.n);
            }
            const Delta d = e.since(c);
            const uint64_t inst = X::perInstance ? d.dropped / (X::perInstance ? X::perInstance : 1) : 0;
            const uint64_t most = inst + (h.heap ? 1 : 0), least = inst + (h.heap && !X::keeps ? 1 : 0);
            VF_CHECK(d.requests == 0, "heap-used", "%s: a return of %zu bytes: %zu requests at the heap", e.name.c_str(), h.n, size_t(d.requests));
            VF_CHECK(d.returns >= least && d.returns <= most, "heap-used", "%s: a return of %zu bytes: %zu returns at the heap, %zu to %zu are due", e.name.c_str(), h.n, size_t(d.returns), size_t(least), size_t(most));
            if (!most) stat("operations_without_heap");
            stat("returns");
        };
        const size_t steps = rng.range(5, 120), bias = rng.range(30, 80);
        for (size_t s = 0; s < steps; s++)
        {
            const size_t what = rng.below(100);
            if (what < bias)
            {
                size_t n;
                switch (rng.below(4))
                {
                case 0: n = sizes[rng.below(sizes.size())]; break;
                case 1: n = sizes[rng.below(sizes.size())] + rng.below(3); n -= n ? 1 : 0; break;
                case 2: n = rng.below(3000); break;
                default: n = rng.below(100); break;
                }
                n = (n + unit - 1) / unit * unit;
                void* p;
                Counts c;
                {
                    Armed on;
                    if constexpr (has_unit<A>::value) p = at(cur).allocate(n / unit);
                    else p = at(cur).allocate(n);
                }
                const Delta d = e.since(c);
                const bool fromHeap = X::heap && p && !in_static(p) && !(p >= place && p < place + 2);
                const uint64_t inst = X::perInstance ? d.made / (X::perInstance ? X::perInstance : 1) : 0, gone = X::perInstance ? d.dropped / (X::perInstance ? X::perInstance : 1) : 0;
                const uint64_t most = inst + (fromHeap ? 1 : 0), least = inst + (fromHeap && !X::keeps ? 1 : 0);
                VF_CHECK(d.requests >= least && d.requests <= most, "heap-used", "%s: a request of %zu bytes: %zu requests at the heap, %zu to %zu are due", e.name.c_str(), n, size_t(d.requests), size_t(least), size_t(most));
                VF_CHECK(d.returns == gone, "heap-used", "%s: a request of %zu bytes: %zu returns at the heap, %zu are due", e.name.c_str(), n, size_t(d.returns), size_t(gone));
                if (fromHeap && !X::keeps && !inst) VF_CHECK(g_last >= n && g_last <= n + 1024, "heap-amount", "%s: a request of %zu bytes: %zu were requested at the heap", e.name.c_str(), n, size_t(g_last));
                if (!most && !d.returns) stat("operations_without_heap");
                if (fromHeap) stat("served_by_the_heap");
                if (inst) stat("instances");
                trace = mix(trace ^ n << 1 ^ uint64_t(p != nullptr));
                if (!p) { stat("refusals"); continue; }
                stat("allocations");
                std::memset(p, int(s), n);
                held.push_back({ p, n, fromHeap });
            }
            else if (what < 80) { if (!held.empty()) give(rng.chance(1, 2) ? held.size() - 1 : rng.below(held.size())); }
            else if (what < 86)
            {
                if (held.empty()) continue;
                const Held& h = held[rng.below(held.size())];
                if (h.n < sizeof(T)) continue;
                const T value{};
                Counts c;
                if constexpr (constructs<A, T>::value)
                {
                    Armed on;
                    at(cur).construct(static_cast<T*>(h.p), value);
                    at(cur).destroy(static_cast<T*>(h.p));
                }
                e.nothing(c, "a construction and destruction");
                stat("constructions");
            }
            else if (what < 93)
            {
                Counts c;
                {
                    Armed on;
                    const A& q = at(cur);
                    bool x = q == q;
                    x = q != q || x;
                    if constexpr (asks_owns<A>::value) if (!held.empty()) x = q.owns(held[0].p);
                    if constexpr (asks_owns<A>::value) x = q.owns(&c) || x;
                    size_t m = 0;
                    if constexpr (asks_max<A>::value) m = q.max_size();
                    asm volatile("" : : "r"(x), "r"(m));
                }
                if constexpr (X::perInstance == 0) e.nothing(c, "a question");
                else
                {
                    // without an instance it may have to make one to find out what it could serve
                    const Delta d = e.since(c);
                    VF_CHECK(!d.made || X::heap || held.empty(), "heap-used", "%s: a question with %zu blocks outstanding: %zu instances were made", e.name.c_str(), held.size(), size_t(d.made / X::perInstance));
                    VF_CHECK(d.requests == d.made / X::perInstance && d.returns == d.dropped / X::perInstance && d.made == d.dropped, "heap-used",
                        "%s: a question: %zu requests and %zu returns at the heap, %zu instances were made and %zu dropped", e.name.c_str(), size_t(d.requests), size_t(d.returns), size_t(d.made / X::perInstance), size_t(d.dropped / X::perInstance));
                }
                stat("questions");
            }
            else if (what < 97)
            {
                if constexpr (std::is_copy_constructible_v<A>)
                {
                    Counts c;
                    {
                        Armed on;
                        A copy(at(cur));
                        A another(copy);
                        bool same = another == copy;
                        asm volatile("" : : "r"(same));
                        if constexpr (std::is_copy_assignable_v<A>) another = copy;
                    }
                    e.nothing(c, "copying and dropping it");
                    stat("copies");
                }
            }
            else
            {
                // what lies in the object itself or is kept in it cannot move along
                if constexpr (std::is_move_constructible_v<A> && (!has_unit<A>::value || std::is_copy_constructible_v<A>)) // typed allocators move by copying
                {
                    if (!held.empty()) continue;
                    if constexpr (X::perInstance == 0 && !X::keeps)
                    {
                        Counts c;
                        {
                            Armed on;
                            ::new (static_cast<void*>(place[1 - cur])) A(std::move(at(cur)));
                            at(cur).~A();
                        }
                        e.nothing(c, "moving it");
                        cur = 1 - cur;
                        stat("moves");
                    }
                }
            }
        }
        while (!held.empty()) give(rng.below(held.size()));
        Counts c;
        { Armed on; at(cur).~A(); }
        const Delta d = e.since(c);
        VF_CHECK(d.requests == 0, "heap-used", "%s: destroying it: %zu requests at the heap", e.name.c_str(), size_t(d.requests));
        if (!X::keeps && !X::perInstance) VF_CHECK(d.returns == X::states, "heap-used", "%s: destroying it: %zu returns at the heap, it has %zu counted states", e.name.c_str(), size_t(d.returns), X::states);
        VF_CHECK(g_requests - c0.requests == g_returns - c0.returns, "heap-lost", "%s: %zu requests were made at the heap and %zu returns", e.name.c_str(), size_t(g_requests - c0.requests), size_t(g_returns - c0.returns));
        VF_CHECK(g_made - c0.made == g_dropped - c0.dropped, "source-lost", "%s: %zu sources were made and %zu dropped", e.name.c_str(), size_t(g_made - c0.made), size_t(g_dropped - c0.dropped));
        stat("histories");
    }

    // -------------------------------------------------------------------------------------------------------- containers
    constexpr size_t SLOT = 1 << 18, SLOTS = 16;
    alignas(64) char g_slots[SLOTS][SLOT];
    bool g_slotTaken[SLOTS];
    uint64_t g_asked = 0, g_handedBack = 0;
    template<typename T, bool HeapBacked>
    struct pool
    {
        typedef T value_type;
        pool() = default;
        template<typename U> pool(const pool<U, HeapBacked>&) noexcept {}
        template<typename U> struct rebind { typedef pool<U, HeapBacked> other; };
        bool operator==(const pool&) const noexcept { return true; }
        bool operator!=(const pool&) const noexcept { return false; }
        T* allocate(size_t n)
        {
            g_asked++;
            mallocator m;
            if constexpr (HeapBacked) return static_cast<T*>(m.allocate(n * sizeof(T)));
            for (size_t i = 0; i < SLOTS; i++)
                if (!g_slotTaken[i] && n * sizeof(T) <= SLOT)
                {
                    g_slotTaken[i] = true;
                    return reinterpret_cast<T*>(g_slots[i]);
                }
            std::fprintf(stderr, "no slot for %zu bytes\n", n * sizeof(T));
            std::abort();
        }
        void deallocate(T* p, size_t n)
        {
            g_handedBack++;
            if constexpr (HeapBacked) { mallocator m; m.deallocate(p, n * sizeof(T)); }
            else g_slotTaken[(uintptr_t(p) - uintptr_t(&g_slots)) / SLOT] = false;
        }
    };

    struct Moved
    {
        uint64_t v[3];
        Moved(uint64_t x = 0) noexcept : v{ x, x + 1, x + 2 } {}
        Moved(const Moved&) noexcept = default;
        Moved(Moved&& o) noexcept : v{ o.v[0], o.v[1], o.v[2] } {}
        Moved& operator=(const Moved&) noexcept = default;
        Moved& operator=(Moved&& o) noexcept { v[0] = o.v[0]; v[1] = o.v[1]; v[2] = o.v[2]; return *this; }
        bool operator<(const Moved& o) const { return v[0] < o.v[0]; }
        bool operator==(const Moved& o) const { return v[0] == o.v[0]; }
    };

    // f runs armed; the heap is used exactly as often as the allocator is
    template<bool HeapBacked, typename F>
    void watch(const Env& e, const char* what, F&& f)
    {
        Counts c;
        const uint64_t a = g_asked, b = g_handedBack;
        { Armed on; f(); }
        const Delta d = e.since(c);
        VF_CHECK(d.requests == (HeapBacked ? g_asked - a : 0), "heap-used", "%s: %s: %zu requests at the heap, %zu at the allocator", e.name.c_str(), what, size_t(d.requests), size_t(g_asked - a));
        VF_CHECK(d.returns == (HeapBacked ? g_handedBack - b : 0), "heap-used", "%s: %s: %zu returns at the heap, %zu at the allocator", e.name.c_str(), what, size_t(d.returns), size_t(g_handedBack - b));
        stat("container_operations");
    }

    template<typename T, bool H>
    void vectors(const Env& e, Rng& rng, uint64_t& trace)
    {
        using V = trivial_vector<T, pool<T, H>>;
        using R = trivial_array<T, pool<T, H>>;
        auto one = [&] { T t{}; std::memcpy(&t, &e, 1); return t; };
        std::vector<T> some(rng.range(1, 40), one());
        alignas(V) unsigned char place[sizeof(V)];
        watch<H>(e, "making a vector", [&] { ::new (static_cast<void*>(place)) V(); });
        V& v = *std::launder(reinterpret_cast<V*>(place));
        const size_t steps = rng.range(5, 150);
        for (size_t s = 0; s < steps; s++)
        {
            const size_t r = rng.below(16), i = v.size() ? rng.below(v.size()) : 0, to = v.size() ? i + rng.below(v.size() - i + 1) : 0;
            const T x = one();
            trace = mix(trace ^ r << 8 ^ v.size());
            switch (r)
            {
            case 0: case 1: case 2: watch<H>(e, "push_back", [&] { v.push_back(x); }); break;
            case 3: watch<H>(e, "push_back of a range", [&] { v.push_back(some.data(), some.data() + some.size()); }); break;
            case 4: watch<H>(e, "emplace_back", [&] { v.emplace_back(x); }); break;
            case 5: watch<H>(e, "emplace", [&] { v.emplace(v.begin() + i, x); }); break;
            case 6: if (v.size()) watch<H>(e, "erase", [&] { v.erase(v.begin() + i); }); break;
            case 7: if (v.size()) watch<H>(e, "erase of a range", [&] { v.erase(v.begin() + i, v.begin() + to); }); break;
            case 8: if (v.size()) watch<H>(e, "pop_back", [&] { v.pop_back(); }); break;
            case 9: watch<H>(e, "reserve", [&] { v.reserve(v.size() + 5); }); break;
            case 10: watch<H>(e, "resize", [&] { const size_t n = v.size(), m = n + 3; v.resize(m); std::memset(static_cast<void*>(v.data() + n), 0, 3 * sizeof(T)); }); break;
            case 11: if (rng.chance(1, 4)) watch<H>(e, "clear", [&] { v.clear(); }); break;
            case 12: watch<H>(e, "copying", [&] { V w(v); V u; u = w; w = std::move(u); }); break;
            case 13: watch<H>(e, "looking", [&] { uint64_t n = 0; for (auto& y : v) n += reinterpret_cast<const unsigned char&>(y); asm volatile("" : : "r"(n)); }); break;
            case 14: if (v.size()) watch<H>(e, "moving", [&] { V w(std::move(v)); v = std::move(w); }); break;
            default:
                watch<H>(e, "an array", [&] { R a(v.size() + 1); for (size_t k = 0; k < a.size(); k++) a[k] = x; R b(a); R c(std::move(b)); b = c; c = std::move(a); });
            }
            if (v.size() > 3000) watch<H>(e, "clear", [&] { v.clear(); });
        }
        watch<H>(e, "destroying a vector", [&] { v.~V(); });
    }

    template<typename T, bool H>
    void heaps(const Env& e, Rng& rng, uint64_t& trace)
    {
        using Q = binary_heap<T, std::less<T>, pool<T, H>>;
        alignas(Q) unsigned char place[sizeof(Q)];
        const bool roomy = rng.chance(1, 2);
        watch<H>(e, "making a heap", [&] { if (roomy) ::new (static_cast<void*>(place)) Q(size_t(8)); else ::new (static_cast<void*>(place)) Q(); });
        Q& q = *std::launder(reinterpret_cast<Q*>(place));
        const size_t steps = rng.range(5, 200), bias = rng.range(30, 70);
        for (size_t s = 0; s < steps; s++)
        {
            const size_t r = rng.below(100);
            const T x(uint32_t(rng.below(1000)));
            trace = mix(trace ^ r << 8 ^ q.size());
            if (r < bias) watch<H>(e, "insertion", [&] { q.insert(x); });
            else if (r < 85) { if (q.size()) watch<H>(e, "removal of the root", [&] { q.pop(); }); }
            else if (r < 88) { if (q.size()) watch<H>(e, "looking", [&] { T y = q.peek(); bool f = q.find(y) == q.end(); asm volatile("" : : "r"(f)); }); }
            else if (r < 91) watch<H>(e, "reserve", [&] { q.reserve(q.size() + 4); });
            else if (r < 93) watch<H>(e, "clear", [&] { q.clear(); });
            else if (r < 97) watch<H>(e, "copying", [&] { Q a(q); Q b; b = a; a = std::move(b); });
            else watch<H>(e, "moving", [&] { Q a(std::move(q)); q = std::move(a); });
        }
        watch<H>(e, "destroying a heap", [&] { q.~Q(); });
    }

    void fixed(const Env& e, Rng& rng, uint64_t& trace)
    {
        const uint32_t k = uint32_t(rng.next());
        watch<false>(e, "a buffer", [&] { trivial_buffer<uint32_t, 64> b; for (size_t i = 0; i < b.size(); i++) b[i] = k; trivial_buffer<uint32_t, 64> c(b), d(std::move(c)); d = b; c = std::move(d); asm volatile("" : : "r"(&c) : "memory"); });
        alignas(64) char target[64];
        watch<false>(e, "a packed pointer", [&] { packed_ptr<char*, 6, 64> p(target, k), r(p); r.set_int(k >> 3); r.set_ptr(nullptr); p = r; asm volatile("" : : "r"(&p) : "memory"); });
        trace = mix(trace ^ k);
    }

    // ------------------------------------------------------------------------------------------------------------- kinds
    struct Kind { std::string name; std::function<void(const Env&, Rng&, uint64_t&)> run; };
    std::vector<Kind>& kinds() { static auto* k = new std::vector<Kind>; return *k; }
    template<typename A, typename X, typename Mk = Default>
    void add(const char* name, std::vector<size_t> sizes)
    {
        kinds().push_back({ name, [sizes](const Env& e, Rng& rng, uint64_t& t) { drive<A, X, Mk>(e, rng, sizes, t); } });
    }

    struct OnBlock { template<typename A> static A make() { static stack<2048> s; return A(s); } };
    source& lasting() { static source s; return s; }
    struct OnSource { template<typename A> static A make() { return A(lasting()); } };
    using P24 = Moved;

    void build()
    {
        lasting();
        add<source, Plain>("source", { 64 });
        add<linear_allocator<1024>, Plain>("linear<1024>", { 1024, 64 });
        add<stack_allocator<2048>, Plain, OnBlock>("stack<2048>", { 2048, 64 });
        add<null_allocator, Plain>("null", { 64 });
        add<freelist<0, 64, source>, Plain>("freelist<0,64,source>", { 64 });
        add<freelist<16, 2000, source>, Plain>("freelist<16,2000,source>", { 16, 2000 });
        add<fallback<linear_allocator<512>, source>, Plain>("fallback<linear<512>,source>", { 512, 64 });
        add<fallback<source, source>, Plain>("fallback<source,source>", { 2000 });
        add<segragator<64, source, source>, Plain>("segragator<64,source,source>", { 64 });
        add<segragator<64, freelist<0, 64, linear_allocator<4096>>, source>, Kept>("segragator<64,freelist<0,64,linear>,source>", { 64 });
        add<overflow<source, Quiet>, Plain, Streamed>("overflow<source>", { 64, 500 });
        add<overflow<fallback<linear_allocator<1024>, source>, Quiet>, Plain, Streamed>("overflow<fallback<linear,source>>", { 64, 700 });
        add<reference<source>, Plain, OnSource>("reference<source>", { 64 });
        add<type_allocator<P24, reference<source>>, Plain, OnSource>("type<24B,reference<source>>", { 48, 480 });
        add<type_allocator<uint64_t, source>, Plain>("type<8B,source>", { 64 });
        add<shared<source>, States<1>>("shared<source>", { 64 });
        add<atomic_shared<source>, States<1>>("atomic_shared<source>", { 64 });
        add<shared<fallback<linear_allocator<512>, source>>, States<1>>("shared<fallback<linear,source>>", { 512, 64 });
        add<atomic_shared<threaded<source>>, States<1>>("atomic_shared<threaded<source>>", { 64 });
        add<type_allocator<uint32_t, shared<segragator<128, freelist<0, 128, source>, source>>>, States<1>>("type<4B,shared<segragator>>", { 128, 64 });
        add<fallback<shared<freelist<0, 64, source>>, shared<source>>, States<2>>("fallback<shared<freelist>,shared<source>>", { 64 });
        add<type_shared_threaded<uint64_t, source>, States<1>>("type_shared_threaded<8B,source>", { 64 });
        add<global<source>, Plain>("global<source>", { 64 });
        add<cascading<source>, Instances<1>>("cascading<source>", { 64, 700 });
        add<cascading<fallback<linear_allocator<128>, source>>, Instances<1>>("cascading<fallback<linear<128>,source>>", { 128, 700 });
        add<cascading<fallback<source, source>>, Instances<2>>("cascading<fallback<source,source>>", { 64, 700 });
        add<freelist<0, 256, cascading<source>>, Instances<1>>("freelist<0,256,cascading<source>>", { 256 });
        add<overflow<cascading<source>, Quiet>, Instances<1>, Streamed>("overflow<cascading<source>>", { 64 });
        add<mallocator, Heap>("mallocator", { 64, 4096 });
        add<fallback<source, mallocator>, Heap>("fallback<source,mallocator>", { 2000 });
        add<segragator<256, source, mallocator>, Heap>("segragator<256,source,mallocator>", { 256 });
        add<overflow<mallocator, Quiet>, Heap, Streamed>("overflow<mallocator>", { 64 });
        add<freelist<0, 128, mallocator>, HeapKept>("freelist<0,128,mallocator>", { 128 });
        add<type_allocator<uint64_t, mallocator>, Heap>("type<8B,mallocator>", { 64 });
        add<segragator<64, freelist<0, 64, mallocator>, fallback<cascading<source>, mallocator>>, HeapInstances<1, true>>("segragator<64,freelist<mallocator>,fallback<cascading<source>,mallocator>>", { 64, 2500 });
        kinds().push_back({ "vector and array of 4 bytes, static", vectors<uint32_t, false> });
        kinds().push_back({ "vector and array of 12 bytes, static", vectors<std::array<float, 3>, false> });
        kinds().push_back({ "vector and array of 8 bytes, heap", vectors<uint64_t, true> });
        kinds().push_back({ "heap of 4 bytes, static", heaps<uint32_t, false> });
        kinds().push_back({ "heap of 24 bytes, static", heaps<Moved, false> });
        kinds().push_back({ "heap of 24 bytes, heap", heaps<Moved, true> });
        kinds().push_back({ "buffers and packed pointers", fixed });
    }
}

static void run_case(uint64_t idx, Rng& rng)
{
    if (kinds().empty()) build();
    const Kind& k = kinds()[idx % kinds().size()];
    vf::detail("%s", k.name.c_str());
    Env e{ k.name };
    uint64_t trace = hash_str(k.name.c_str());
    k.run(e, rng, trace);
    sig(trace);
    digest(trace);
    stat(("cases:" + k.name).c_str());
    if (idx < kinds().size()) sample(k.name);
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c40", run_case); }
