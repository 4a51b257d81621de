// C34: what operations of the containers cost. A meter counts requests, returns, comparisons, moves and copies: storage stays where it is
// while the capacity suffices, grows geometrically, and passes on when a container is moved; heaps need a logarithmic number of comparisons.
#include "vf.h"
#include <ktl/ktl.h>

#include <algorithm>
#include <memory>
#include <utility>

using namespace vf;

namespace
{
    struct Meter { uint64_t allocs = 0, frees = 0, units = 0, live = 0, last = 0, compares = 0, equals = 0, copies = 0, moves = 0; };
    Meter M;

    template<typename T>
    struct metered
    {
        using value_type = T;
        int id = 0;
        metered() noexcept = default;
        explicit metered(int i) noexcept : id(i) {}
        template<typename U> metered(const metered<U>& o) noexcept : id(o.id) {}
        T* allocate(size_t n)
        {
            M.allocs++;
            M.units += n;
            M.live += n;
            M.last = n;
            return static_cast<T*>(::operator new(n * sizeof(T) + 1));
        }
        void deallocate(T* p, size_t n) noexcept
        {
            M.frees++;
            M.live -= n;
            ::operator delete(p);
        }
        bool operator==(const metered& o) const noexcept { return id == o.id; }
        bool operator!=(const metered& o) const noexcept { return id != o.id; }
    };

    // An element which counts what is done to it
    struct Item
    {
        uint32_t v = 0;
        Item() = default;
        explicit Item(uint32_t x) : v(x) {}
        Item(const Item& o) : v(o.v) { M.copies++; }
        Item(Item&& o) noexcept : v(o.v) { M.moves++; }
        Item& operator=(const Item& o) { v = o.v; M.copies++; return *this; }
        Item& operator=(Item&& o) noexcept { v = o.v; M.moves++; return *this; }
        bool operator==(const Item& o) const { M.equals++; return v == o.v; }
        bool operator!=(const Item& o) const { M.equals++; return v != o.v; }
    };
    struct before
    {
        bool operator()(const Item& a, const Item& b) const { M.compares++; return a.v < b.v; }
        bool operator()(const uint64_t& a, const uint64_t& b) const { M.compares++; return a < b; }
    };

    struct P24 { uint64_t a, b, c; };
    template<typename T> T make(uint64_t v) { return T(uint32_t(v)); }
    template<> P24 make<P24>(uint64_t v) { return { v, v, v }; }
    template<> uint64_t make<uint64_t>(uint64_t v) { return v; }

    size_t log2of(size_t n)
    {
        size_t r = 0;
        while (n >>= 1) r++;
        return r;
    }

    struct Env { Rng& rng; const char* name; uint64_t trace; };

    template<typename C> auto capacity_of(const C& c, int) -> decltype(c.capacity()) { return c.capacity(); }
    template<typename C> size_t capacity_of(const C& c, long) { return c.size(); }

    // What a container looked like before an operation
    struct Before
    {
        Meter m = M;
        const void* data;
        size_t cap, size;
        template<typename C> explicit Before(const C& c) : data(c.data()), cap(capacity_of(c, 0)), size(c.size()) {}
    };

    // After an operation which needed room for so many elements
    template<typename C>
    void within(Env& e, const C& c, const Before& b, size_t need, const char* what)
    {
        const uint64_t a = M.allocs - b.m.allocs, f = M.frees - b.m.frees;
        if (need <= b.cap)
        {
            VF_CHECK(a == 0, "allocated-within-capacity", "%s: %s: %zu requests were made, though %zu elements fit into a capacity of %zu", e.name, what, size_t(a), need, b.cap);
            VF_CHECK(f == 0, "released-within-capacity", "%s: %s: memory was returned, though %zu elements fit into a capacity of %zu", e.name, what, need, b.cap);
            VF_CHECK(c.data() == b.data && c.capacity() == b.cap, "storage-moved", "%s: %s: the elements were moved elsewhere within the capacity", e.name, what);
            stat("within_capacity");
        }
        else
        {
            VF_CHECK(a == 1, "requests-for-growth", "%s: %s: %zu requests were made to grow from a capacity of %zu to %zu", e.name, what, size_t(a), b.cap, need);
            VF_CHECK(f <= 1, "requests-for-growth", "%s: %s: %zu blocks were returned", e.name, what, size_t(f));
            VF_CHECK(c.capacity() >= need, "capacity", "%s: %s: the capacity is %zu, %zu elements are needed", e.name, what, c.capacity(), need);
            VF_CHECK(c.capacity() <= 4 * need + 64, "wasteful", "%s: %s: a capacity of %zu for %zu elements", e.name, what, c.capacity(), need);
            stat("growths");
        }
        VF_CHECK(M.live == c.capacity(), "capacity-held", "%s: %s: a capacity of %zu, but memory for %zu elements is held", e.name, what, c.capacity(), size_t(M.live));
        e.trace = mix(e.trace ^ c.size() ^ (c.capacity() << 32));
    }

    // Growth from nothing: so many elements, so many requests
    void geometric(Env& e, const Meter& from, size_t n, size_t cap, const char* what)
    {
        const uint64_t a = M.allocs - from.allocs, u = M.units - from.units;
        VF_CHECK(a <= 16 + 8 * log2of(n + 1), "growth-requests", "%s: %s: %zu elements took %zu requests", e.name, what, n, size_t(a));
        VF_CHECK(u <= 128 + 16 * n, "growth-cost", "%s: %s: %zu elements took memory for %zu in all", e.name, what, n, size_t(u));
        VF_CHECK(cap <= 4 * n + 64, "wasteful", "%s: %s: a capacity of %zu for %zu elements", e.name, what, cap, n);
        stat("grown_one_by_one");
        stat_max("largest_grown", n);
    }

    template<typename C>
    void passed(Env& e, const C& c, const Before& b, const char* what)
    {
        VF_CHECK(M.allocs == b.m.allocs, "move-allocates", "%s: %s: %zu requests were made", e.name, what, size_t(M.allocs - b.m.allocs));
        VF_CHECK(c.data() == b.data && c.size() == b.size, "move-copies", "%s: %s: the storage was not passed on", e.name, what);
        VF_CHECK(M.moves == b.m.moves && M.copies == b.m.copies, "move-touches-elements", "%s: %s: %zu elements were moved, %zu copied", e.name, what, size_t(M.moves - b.m.moves), size_t(M.copies - b.m.copies));
        stat("passed_on");
    }

    template<typename C>
    void exchange(Env& e, C& c, C& d)
    {
        Before bd(d), bc(c);
        std::swap(c, d);
        passed(e, d, bc, "exchange");
        passed(e, c, bd, "exchange");
        std::swap(c, d);
        passed(e, c, bc, "second exchange");
        passed(e, d, bd, "second exchange");
    }

    size_t how_many(Rng& rng)
    {
        const size_t r = rng.below(40);
        return r == 0 ? rng.range(20000, 150000) : r < 8 ? rng.range(1000, 8000) : rng.range(1, 500);
    }

    // ---------------------------------------------------------------------------------------- vectors
    template<typename T>
    struct vector_case
    {
        using C = ktl::trivial_vector<T, metered<T>>;
        Env& e;
        Rng& rng;

        T one() { return make<T>(rng.next() >> 40); }

        void add(C& c, unsigned way, size_t k, const char*& what)
        {
            switch (way)
            {
            case 0: what = "push_back"; { const T t = one(); c.push_back(t); } break;
            case 1: what = "push_back of a temporary"; c.push_back(one()); break;
            case 2: what = "emplace_back"; c.emplace_back(one()); break;
            case 3: what = "emplace at the end"; c.emplace(c.end(), one()); break;
            case 4: what = "resize"; c.resize(c.size() + k); for (size_t i = c.size() - k; i < c.size(); i++) c[i] = one(); break;
            case 5: what = "emplace"; { const size_t at = rng.range(0, c.size()); c.emplace(c.begin() + at, one()); } break;
            case 6: what = "push_back of an own element"; if (c.size()) c.push_back(c[rng.below(c.size())]); else c.push_back(one()); break;
            case 8: what = "emplace at the beginning"; c.emplace(c.begin(), one()); break;
            case 9: what = "emplace in the middle"; c.emplace(c.begin() + c.size() / 2, one()); break;
            case 10: what = "emplace before the last"; c.emplace(c.begin() + (c.size() ? c.size() - 1 : 0), one()); break;
            case 11: what = "emplace after the first"; c.emplace(c.begin() + (c.size() ? 1 : 0), one()); break;
            default:
                what = "push_back of a range";
                std::vector<T> x;
                for (size_t i = 0; i < k; i++) x.push_back(one());
                c.push_back(x.data(), x.data() + k);
            }
        }

        void grow()
        {
            const Meter from = M;
            C c;
            const unsigned way = unsigned(rng.below(12));
            // Every way of growing has to be geometric on its own: either all elements come that way, or those do for which there is no room
            const bool onlyWhenFull = rng.chance(1, 2);
            const size_t n = !onlyWhenFull && (way == 5 || way >= 8) ? std::min<size_t>(how_many(rng), 3000) : how_many(rng);
            const size_t k = way == 4 || way == 7 ? rng.range(1, 7) : 1;
            const char *what = "?", *other = "?";
            while (c.size() < n)
            {
                Before b(c);
                const bool full = c.size() + k > c.capacity();
                if (full || !onlyWhenFull) { add(c, way, k, what); within(e, c, b, b.size + k, what); }
                else { add(c, 0, 1, other); within(e, c, b, b.size + 1, other); }
            }
            geometric(e, from, c.size(), c.capacity(), what);
            stat(onlyWhenFull ? "grown_by_one_operation" : "grown_uniformly");
        }

        void history()
        {
            const size_t n0 = rng.range(0, 3);
            C c(n0, one());
            const size_t steps = rng.range(5, 120);
            for (size_t s = 0; s < steps; s++)
            {
                const char* what = "?";
                Before b(c);
                size_t need = c.size();
                switch (rng.below(12))
                {
                case 0: case 1: case 2: case 3:
                {
                    const unsigned way = unsigned(rng.below(12));
                    const size_t k = way == 4 || way == 7 ? rng.range(0, rng.chance(1, 3) ? 60 : 4) : 1;
                    need += k;
                    add(c, way, k, what);
                    break;
                }
                case 4: what = "pop_back"; if (c.empty()) continue; c.pop_back(); break;
                case 5: what = "erase"; if (c.empty()) continue; c.erase(c.begin() + rng.below(c.size())); break;
                case 6:
                {
                    what = "erase of a range";
                    const size_t i = rng.range(0, c.size()), j = rng.range(i, c.size());
                    if (i == j) continue;
                    c.erase(c.begin() + i, c.begin() + j);
                    break;
                }
                case 7: what = "resize"; c.resize(rng.range(0, c.size())); break;
                case 8: what = "clear"; if (!rng.chance(1, 4)) continue; c.clear(); break;
                case 9:
                    what = "reserve";
                    need = rng.range(0, c.capacity() + (rng.chance(1, 3) ? 50 : 2));
                    c.reserve(need);
                    break;
                case 10:
                {
                    what = "looking";
                    const C& k = c;
                    size_t n = k.size() + k.capacity() + k.empty();
                    for (auto& x : k) n += sizeof x;
                    e.trace += n;
                    break;
                }
                default:
                    whole(c);
                    continue;
                }
                within(e, c, b, need, what);
            }
        }

        // Copies and moves of whole containers
        void whole(C& c)
        {
            Before b(c);
            switch (rng.below(4))
            {
            case 0:
            {
                C d(std::move(c));
                passed(e, d, b, "move construction");
                c = std::move(d);
                passed(e, c, b, "move assignment");
                break;
            }
            case 1:
            {
                const size_t n0 = rng.range(0, 9);
                C d(n0, one());
                exchange(e, c, d);
                break;
            }
            case 2:
            {
                C d(c);
                VF_CHECK(M.allocs - b.m.allocs <= 1 && M.frees == b.m.frees, "copy-requests", "%s: a copy took %zu requests", e.name, size_t(M.allocs - b.m.allocs));
                VF_CHECK(c.data() == b.data && c.capacity() == b.cap, "storage-moved", "%s: the copied container changed its storage", e.name);
                VF_CHECK(d.capacity() <= 4 * d.size() + 64, "wasteful", "%s: a copy has a capacity of %zu for %zu elements", e.name, d.capacity(), d.size());
                break;
            }
            default:
            {
                C d;
                d = c;
                VF_CHECK(M.allocs - b.m.allocs <= 1, "copy-requests", "%s: an assignment took %zu requests", e.name, size_t(M.allocs - b.m.allocs));
                VF_CHECK(c.data() == b.data && c.capacity() == b.cap, "storage-moved", "%s: the copied container changed its storage", e.name);
            }
            }
        }

        void run() { if (rng.chance(1, 4)) grow(); else history(); }
    };

    // ---------------------------------------------------------------------------------------- arrays
    template<typename T>
    struct array_case
    {
        using C = ktl::trivial_array<T, metered<T>>;
        Env& e;
        Rng& rng;

        T one() { return make<T>(rng.next() >> 40); }

        void exact(C& c, const Before& b, size_t n, const char* what)
        {
            const uint64_t a = M.allocs - b.m.allocs, f = M.frees - b.m.frees;
            if (n == b.size)
            {
                VF_CHECK(a == 0 && f == 0 && c.data() == b.data, "allocated-within-capacity", "%s: %s: an array which keeps its size of %zu made %zu requests", e.name, what, n, size_t(a));
                stat("within_capacity");
            }
            else
            {
                VF_CHECK(a <= 1 && f <= 1, "requests-for-growth", "%s: %s: %zu requests and %zu returns were made to go from %zu to %zu", e.name, what, size_t(a), size_t(f), b.size, n);
                stat("growths");
            }
            VF_CHECK(M.live == n && c.size() == n, "capacity-held", "%s: %s: %zu elements, but memory for %zu is held", e.name, what, n, size_t(M.live));
            e.trace = mix(e.trace ^ n);
        }

        void run()
        {
            const size_t n0 = rng.range(0, 20);
            C c(n0, one());
            const size_t steps = rng.range(5, 80);
            for (size_t s = 0; s < steps; s++)
            {
                Before b(c);
                size_t n = rng.chance(1, 3) ? c.size() : rng.range(0, rng.chance(1, 20) ? 3000 : 60);
                switch (rng.below(6))
                {
                case 0: case 1:
                    c.resize(n);
                    for (size_t i = b.size; i < n; i++) c[i] = one();
                    exact(c, b, n, "resize");
                    break;
                case 2: case 3:
                {
                    std::vector<T> x;
                    for (size_t i = 0; i < n; i++) x.push_back(one());
                    c.assign(x.data(), x.data() + n);
                    exact(c, b, n, "assign");
                    break;
                }
                case 4:
                {
                    C d(std::move(c));
                    passed(e, d, b, "move construction");
                    c = std::move(d);
                    passed(e, c, b, "move assignment");
                    break;
                }
                default:
                    if (rng.chance(1, 2))
                    {
                        const size_t n0 = rng.range(0, 9);
                C d(n0, one());
                        exchange(e, c, d);
                    }
                    else
                    {
                        C d(c);
                        VF_CHECK(M.allocs - b.m.allocs <= 1 && M.frees == b.m.frees, "copy-requests", "%s: a copy took %zu requests", e.name, size_t(M.allocs - b.m.allocs));
                        VF_CHECK(c.data() == b.data, "storage-moved", "%s: the copied container changed its storage", e.name);
                        VF_CHECK(M.live == 2 * c.size(), "capacity-held", "%s: a copy of %zu elements holds memory for %zu", e.name, c.size(), size_t(M.live - c.size()));
                    }
                }
            }
        }
    };

    // ---------------------------------------------------------------------------------------- heaps
    template<typename T> const T& key(const T& t) { return t; }
    inline uint32_t key(const Item& t) { return t.v; }

    template<typename T>
    struct heap_case
    {
        using C = ktl::binary_heap<T, before, metered<T>>;
        static constexpr bool counted = std::is_same_v<T, Item>;
        Env& e;
        Rng& rng;
        uint32_t serial = 0;
        unsigned order = 0; // of what is inserted

        T one()
        {
            serial++;
            switch (order)
            {
            case 0: return make<T>(serial);
            case 1: return make<T>(0x7FFFFFFF - serial);
            case 2: return make<T>(5);
            default: return make<T>(rng.next() >> 40);
            }
        }

        void effort(const Before& b, size_t n, unsigned perLevel, unsigned plus, size_t moves, bool mayCopy, const char* what)
        {
            const uint64_t cmp = M.compares - b.m.compares, mv = M.moves - b.m.moves, cp = M.copies - b.m.copies;
            const size_t levels = log2of(n + 1) + 1;
            VF_CHECK(cmp <= perLevel * levels + plus, "comparisons", "%s: %s: %zu comparisons for %zu elements", e.name, what, size_t(cmp), n);
            if (counted)
            {
                VF_CHECK(mv <= 8 * levels + 16 + moves, "moves", "%s: %s: %zu elements were moved in a heap of %zu", e.name, what, size_t(mv), n);
                VF_CHECK(cp <= (mayCopy ? 2u : 0u), "copies", "%s: %s: %zu elements were copied", e.name, what, size_t(cp));
            }
            stat("efforts_measured");
            stat("comparisons", cmp);
        }

        void insert(C& c, const char*& what)
        {
            Before b(c);
            bool copy = rng.chance(1, 3);
            if (copy) { what = "insertion of a copy"; const T t = one(); b.m = M; c.insert(t); }
            else { what = "insertion"; T t = one(); b.m = M; c.insert(std::move(t)); }
            within(e, c, b, b.size + 1, what);
            effort(b, c.size(), 2, 8, b.size + 1 > b.cap ? 2 * b.size : 0, copy, what);
        }

        void pop(C& c)
        {
            Before b(c);
            T t = c.pop();
            (void)t;
            within(e, c, b, c.size(), "pop");
            effort(b, b.size, 4, 8, 0, false, "pop");
        }

        void grow()
        {
            const Meter from = M;
            C c;
            order = unsigned(rng.below(4));
            const size_t n = how_many(rng);
            const char* what = "?";
            while (c.size() < n) insert(c, what);
            geometric(e, from, n, c.capacity(), "insertion");
            const size_t left = rng.chance(1, 2) ? 0 : n / 2;
            while (c.size() > left) pop(c);
            stat("popped_one_by_one");
        }

        void history()
        {
            C c;
            order = unsigned(rng.below(4));
            const size_t steps = rng.range(5, 150);
            for (size_t s = 0; s < steps; s++)
            {
                const char* what = "?";
                Before b(c);
                switch (rng.below(10))
                {
                case 0: case 1: case 2: case 3: case 4: insert(c, what); break;
                case 5: case 6: if (!c.empty()) pop(c); break;
                case 7:
                {
                    const size_t need = rng.range(0, c.capacity() + (rng.chance(1, 3) ? 50 : 2));
                    c.reserve(need);
                    within(e, c, b, need, "reserve");
                    VF_CHECK(M.compares == b.m.compares, "comparisons", "%s: reserve made %zu comparisons", e.name, size_t(M.compares - b.m.compares));
                    if (counted) VF_CHECK(M.copies == b.m.copies && M.moves - b.m.moves <= 2 * b.size, "moves", "%s: reserve copied %zu and moved %zu elements of %zu", e.name, size_t(M.copies - b.m.copies), size_t(M.moves - b.m.moves), b.size);
                    break;
                }
                case 8:
                    if (rng.chance(1, 8)) { c.clear(); within(e, c, b, 0, "clear"); }
                    else if (!c.empty())
                    {
                        const T t = rng.chance(1, 2) ? make<T>(0xFFFFFFF) : make<T>(key(*(c.begin() + rng.below(c.size()))));
                        b.m = M;
                        c.find(t);
                        c.peek();
                        within(e, c, b, 0, "find and peek");
                        if (counted)
                        {
                            VF_CHECK(M.equals - b.m.equals <= c.size(), "comparisons", "%s: find made %zu comparisons for %zu elements", e.name, size_t(M.equals - b.m.equals), c.size());
                            VF_CHECK(M.moves == b.m.moves && M.copies == b.m.copies, "moves", "%s: find or peek moved elements", e.name);
                        }
                    }
                    break;
                default:
                    if (rng.chance(1, 2))
                    {
                        C d(std::move(c));
                        passed(e, d, b, "move construction");
                        c = std::move(d);
                        passed(e, c, b, "move assignment");
                    }
                    else
                    {
                        C d(rng.range(0, 5));
                        d.insert(one());
                        exchange(e, c, d);
                    }
                }
            }
        }

        void run() { if (rng.chance(1, 4)) grow(); else history(); }
    };

    template<template<typename> class Case, typename T>
    void go(Env& e) { Case<T>{ e, e.rng }.run(); }

    struct Kind { const char* name; void (*run)(Env&); };
    const Kind KINDS[] = {
        { "vector of 1 byte", go<vector_case, uint8_t> },
        { "vector of 4 bytes", go<vector_case, int> },
        { "vector of 24 bytes", go<vector_case, P24> },
        { "array of 1 byte", go<array_case, uint8_t> },
        { "array of 24 bytes", go<array_case, P24> },
        { "heap of 8 bytes", go<heap_case, uint64_t> },
        { "heap of counting elements", go<heap_case, Item> },
        { "heap of counting elements", go<heap_case, Item> },
    };
}

static void run_case(uint64_t idx, Rng& rng)
{
    M = Meter();
    const Kind& k = KINDS[idx % (sizeof KINDS / sizeof *KINDS)];
    Env e{ rng, k.name, 0 };
    vf::detail("%s", k.name);
    k.run(e);
    VF_CHECK(M.live == 0 && M.allocs == M.frees, "memory-kept", "%s: memory for %zu elements was not returned", k.name, size_t(M.live));
    sig(mix(e.trace ^ hash_str(k.name)));
    digest(e.trace);
    stat("requests", M.allocs);
    stat((std::string("cases:") + k.name).c_str());
    if (idx < 8) sample(k.name);
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c34", run_case); }
