// C35: the names. Every shorthand acts as the composition its name says (compared with that composition, spelled out without wrappers, over
// other sources), its handles share their state exactly if the name says so, and get_allocator() reaches the allocator which is wrapped.
#include "leaf.h"
#include "shadow.h"
#include "subjects.h"
#include "twin.h"
#include "vf.h"
#include <ktl/ktl.h>

#include <algorithm>
#include <atomic>
#include <functional>
#include <memory>
#include <sstream>
#include <thread>

using namespace vf;
using namespace ktl;

namespace
{
    using leafs::OWNS;
    using leafs::MAXSZ;
    using leafs::SHARED;
    template<int T> using LO = leafs::leaf<T, OWNS>;
    template<int T> using LM = leafs::leaf<T, OWNS | MAXSZ>;
    template<int T> using LN = leafs::leaf<T, 0>;
    template<int T> using SH = leafs::leaf<T, OWNS | MAXSZ | SHARED>;

    struct Env
    {
        Sink sink, other;
        stack<768> block, second;
    };

    // The one side: handles of some depth
    struct Side
    {
        virtual ~Side() = default;
        virtual size_t paths() = 0;                  // ways to reach the allocator: the handle, what it wraps, what that wraps
        virtual void* allocate(size_t handle, size_t path, size_t n) = 0;
        virtual void deallocate(size_t handle, size_t path, void* p, size_t n) = 0;
        virtual int owns(size_t handle, size_t path, void* p) = 0;
        virtual size_t maximum(size_t handle, size_t path) = 0; // in bytes, SIZE_MAX if not offered
        virtual size_t handles() = 0;
        virtual bool copy(size_t handle) = 0;
        virtual void drop(size_t handle) = 0;
        virtual bool equal(size_t a, size_t b) = 0;
    };

    template<typename A, typename = void> struct offers_max : std::false_type {};
    template<typename A> struct offers_max<A, std::void_t<decltype(std::declval<const A&>().max_size())>> : std::true_type {};

    template<typename A> auto raw_allocate(A& a, size_t n) { return a.allocate(n); }

    template<typename A>
    size_t max_of(const A& a)
    {
        if constexpr (offers_max<A>::value) return a.max_size();
        else return SIZE_MAX;
    }
    template<typename A>
    int owned(const A& a, void* p)
    {
        if constexpr (offers_owns<A>::value) return a.owns(p) ? 1 : 0;
        else return -1;
    }

    // f(raw allocator) for the allocator at that depth below a typed one
    template<size_t Left, typename A, typename F>
    auto at_depth(A& a, size_t depth, F&& f) -> decltype(f(a))
    {
        if constexpr (Left > 0)
            if (depth > 0) return at_depth<Left - 1>(a.get_allocator(), depth - 1, f);
        return f(a);
    }

    template<typename C>
    struct Named : Side
    {
        using A = typename C::alias;      // typed
        using T = typename A::value_type;
        Env env;
        typename C::target target;
        std::vector<std::unique_ptr<A>> all;

        Named() { all.emplace_back(C::make(env, target)); }

        size_t paths() override { return 1 + C::levels; }
        void* allocate(size_t h, size_t path, size_t n) override
        {
            if (path == 0) return all[h]->allocate(n / sizeof(T));
            return at_depth<C::levels - 1>(all[h]->get_allocator(), path - 1, [&](auto& r) { return static_cast<void*>(r.allocate(n)); });
        }
        void deallocate(size_t h, size_t path, void* p, size_t n) override
        {
            if (path == 0) return all[h]->deallocate(static_cast<T*>(p), n / sizeof(T));
            at_depth<C::levels - 1>(all[h]->get_allocator(), path - 1, [&](auto& r) { r.deallocate(p, n); });
        }
        int owns(size_t h, size_t path, void* p) override
        {
            const A& a = *all[h];
            if (path == 0)
            {
                if constexpr (offers_owns<typename C::raw>::value) return a.owns(static_cast<T*>(p)) ? 1 : 0;
                else return -1;
            }
            return at_depth<C::levels - 1>(a.get_allocator(), path - 1, [&](auto& r) { return owned(r, p); });
        }
        size_t maximum(size_t h, size_t path) override
        {
            const A& a = *all[h];
            if (path == 0)
            {
                const size_t m = max_of(a);
                return m == SIZE_MAX ? m : m * sizeof(T);
            }
            return at_depth<C::levels - 1>(a.get_allocator(), path - 1, [&](auto& r) { return max_of(r); });
        }
        size_t handles() override { return all.size(); }
        bool copy(size_t h) override
        {
            if constexpr (C::shares)
            {
                all.emplace_back(new A(*all[h]));
                return true;
            }
            else return false;
        }
        void drop(size_t h) override { all.erase(all.begin() + long(h)); }
        bool equal(size_t a, size_t b) override { return *all[a] == *all[b] && !(*all[a] != *all[b]); }
    };

    // The other side: the composition itself
    template<typename C>
    struct Spelled
    {
        Env env;
        std::unique_ptr<typename C::raw> raw;
        Spelled() : raw(C::spell(env)) {}
    };
    struct Other
    {
        virtual ~Other() = default;
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual int owns(void* p) = 0;
        virtual size_t maximum() = 0;
    };
    template<typename C>
    struct OtherOf : Other
    {
        Spelled<C> s;
        void* allocate(size_t n) override { return s.raw->allocate(n); }
        void deallocate(void* p, size_t n) override { s.raw->deallocate(p, n); }
        int owns(void* p) override { return owned(*s.raw, p); }
        size_t maximum() override { return max_of(*s.raw); }
    };

    struct Nothing {};
    struct P24 { uint64_t v[3]; };

    template<typename Alias, typename Raw, unsigned Levels, bool Shares>
    struct plain
    {
        using alias = Alias;
        using raw = Raw;
        using target = Nothing;
        static constexpr unsigned levels = Levels;
        static constexpr bool shares = Shares;
        static Alias* make(Env&, Nothing&) { return new Alias; }
        static Raw* spell(Env&) { return new Raw; }
    };
    template<typename Alias, typename Raw, unsigned Levels, bool Shares>
    struct sunk : plain<Alias, Raw, Levels, Shares>
    {
        static Alias* make(Env& e, Nothing&) { return new Alias(e.sink); }
        static Raw* spell(Env& e) { return new Raw(e.other); }
    };
    template<typename Alias, typename Raw, unsigned Levels, bool Shares>
    struct stacked : plain<Alias, Raw, Levels, Shares>
    {
        static Alias* make(Env& e, Nothing&) { return new Alias(e.block); }
        static Raw* spell(Env& e) { return new Raw(e.second); }
    };
    template<typename Alias, typename Target, typename Raw, unsigned Levels>
    struct referring : plain<Alias, Raw, Levels, true>
    {
        using target = Target;
        static Alias* make(Env&, Target& t) { return new Alias(t); }
    };

    template<typename T, int B, int O> struct N1 : plain<type_cascading_allocator<T, LM<B>>, cascading<LM<O>>, 1, false> {};
    template<typename T, int B, int O> struct N2 : plain<type_shared_cascading_allocator<T, LM<B>>, cascading<LM<O>>, 2, true> {};
    template<typename T, int B, int O> struct N3 : plain<type_fallback_allocator<T, LO<B>, LN<B + 1>>, fallback<LO<O>, LN<O + 1>>, 1, false> {};
    template<typename T, int B, int O> struct N4 : plain<type_shared_fallback_allocator<T, LO<B>, LM<B + 1>>, fallback<LO<O>, LM<O + 1>>, 2, true> {};
    template<typename T, int B, int O> struct N5 : plain<type_freelist_allocator<T, 24, 120, SH<B>>, freelist<24, 120, SH<O>>, 1, false> {};
    template<typename T, int B, int O> struct N6 : plain<type_shared_freelist_allocator<T, 0, 96, LO<B>>, freelist<0, 96, LO<O>>, 2, true> {};
    template<typename T, int, int> struct N7 : plain<type_linear_allocator<T, 1000>, linear_allocator<1000>, 1, false> {};
    template<typename T, int, int> struct N8 : plain<type_shared_linear_allocator<T, 1000>, linear_allocator<1000>, 2, true> {};
    template<typename T, int, int> struct N9 : referring<type_reference_linear_allocator<T, 1000>, linear_allocator<1000>, linear_allocator<1000>, 2> {};
    template<typename T, int B, int O> struct N10 : sunk<type_overflow_allocator<T, LO<B>, Sink>, overflow<LO<O>, Sink>, 1, false> {};
    template<typename T, int B, int O> struct N11 : sunk<type_shared_overflow_allocator<T, LM<B>, Sink>, overflow<LM<O>, Sink>, 2, true> {};
    template<typename T, int B, int O> struct N12 : plain<type_segragator_allocator<T, 64, LO<B>, LO<B + 1>>, segragator<64, LO<O>, LO<O + 1>>, 1, false> {};
    template<typename T, int B, int O> struct N13 : plain<type_shared_segragator_allocator<T, 100, LM<B>, LO<B + 1>>, segragator<100, LM<O>, LO<O + 1>>, 2, true> {};
    template<typename T, int B, int O> struct N14 : referring<type_reference_segragator_allocator<T, 48, LO<B>, LN<B + 1>>, segragator<48, LO<B>, LN<B + 1>>, segragator<48, LO<O>, LN<O + 1>>, 2> {};
    template<typename T, int, int> struct N15 : stacked<type_stack_allocator<T, 768>, stack_allocator<768>, 1, false> {};
    template<typename T, int, int> struct N16 : stacked<type_shared_stack_allocator<T, 768>, stack_allocator<768>, 2, true> {};
    template<typename T, int B, int O> struct N17 : plain<type_shared<T, LM<B>>, LM<O>, 2, true> {};
    template<typename T, int B, int O> struct N18 : plain<type_atomic_shared<T, LO<B>>, LO<O>, 2, true> {};
    template<typename T, int B, int O> struct N19 : plain<type_shared_threaded<T, LM<B>>, LM<O>, 3, true> {};
    template<typename T, int B, int O> struct N20 : plain<type_shared_threaded<T, cascading<LM<B>>>, cascading<LM<O>>, 3, true> {};
    template<typename T, int B, int O> struct N21 : plain<type_allocator<T, atomic_shared<fallback<LO<B>, LO<B + 1>>>>, fallback<LO<O>, LO<O + 1>>, 2, true> {};
    template<typename T, int B, int O> struct N22 : referring<type_allocator<T, reference<threaded<LM<B>>>>, threaded<LM<B>>, LM<O>, 3> {};
    template<typename T, int B, int O> struct N23 : plain<type_allocator<T, threaded<LO<B>>>, LO<O>, 2, false> {};
    template<typename T, int B, int O> struct N24 : plain<type_allocator<T, shared<shared<freelist<0, 64, LO<B>>>>>, freelist<0, 64, LO<O>>, 3, true> {};

    struct Kind
    {
        std::string name;
        size_t unit;
        bool arena;
        std::function<std::unique_ptr<Side>()> named;
        std::function<std::unique_ptr<Other>()> spelled;
    };
    std::vector<Kind>& kinds() { static auto* k = new std::vector<Kind>; return *k; }

    template<template<typename, int, int> class N, typename T>
    void add(const char* name, bool arena)
    {
        using C = N<T, 0, TWIN>;
        kinds().push_back({ fmt("%s of %zu bytes", name, sizeof(T)), sizeof(T), arena, [] { return std::unique_ptr<Side>(new Named<C>); }, [] { return std::unique_ptr<Other>(new OtherOf<C>); } });
    }
    template<template<typename, int, int> class N>
    void each(const char* name, bool arena = false)
    {
        add<N, char>(name, arena);
        add<N, int>(name, arena);
        add<N, P24>(name, arena);
    }

    void build()
    {
        each<N1>("type_cascading_allocator");
        each<N2>("type_shared_cascading_allocator");
        each<N3>("type_fallback_allocator");
        each<N4>("type_shared_fallback_allocator");
        each<N5>("type_freelist_allocator");
        each<N6>("type_shared_freelist_allocator");
        each<N7>("type_linear_allocator", true);
        each<N8>("type_shared_linear_allocator", true);
        each<N9>("type_reference_linear_allocator", true);
        each<N10>("type_overflow_allocator");
        each<N11>("type_shared_overflow_allocator");
        each<N12>("type_segragator_allocator");
        each<N13>("type_shared_segragator_allocator");
        each<N14>("type_reference_segragator_allocator");
        each<N15>("type_stack_allocator", true);
        each<N16>("type_shared_stack_allocator", true);
        each<N17>("type_shared");
        each<N18>("type_atomic_shared");
        each<N19>("type_shared_threaded");
        each<N20>("type_shared_threaded<cascading>");
        each<N21>("type<atomic_shared<fallback>>");
        each<N22>("type<reference<threaded>>");
        each<N23>("type<threaded>");
        each<N24>("type<shared<shared<freelist>>>");
    }

    struct Driver : Twins
    {
        const Kind& k;
        Rng& rng;
        Shadow sm, ss;
        uint64_t trace = 0;
        std::unique_ptr<Side> m;
        std::unique_ptr<Other> s;
        char *m0 = nullptr, *s0 = nullptr; // the first addresses: where arenas begin

        Driver(const Kind& kind, Rng& r, uint64_t salt) : Twins(kind.name), k(kind), rng(r), sm(salt), ss(salt) {}

        void check(const char* what)
        {
            size_t where = 0;
            const Block* b = sm.damaged(&where);
            VF_CHECK(!b, "contents", "%s: %s: a block of %zu bytes changed at %zu", k.name.c_str(), what, b ? b->n : 0, where);
            ledgers(what);
        }

        void allocate()
        {
            const size_t n = (rng.chance(1, 3) ? rng.range(0, 130) : rng.range(0, rng.chance(1, 10) ? 1500 : 300)) / k.unit * k.unit;
            const size_t h = rng.below(m->handles()), path = rng.below(m->paths());
            Seen e;
            void* p = m->allocate(h, path, n);
            e.m = slice();
            void* q = s->allocate(n);
            e.s = slice();
            VF_CHECK(!p == !q, "outcome", "%s: %zu bytes through path %zu were %s, the composition itself %s them", k.name.c_str(), n, path, p ? "served" : "refused", q ? "serves" : "refuses");
            compare("a request", e);
            stat(path ? "requests_through_get_allocator" : "requests");
            trace = mix(trace ^ n ^ (p ? 1u << 20 : 0) ^ (e.m.size() << 24));
            if (!p) { stat("refusals"); return; }
            if (k.arena)
            {
                if (!m0) { m0 = static_cast<char*>(p); s0 = static_cast<char*>(q); }
                VF_CHECK(static_cast<char*>(p) - m0 == static_cast<char*>(q) - s0, "position", "%s: %zu bytes through path %zu were placed elsewhere than by the composition itself", k.name.c_str(), n, path);
            }
            VF_CHECK(sm.add(p, n), "overlap", "%s: a block of %zu bytes overlaps another one", k.name.c_str(), n);
            ss.add(q, n);
        }

        void give_back(size_t i)
        {
            const size_t h = rng.below(m->handles()), path = rng.below(m->paths());
            const Block b = sm.take(i), c = ss.take(i);
            Seen e;
            m->deallocate(h, path, b.p, b.n);
            e.m = slice();
            s->deallocate(c.p, c.n);
            e.s = slice();
            compare("a return", e);
            stat(path ? "returns_through_get_allocator" : "returns");
            trace = mix(trace ^ i ^ (e.m.size() << 20));
        }

        void queries()
        {
            const size_t h = rng.below(m->handles()), path = rng.below(m->paths());
            const size_t a = m->maximum(h, path), b = s->maximum();
            VF_CHECK(path == 0 ? a == (b == SIZE_MAX ? b : b / k.unit * k.unit) || (b == SIZE_MAX) : a == b, "maximum", "%s: the maximum through path %zu is %zu bytes, that of the composition itself %zu", k.name.c_str(), path, a, b);
            if (!sm.live.empty())
            {
                const size_t i = rng.below(sm.live.size());
                if (sm.live[i].n > 0)
                {
                    const int x = m->owns(h, path, sm.live[i].p), y = s->owns(ss.live[i].p);
                    VF_CHECK(x == y, "owns", "%s: asked for a block through path %zu the answer is %d, that of the composition itself %d", k.name.c_str(), path, x, y);
                }
            }
            static char nobody[64];
            VF_CHECK(m->owns(h, path, nobody) == s->owns(nobody), "owns", "%s: asked for foreign memory through path %zu the answers differ", k.name.c_str(), path);
            const size_t g = rng.below(m->handles());
            VF_CHECK(m->equal(h, g), "unequal", "%s: two handles to one allocator are not equal", k.name.c_str());
            w.log.clear();
            stat("queries");
        }

        void run()
        {
            w.reset();
            w.logging = true;
            for (int t = 0; t < TWIN; t++)
            {
                auto& c = w.cfg[t];
                if (rng.chance(2, 3)) c.cap = rng.range(64, rng.chance(1, 2) ? 600 : 3000);
                if (rng.chance(1, 3)) c.maxSingle = rng.range(0, 400);
                c.maxReport = rng.chance(1, 2) ? c.maxSingle : SIZE_MAX;
                w.cfg[t + TWIN] = c;
            }
            m = k.named();
            s = k.spelled();
            slice();
            const size_t steps = rng.range(10, 200);
            for (size_t n = 0; n < steps; n++)
            {
                vf::detail("%s, step %zu", k.name.c_str(), n);
                const unsigned r = unsigned(rng.below(100));
                if (r < 50) allocate();
                else if (r < 85) { if (!sm.live.empty()) give_back(rng.chance(1, 2) ? sm.live.size() - 1 : rng.below(sm.live.size())); }
                else if (r < 92) queries();
                else if (r < 97 && m->handles() < 12) { if (m->copy(rng.below(m->handles()))) stat("handles_copied"); }
                else if (m->handles() > 1) { m->drop(rng.below(m->handles())); stat("handles_dropped"); }
                auto l = slice();
                VF_CHECK(l.empty(), "touched", "%s: copying or dropping a handle touched a source", k.name.c_str());
                check("an operation");
            }
            while (!sm.live.empty()) give_back(rng.below(sm.live.size()));
            while (m->handles() > 1)
            {
                m->drop(0);
                VF_CHECK(slice().empty(), "touched", "%s: dropping a handle which is not the last touched a source", k.name.c_str());
            }
            m.reset();
            Seen e;
            e.m = slice();
            s.reset();
            e.s = slice();
            compare("destroying it", e);
            ledgers("destroying it");
            VF_CHECK(w.liveBlocks == 0 && w.instances == w.sharedStates(), "kept", "%s: %zu blocks and %zu sources remain", k.name.c_str(), size_t(w.liveBlocks), size_t(w.instances - w.sharedStates()));
            stat("histories");
        }
    };

    // The names of heaps
    void heaps(Rng& rng)
    {
        binary_min_heap<int> lo;
        binary_max_heap<int, type_mallocator<int>> hi;
        std::vector<int> v;
        const size_t n = rng.range(1, 60);
        for (size_t i = 0; i < n; i++)
        {
            const int x = int(rng.below(100)) - 50;
            v.push_back(x);
            lo.insert(x);
            hi.insert(x);
        }
        std::sort(v.begin(), v.end());
        for (size_t i = 0; i < n; i++)
        {
            VF_CHECK(lo.peek() == v[i] && lo.pop() == v[i], "min-heap", "binary_min_heap did not give its elements in ascending order");
            VF_CHECK(hi.peek() == v[n - 1 - i] && hi.pop() == v[n - 1 - i], "max-heap", "binary_max_heap did not give its elements in descending order");
        }
        stat("heaps");
    }

    // The names which promise that threads can share: handles are copied, used and dropped by several threads
    std::atomic<long> g_alive{ 0 };
    struct counted
    {
        char bytes[4096];
        size_t used = 0;
        counted() noexcept { g_alive++; }
        counted(const counted&) = delete;
        ~counted() { g_alive--; }
        void* allocate(size_t n) noexcept
        {
            n = (n + 15) / 16 * 16;
            if (n > sizeof bytes - used) return nullptr;
            void* p = bytes + used;
            used += n;
            return p;
        }
        void deallocate(void*, size_t) noexcept {}
        bool operator==(const counted& o) const noexcept { return this == &o; }
        bool operator!=(const counted& o) const noexcept { return this != &o; }
    };

    template<typename H, bool Locked>
    void in_threads(Rng& rng, const char* name)
    {
        {
            auto first = std::make_unique<H>();
            const int threads = int(rng.range(2, 5));
            std::atomic<int> ready{ 0 };
            std::vector<std::thread> ts;
            std::vector<std::unique_ptr<H>> seeds;
            for (int t = 0; t < threads; t++) seeds.emplace_back(new H(*first));
            const uint64_t salt = rng.next();
            for (int t = 0; t < threads; t++)
                ts.emplace_back([&, t, h = std::move(seeds[size_t(t)])]() mutable {
                    Rng r(salt + uint64_t(t));
                    ready.fetch_add(1);
                    while (ready.load(std::memory_order_relaxed) < threads) {}
                    std::vector<H> mine;
                    for (int i = 0; i < 60; i++)
                    {
                        if (r.chance(2, 3) || mine.empty()) mine.push_back(mine.empty() ? *h : mine[r.below(mine.size())]);
                        else mine.pop_back();
                        if constexpr (Locked)
                            if (void* p = mine.empty() ? nullptr : mine.back().allocate(2)) { static_cast<unsigned char*>(p)[0] = 1; mine.back().deallocate(static_cast<typename H::value_type*>(p), 2); }
                    }
                    if (t & 1) h.reset();
                    mine.clear();
                    h.reset();
                });
            first.reset();
            for (auto& t : ts) t.join();
        }
        VF_CHECK(g_alive.load() == 0, "state-kept", "%s: %ld states remain after all handles are gone", name, g_alive.load());
        stat("shared_by_threads");
    }
}

static void run_case(uint64_t idx, Rng& rng)
{
    const char* mode = getenv("VF_MODE");
    if (mode && !strcmp(mode, "threads"))
    {
        switch (idx % 3)
        {
        case 0: in_threads<type_shared_threaded<int, counted>, true>(rng, "type_shared_threaded"); break;
        case 1: in_threads<type_atomic_shared<int, counted>, false>(rng, "type_atomic_shared"); break;
        default: in_threads<type_atomic_shared<int, threaded<counted>>, true>(rng, "type_atomic_shared<threaded>"); break;
        }
        sig(rng.next());
        return;
    }
    if (kinds().empty()) build();
    const Kind& k = kinds()[idx % kinds().size()];
    Driver d(k, rng, idx + 1);
    d.run();
    heaps(rng);
    sig(d.trace);
    digest(d.trace);
    if (idx < kinds().size()) sample(k.name);
    stat(("cases:" + k.name).c_str());
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c35", run_case); }
