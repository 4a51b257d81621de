// C31: exceptions of the sources. Every composition exists twice over disjoint sets of recording sources. Requests (and creations of
// instances) of the one are made to throw at a chosen call of a source; its twin is simply not asked. From then on both must answer alike.
#include "leaf.h"
#include "memhook.h"
#include "shadow.h"
#include "subjects.h"
#include "twin.h"
#include "vf.h"
#include <ktl/ktl.h>

#include <algorithm>
#include <functional>
#include <memory>
#include <new>

using namespace vf;
using namespace ktl;

namespace
{
    struct Boom { uint64_t serial; };
    struct Bad : std::bad_alloc { uint64_t serial; explicit Bad(uint64_t s) : serial(s) {} };

    long g_throwAt = -1;       // the number of the call that throws, counted down
    uint64_t g_serial = 0, g_thrown = 0;

    void call_at_source()
    {
        if (g_throwAt < 0) return;
        if (g_throwAt-- > 0) return;
        g_thrown = ++g_serial;
        if (g_serial & 1) throw Boom{ g_serial };
        throw Bad(g_serial);
    }

    // A recording source which may throw, and says so
    template<int Tag, unsigned Flags>
    class source : public leafs::leaf<Tag, Flags>
    {
        using base = leafs::leaf<Tag, Flags>;
    public:
        source() noexcept(false) : base() { call_at_source(); }
        explicit source(int mark) noexcept(false) : base(mark) { call_at_source(); }
        source(source&&) noexcept = default;
        source(const source&) noexcept = default;
        source& operator=(source&&) noexcept = default;
        source& operator=(const source&) noexcept = default;
        bool operator==(const source& o) const noexcept { return base::operator==(o); }
        bool operator!=(const source& o) const noexcept { return base::operator!=(o); }
        void* allocate(size_t n) noexcept(false)
        {
            call_at_source();
            return base::allocate(n);
        }
        // Sources which can tell their blocks construct objects themselves, and may throw though the constructor of the object does not
        template<typename T, typename... Args, unsigned F = Flags>
        typename std::enable_if<(F & leafs::OWNS) != 0>::type construct(T* p, Args&&... args) noexcept(false)
        {
            call_at_source();
            ::new (static_cast<void*>(p)) T(std::forward<Args>(args)...);
        }
        template<typename T, unsigned F = Flags>
        typename std::enable_if<(F & leafs::OWNS) != 0>::type destroy(T* p) noexcept(false)
        {
            call_at_source();
            p->~T();
        }
    };

    struct Any
    {
        virtual ~Any() = default;
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual int owns(void* p) = 0;
        virtual bool constructs() = 0;
        virtual size_t sized() = 0;
        virtual void construct(void* p, int v) = 0;
        virtual int destroy(void* p, bool only) = 0; // the value; the object remains if only that is asked
    };

    struct Obj
    {
        int v;
        explicit Obj(int x) noexcept : v(x) {}
        ~Obj() noexcept { v = -1; }
    };
    struct P24
    {
        int v;
        char c[20];
        P24() = default;
        explicit P24(int x) noexcept : v(x), c{} {}
    };
    inline int value_of(const int& x) { return x; }
    template<typename T> int value_of(const T& x) { return x.v; }

    template<typename A, typename T, typename = void> struct constructs_t : std::false_type {};
    template<typename A, typename T> struct constructs_t<A, T, decltype(std::declval<A&>().construct(std::declval<T*>(), 1), std::declval<A&>().destroy(std::declval<T*>()), void())> : std::true_type {};

    template<typename A, bool> struct object_of { using type = Obj; };
    template<typename A> struct object_of<A, true> { using type = typename A::value_type; };

    struct Env
    {
        Sink sink;
        stack<512> block;
    };

    // The streams outlive the allocators which report to them
    std::vector<std::unique_ptr<Env>>& envs() { static auto* v = new std::vector<std::unique_ptr<Env>>; return *v; }
    Env& new_env() { envs().emplace_back(new Env); return *envs().back(); }

    struct Nothing {};

    template<typename C>
    struct Holder : Any
    {
        using A = typename C::type;
        Env& env;
        typename C::target target;
        A a;
        Holder() : env(new_env()), a(C::make(env, &target)) {}
        void* allocate(size_t n) override
        {
            if constexpr (C::unit > 1) return a.allocate(n / C::unit);
            else return a.allocate(n);
        }
        void deallocate(void* p, size_t n) override
        {
            if constexpr (C::unit > 1) a.deallocate(static_cast<typename A::value_type*>(p), n / C::unit);
            else a.deallocate(p, n);
        }
        int owns(void* p) override
        {
            if constexpr (C::unit > 1) return -1;
            else if constexpr (offers_owns<A>::value) return static_cast<const A&>(a).owns(p) ? 1 : 0;
            else return -1;
        }
        using T = typename object_of<A, (C::unit > 1)>::type;
        bool constructs() override { return constructs_t<A, T>::value; }
        size_t sized() override { return sizeof(T); }
        void construct(void* p, int v) override
        {
            if constexpr (constructs_t<A, T>::value) a.construct(static_cast<T*>(p), v);
            else ::new (p) T(v);
        }
        int destroy(void* p, bool only) override
        {
            const int v = value_of(*static_cast<T*>(p));
            if (only) return v;
            if constexpr (constructs_t<A, T>::value) a.destroy(static_cast<T*>(p));
            else static_cast<T*>(p)->~T();
            return v;
        }
    };

    struct Kind
    {
        std::string name;
        size_t unit;
        std::vector<size_t> sizes;
        std::function<std::unique_ptr<Any>(bool twin)> make;
    };
    std::vector<Kind>& kinds() { static auto* k = new std::vector<Kind>; return *k; }

    template<template<int> class C>
    void add(const char* name, std::vector<size_t> sizes)
    {
        kinds().push_back({ name, C<0>::unit, std::move(sizes), [](bool twin) { return twin ? std::unique_ptr<Any>(new Holder<C<TWIN>>) : std::unique_ptr<Any>(new Holder<C<0>>); } });
    }

    using leafs::OWNS;
    using leafs::MAXSZ;
    using leafs::SHARED;
    template<int T> using LO = source<T, OWNS>;
    template<int T> using LM = source<T, OWNS | MAXSZ>;
    template<int T> using LN = source<T, 0>;
    template<int T> using SH = source<T, OWNS | MAXSZ | SHARED>;

    template<typename A>
    struct plain
    {
        using type = A;
        using target = Nothing;
        static constexpr size_t unit = 1;
        static A make(Env&, Nothing*) { return A(); }
    };
    template<typename A>
    struct sunk
    {
        using type = A;
        using target = Nothing;
        static constexpr size_t unit = 1;
        static A make(Env& e, Nothing*) { return A(e.sink); }
    };
    template<typename A>
    struct referring
    {
        using type = reference<A>;
        using target = A;
        static constexpr size_t unit = 1;
        static type make(Env&, A* t) { return type(*t); }
    };
    // Made with an argument which an object could also be made from
    template<typename A>
    struct typed_with_argument
    {
        using type = type_allocator<int, A>;
        using target = Nothing;
        static constexpr size_t unit = 4;
        static type make(Env&, Nothing*) { return type(7); }
    };
    template<typename A>
    struct typed
    {
        using type = type_allocator<P24, A>;
        using target = Nothing;
        static constexpr size_t unit = 24;
        static type make(Env&, Nothing*) { return type(); }
    };

    template<int B> struct K1 : plain<cascading<LM<B>>> {};
    template<int B> struct K2 : plain<cascading<LO<B>>> {};
    template<int B> struct K3 : plain<fallback<LO<B>, LN<B + 1>>> {};
    template<int B> struct K4 : plain<fallback<cascading<LM<B>>, LO<B + 1>>> {};
    template<int B> struct K5 : plain<segragator<64, LN<B>, LN<B + 1>>> {};
    template<int B> struct K6 : plain<segragator<64, freelist<0, 64, SH<B>>, cascading<LM<B + 1>>>> {};
    template<int B> struct K7 : plain<freelist<16, 96, SH<B>>> {};
    template<int B> struct K8 : plain<freelist<0, 64, LO<B>>> {};
    template<int B> struct K9 : sunk<overflow<cascading<LM<B>>, Sink>> {};
    template<int B> struct K10 : plain<shared<fallback<freelist<0, 64, LO<B>>, cascading<LM<B + 1>>>>> {};
    template<int B> struct K11 : plain<atomic_shared<threaded<cascading<LO<B>>>>> {};
    template<int B> struct K12 : referring<fallback<cascading<LO<B>>, LO<B + 1>>> {};
    template<int B> struct K13 : plain<freelist<0, 64, freelist<0, 32, SH<B>>>> {};
    template<int B> struct K14 : plain<segragator<32, fallback<freelist<0, 16, SH<B>>, LO<B + 1>>, fallback<LO<B + 2>, cascading<freelist<0, 64, LO<B + 3>>>>>> {};
    template<int B> struct K15 : typed<shared<fallback<cascading<LO<B>>, freelist<0, 256, LO<B + 1>>>>> {};
    template<int B> struct K16 : sunk<overflow<LO<B>, Sink>> {};
    template<int B> struct K17 : plain<fallback<linear_allocator<256>, LN<B>>> {};
    template<int B> struct K18 : plain<threaded<fallback<LO<B>, LN<B + 1>>>> {};
    template<int B> struct K19
    {
        using type = fallback<stack_allocator<512>, LO<B>>;
        using target = Nothing;
        static constexpr size_t unit = 1;
        static type make(Env& e, Nothing*) { return type(stack_allocator<512>(e.block)); }
    };
    template<int B> struct K20 : referring<threaded<fallback<LO<B>, LN<B + 1>>>> {};
    template<int B> struct K21 : sunk<overflow<freelist<128, 256, SH<B>>, Sink>> {};
    template<int B> struct K22 : plain<freelist<0, 64, threaded<LO<B>>>> {};
    template<int B> struct K23 : plain<segragator_builder_min<LO<B>, threshold<64>, freelist<64, 256, SH<B + 1>>, threshold<256>, cascading<LM<B + 2>>>> {};
    template<int B> struct K24 : plain<fallback<null_allocator, cascading<LM<B>>>> {};
    template<int B> struct K25 : plain<cascading<cascading<LM<B>>>> {};
    template<int B> struct K26 : plain<cascading<fallback<freelist<0, 32, LO<B>>, LO<B + 1>>>> {};
    template<int B> struct K27 : plain<freelist<0, 64, cascading<LO<B>>>> {};
    template<int B> struct K28 : plain<fallback<shared<cascading<LO<B>>>, shared<freelist<0, 128, LO<B + 1>>>>> {};
    template<int B> struct K29 : plain<cascading<threaded<LO<B>>>> {};
    template<int B> struct K30 : plain<fallback_builder_max<LO<B>, LO<B + 1>, LO<B + 2>, LN<B + 3>>> {};
    template<int B> struct K31 : typed<atomic_shared<threaded<LM<B>>>> {};
    template<int B> struct K32 : typed<LN<B>> {};
    template<int B> struct K33 : typed_with_argument<shared<LO<B>>> {};
    template<int B> struct K34 : typed_with_argument<atomic_shared<threaded<LN<B>>>> {};
    template<int B> struct K35 : sunk<overflow<fallback<LO<B>, LN<B + 1>>, Sink>> {};
    template<int B> struct K36 : sunk<threaded<overflow<LO<B>, Sink>>> {};

    void build()
    {
        add<K1>("cascading<leaf max>", { 64, 300 });
        add<K2>("cascading<leaf>", { 64, 300 });
        add<K3>("fallback<leaf,leaf>", { 64 });
        add<K4>("fallback<cascading<leaf max>,leaf>", { 64, 300 });
        add<K5>("segragator<64,leaf,leaf>", { 64 });
        add<K6>("segragator<64,freelist<0,64,equal leaf>,cascading<leaf max>>", { 64 });
        add<K7>("freelist<16,96,equal leaf>", { 16, 96 });
        add<K8>("freelist<0,64,leaf>", { 64 });
        add<K9>("overflow<cascading<leaf max>>", { 100 });
        add<K10>("shared<fallback<freelist<0,64,leaf>,cascading<leaf max>>>", { 64, 200 });
        add<K11>("atomic_shared<threaded<cascading<leaf>>>", { 200 });
        add<K12>("reference<fallback<cascading<leaf>,leaf>>", { 200 });
        add<K13>("freelist<0,64,freelist<0,32,equal leaf>>", { 32, 64 });
        add<K14>("segragator<32,fallback<freelist,leaf>,fallback<leaf,cascading<freelist<0,64,leaf>>>>", { 16, 32, 64 });
        add<K15>("type<24B,shared<fallback<cascading<leaf>,freelist<0,256,leaf>>>>", { 96, 240 });
        add<K16>("overflow<leaf>", { 64 });
        add<K17>("fallback<linear<256>,leaf>", { 256, 64 });
        add<K18>("threaded<fallback<leaf,leaf>>", { 64 });
        add<K19>("fallback<stack<512>,leaf>", { 512, 128 });
        add<K20>("reference<threaded<fallback<leaf,leaf>>>", { 64 });
        add<K21>("overflow<freelist<128,256,equal leaf>>", { 1, 128 });
        add<K22>("freelist<0,64,threaded<leaf>>", { 64 });
        add<K23>("segragator_builder_min<leaf,freelist<64,256,equal leaf>,cascading<leaf max>>", { 64, 256 });
        add<K24>("fallback<null,cascading<leaf max>>", { 100 });
        add<K25>("cascading<cascading<leaf max>>", { 100, 300 });
        add<K26>("cascading<fallback<freelist<0,32,leaf>,leaf>>", { 32, 100 });
        add<K27>("freelist<0,64,cascading<leaf>>", { 64 });
        add<K28>("fallback<shared<cascading<leaf>>,shared<freelist<0,128,leaf>>>", { 128, 200 });
        add<K29>("cascading<threaded<leaf>>", { 100 });
        add<K30>("fallback_builder_max<leaf,leaf,leaf,leaf>", { 64 });
        add<K31>("type<24B,atomic_shared<threaded<leaf max>>>", { 96, 240 });
        add<K32>("type<24B,leaf>", { 96, 240 });
        add<K33>("type<4B,shared<leaf>>(argument)", { 64 });
        add<K34>("type<4B,atomic_shared<threaded<leaf>>>(argument)", { 64 });
        add<K35>("overflow<fallback<leaf,leaf>>", { 64 });
        add<K36>("threaded<overflow<leaf>>", { 64 });
    }

    struct Driver : Twins
    {
        const Kind& k;
        Rng& rng;
        Shadow sm, ss;           // contents of the blocks; both have the same order
        uint64_t trace = 0;
        std::unique_ptr<Any> m, s;
        bool uncounted = false;  // whether an object whose destruction threw still counts is open

        Driver(const Kind& kind, Rng& r, uint64_t salt) : Twins(kind.name), k(kind), rng(r), sm(salt), ss(salt) {}

        void contents(const char* what)
        {
            size_t where = 0;
            const Block* b = sm.damaged(&where);
            VF_CHECK(!b, "contents", "%s: %s: a block of %zu bytes changed at %zu", k.name.c_str(), what, b ? b->n : 0, where);
            stat("blocks_verified", sm.live.size());
        }

        size_t size()
        {
            size_t n;
            switch (rng.below(6))
            {
            case 0: n = rng.below(17); break;
            case 1: n = k.sizes[rng.below(k.sizes.size())]; break;
            case 2: n = k.sizes[rng.below(k.sizes.size())] + rng.below(3); n = n ? n - 1 : 0; break;
            case 3: n = rng.below(400); break;
            default: n = rng.below(100); break;
            }
            return (n + k.unit - 1) / k.unit * k.unit;
        }

        struct Footprint
        {
            uint64_t heap, heapBytes, blocks, bytes, instances;
            bool operator==(const Footprint& o) const { return heap == o.heap && heapBytes == o.heapBytes && blocks == o.blocks && bytes == o.bytes && instances == o.instances; }
        };
        Footprint footprint() { return { memhook::get().live_blocks, memhook::get().live_bytes, w.liveBlocks, w.liveBytes, w.instances - w.sharedStates() }; }

        // Runs f, whose at-th call of a source throws. Returns whether it did
        template<typename F>
        bool provoke(long at, const char* what, F&& f)
        {
            g_throwAt = at;
            g_thrown = 0;
            bool came = false;
            uint64_t serial = 0;
            try { f(); }
            catch (const Boom& e) { came = true; serial = e.serial; }
            catch (const Bad& e) { came = true; serial = e.serial; }
            catch (...) { g_throwAt = -1; fail("another-exception", "%s: the exception a source threw during %s reached the client as another one", k.name.c_str(), what); }
            g_throwAt = -1;
            VF_CHECK(came || !g_thrown, "exception-lost", "%s: a source threw during %s, but the exception did not reach the client", k.name.c_str(), what);
            VF_CHECK(!came || serial == g_thrown, "another-exception", "%s: the exception a source threw during %s reached the client as another one", k.name.c_str(), what);
            if (came) stat("exceptions");
            return came;
        }

        void allocate()
        {
            const size_t n = size();
            const uint64_t seed = w.failSeed;
            const bool provoked = rng.chance(1, 3);
            const long at = provoked ? long(rng.below(4)) : -1;
            const size_t times = rng.chance(1, 3) ? rng.range(2, 5) : 1;
            void* p = nullptr;
            bool done = false, threw = false;
            Footprint last{};
            for (size_t t = 0; t < times && !done; t++)
            {
                const Footprint before = footprint();
                w.failSeed = seed;
                if (!provoke(at, "a request", [&] { p = m->allocate(n); })) { done = true; break; }
                threw = true;
                const Footprint now = footprint();
                // Set-up on first use may remain, blocks of sources may not
                VF_CHECK(now.blocks == before.blocks && now.bytes == before.bytes, "kept-after-exception", "%s: a request of %zu bytes ended with an exception, but %lld bytes obtained from sources for it remain", k.name.c_str(), n,
                    (long long)(now.bytes - before.bytes));
                if (t >= 3) VF_CHECK(now == last, "kept-after-exception", "%s: the same request of %zu bytes ended with an exception again, and the allocator now holds %llu heap bytes and %llu sources instead of %llu and %llu", k.name.c_str(), n,
                    (unsigned long long)now.heapBytes, (unsigned long long)now.instances, (unsigned long long)last.heapBytes, (unsigned long long)last.instances);
                last = now;
                ledgers("an exception");
                if (!sm.live.empty() && rng.chance(1, 2)) ask(rng.below(sm.live.size()));
                stat(at == 0 ? "exceptions_at_first_call" : "exceptions_at_later_calls");
                // what happened at the sources before the exception is undone or harmless
                w.log.clear();
            }
            if (threw && rng.chance(1, 2)) contents("an exception");
            trace = mix(trace ^ n << 3 ^ uint64_t(threw) << 2 ^ uint64_t(done) << 1 ^ (p != nullptr));
            w.failSeed = seed;
            if (!done) return; // the twin was never asked
            Seen e;
            e.m = slice();
                        void* q = s->allocate(n);
            e.s = slice();
            VF_CHECK(!p == !q, "served", "%s: after exceptions %zu bytes are %s, without them they are not", k.name.c_str(), n, p ? "served" : "refused");
            compare("a request", e);
            stat(p ? "allocations" : "refusals");
            if (!p) return;
            VF_CHECK(sm.add(p, n), "overlap", "%s: a block of %zu bytes overlaps a live one", k.name.c_str(), n);
            ss.add(q, n);
        }

        void ask(size_t b)
        {
            const int x = m->owns(sm.live[b].p), y = s->owns(ss.live[b].p);
            VF_CHECK(x == y, "owns", "%s: after exceptions it %s a block of %zu bytes, without them not so", k.name.c_str(), x ? "owns" : "does not own", sm.live[b].n);
            stat("ownership_questions");
        }

        void give_back(size_t b)
        {
            ask(b);
            const Block x = sm.takeFast(b), y = ss.takeFast(b);
            VF_CHECK(verify(x.p, x.n, x.id) == SIZE_MAX, "contents", "%s: a block of %zu bytes changed", k.name.c_str(), x.n);
            m->deallocate(x.p, x.n);
            Seen e;
            e.m = slice();
            s->deallocate(y.p, y.n);
            e.s = slice();
            compare("a return", e);
            ledgers("a return");
            stat("returns");
        }

        // An object in a block: made (perhaps after attempts which throw), looked at and destroyed
        void construct(size_t b)
        {
            const Block x = sm.live[b], y = ss.live[b];
            if (x.n < m->sized()) return;
            ask(b);
            const int v = int(rng.below(1000000)) + 1;
            const size_t times = rng.range(1, 3);
            bool done = false;
            for (size_t t = 0; t < times && !done; t++)
            {
                const Footprint before = footprint();
                if (!provoke(long(rng.below(2)), "a construction", [&] { m->construct(x.p, v); })) { done = true; break; }
                VF_CHECK(footprint() == before, "kept-after-exception", "%s: a construction ended with an exception, but the memory held changed", k.name.c_str());
                ledgers("an exception");
                stat("constructions_ended_by_exceptions");
                w.log.clear();
            }
            if (!done) m->construct(x.p, v);
            s->construct(y.p, v);
            ask(b);
            const int u = m->destroy(x.p, true);
            VF_CHECK(u == v && s->destroy(y.p, true) == v, "object", "%s: an object was made with %d and holds %d", k.name.c_str(), v, u);
            m->destroy(x.p, false);
            s->destroy(y.p, false);
            w.log.clear();
            fill(x.p, x.n, x.id);
            fill(y.p, y.n, y.id);
            stat(m->constructs() ? "constructions_by_the_allocator" : "constructions_by_the_client");
        }

        // The destruction of an object may fail as well: whoever asked for it must learn
        void failing_destruction(size_t b)
        {
            const Block x = sm.live[b];
            if (x.n < m->sized() || !m->constructs()) return;
            m->construct(x.p, 5);
            if (provoke(0, "a destruction", [&] { m->destroy(x.p, false); })) { stat("destructions_ended_by_exceptions"); uncounted = true; }
            w.log.clear();
            fill(x.p, x.n, x.id);
        }

        void make()
        {
            uncounted = false;
            // the sources may throw when they are made
            for (int t = 0; t < 6; t++)
            {
                const Footprint before = footprint();
                if (!provoke(rng.chance(2, 3) ? long(rng.below(4)) : -1, "a creation", [&] { m = k.make(false); })) break;
                VF_CHECK(footprint() == before, "kept-after-exception", "%s: making it ended with an exception, but %lld heap blocks and %lld sources remain", k.name.c_str(),
                    (long long)(footprint().heap - before.heap), (long long)(footprint().instances - before.instances));
                stat("creations_ended_by_exceptions");
            }
            if (!m) m = k.make(false);
            s = k.make(true);
            w.log.clear();
        }

        void destroy()
        {
            if (!sm.live.empty() && rng.chance(1, 3)) failing_destruction(rng.below(sm.live.size()));
            while (!sm.live.empty()) give_back(rng.below(sm.live.size()));
            m.reset();
            Seen e;
            e.m = slice();
            s.reset();
            e.s = slice();
            compare("destroying it", e);
            ledgers("destroying it");
            for (auto& x : envs())
                VF_CHECK(uncounted || x->sink.text.empty(), "reported", "%s: a leak was reported though everything was returned: %.120s", k.name.c_str(), x->sink.text.c_str());
            envs().clear();
        }

        void run()
        {
            w.reset();
            w.logging = true;
            g_throwAt = -1;
            const uint64_t heap = memhook::get().live_blocks;
            for (int t = 0; t < TWIN; t++)
            {
                auto& c = w.cfg[t];
                if (rng.chance(2, 3)) c.cap = rng.range(16, rng.chance(1, 2) ? 300 : 2000);
                if (rng.chance(1, 3)) c.maxSingle = rng.range(0, 400);
                c.maxReport = rng.chance(1, 2) ? c.maxSingle : SIZE_MAX;
                w.cfg[t + TWIN] = c;
            }
            w.failSeed = rng.next();
            make();
            const size_t steps = rng.range(10, 200);
            for (size_t n = 0; n < steps; n++)
            {
                vf::detail("%s, step %zu", k.name.c_str(), n);
                const unsigned r = unsigned(rng.below(100));
                if (r < 60) allocate();
                else if (r < 70) { if (!sm.live.empty()) construct(rng.below(sm.live.size())); }
                else if (r < 97) { if (!sm.live.empty()) give_back(rng.chance(1, 2) ? sm.live.size() - 1 : rng.below(sm.live.size())); }
                else { destroy(); make(); }
            }
            destroy();
            VF_CHECK(w.liveBlocks == 0, "lost", "%s: %zu blocks were never returned to their sources", k.name.c_str(), size_t(w.liveBlocks));
            VF_CHECK(memhook::get().live_blocks == heap, "heap-lost", "%s: %lld blocks of the heap were not returned", k.name.c_str(), (long long)(memhook::get().live_blocks - heap));
            VF_CHECK(w.instances == w.sharedStates(), "instances-lost", "%s: %zu sources remain", k.name.c_str(), size_t(w.instances));
            stat("histories");
        }
    };
}

static void run_case(uint64_t idx, Rng& rng)
{
    if (kinds().empty()) build();
    const Kind& k = kinds()[idx % kinds().size()];
    Driver d(k, rng, idx + 1);
    d.run();
    sig(d.trace);
    digest(d.trace);
    if (idx < kinds().size()) sample(k.name);
    stat(("cases:" + k.name).c_str());
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c31", run_case); }
