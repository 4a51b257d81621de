// C17: moved allocators against twins which are never moved.
// Every composition exists twice, over two disjoint sets of recording sources. What happens to the one happens to the other, except that
// where the first is moved, its twin stays where it is (only the bookkeeping of which slot it belongs to changes). From then on both must
// answer alike and ask their sources for the same things.
#include "leaf.h"
#include "memhook.h"
#include "shadow.h"
#include "subjects.h"
#include "twin.h"
#include "vf.h"
#include <ktl/ktl.h>

#include <algorithm>
#include <functional>
#include <memory>
#include <optional>

using namespace vf;
using namespace ktl;

namespace
{
    struct Any
    {
        virtual ~Any() = default;
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual int owns(void* p) = 0;
        virtual bool max_size(size_t* out) = 0;
        virtual std::unique_ptr<Any> move_out() = 0;
        virtual bool move_to(Any& o) = 0; // false: cannot be assigned
        virtual bool exchange(Any& o) = 0;
        virtual std::string report() = 0;
    };

    struct Env
    {
        Sink sink;
        stack<512> block;
    };

    // The environments live as long as the case, as a client's would
    std::vector<std::unique_ptr<Env>>& envs() { static auto* v = new std::vector<std::unique_ptr<Env>>; return *v; }

    template<typename C>
    struct Holder : Any
    {
        using A = typename C::type;
        Env* env;
        typename C::target* target;
        A a;
        Holder(Env* e, typename C::target* t) : env(e), target(t), a(C::make(*e, t)) {}
        Holder(Env* e, typename C::target* t, A&& o) : env(e), target(t), a(std::move(o)) {}

        void* allocate(size_t n) override
        {
            if constexpr (C::unit > 1) return a.allocate(n / C::unit);
            else return a.allocate(n);
        }
        void deallocate(void* p, size_t n) override
        {
            if constexpr (C::unit > 1) a.deallocate(static_cast<typename A::value_type*>(p), n / C::unit);
            else a.deallocate(p, n);
        }
        int owns(void* p) override
        {
            if constexpr (C::unit > 1) return a.owns(static_cast<typename A::value_type*>(p));
            else if constexpr (offers_owns<A>::value) return static_cast<const A&>(a).owns(p) ? 1 : 0;
            else return -1;
        }
        bool max_size(size_t* out) override
        {
            if constexpr (offers_max<A>::value) { *out = static_cast<const A&>(a).max_size(); return true; }
            else return false;
        }
        std::unique_ptr<Any> move_out() override { return std::unique_ptr<Any>(new Holder(env, target, std::move(a))); }
        bool move_to(Any& o) override
        {
            if constexpr (std::is_move_assignable_v<A> && C::assignable)
            {
                Holder& h = static_cast<Holder&>(o);
                h.a = std::move(a);
                h.env = env;
                h.target = target;
                return true;
            }
            else return false;
        }
        bool exchange(Any& o) override
        {
            if constexpr (std::is_move_assignable_v<A> && C::assignable)
            {
                Holder& h = static_cast<Holder&>(o);
                std::swap(a, h.a);
                std::swap(env, h.env);
                std::swap(target, h.target);
                return true;
            }
            else return false;
        }
        std::string report() override { return env->sink.text; }
    };

    enum : unsigned
    {
        CHAIN = 1,   // must not be moved while blocks are kept for reuse
        COPY = 4,    // its moves are copies, as the standard wants of typed allocators: the source goes on unless destroyed
        IDLE = 2,    // must not be moved while blocks are outstanding
    };

    struct Kind
    {
        std::string name;
        unsigned flags;
        size_t unit;
        std::vector<size_t> sizes;
        std::function<std::unique_ptr<Any>(bool twin)> make;
        std::function<void()> close;
    };

    std::vector<Kind>& kinds() { static auto* k = new std::vector<Kind>; return *k; }

    template<typename T> std::vector<std::unique_ptr<T>>& targets() { static auto* v = new std::vector<std::unique_ptr<T>>; return *v; }

    template<typename C>
    std::unique_ptr<Any> make_one()
    {
        envs().emplace_back(new Env);
        targets<typename C::target>().emplace_back(new typename C::target);
        return std::unique_ptr<Any>(new Holder<C>(envs().back().get(), targets<typename C::target>().back().get()));
    }

    template<template<int> class C>
    void add(const char* name, std::vector<size_t> sizes, unsigned flags = 0)
    {
        kinds().push_back({ name, flags, C<0>::unit, std::move(sizes), [](bool twin) { return twin ? make_one<C<TWIN>>() : make_one<C<0>>(); },
            [] { targets<typename C<0>::target>().clear(); targets<typename C<TWIN>::target>().clear(); } });
    }

    using leafs::leaf;
    using leafs::OWNS;
    using leafs::MAXSZ;
    using leafs::SHARED;
    template<int T> using LO = leaf<T, OWNS>;
    template<int T> using LM = leaf<T, OWNS | MAXSZ>;
    template<int T> using LN = leaf<T, 0>;
    template<int T> using SH = leaf<T, OWNS | MAXSZ | SHARED>;

    struct Nothing {};

    template<typename A>
    struct plain
    {
        using type = A;
        using target = Nothing;
        static constexpr size_t unit = 1;
        static constexpr bool assignable = true;
        static A make(Env&, Nothing*) { return A(); }
    };
    template<typename A>
    struct sunk
    {
        using type = A;
        using target = Nothing;
        static constexpr size_t unit = 1;
        static constexpr bool assignable = true;
        static A make(Env& e, Nothing*) { return A(e.sink); }
    };
    template<typename A>
    struct referring
    {
        using type = reference<A>;
        using target = A;
        static constexpr size_t unit = 1;
        static constexpr bool assignable = true;
        static type make(Env&, A* t) { return type(*t); }
    };
    struct P24 { char c[24]; };
    template<typename A>
    struct typed
    {
        using type = type_allocator<P24, A>;
        using target = Nothing;
        static constexpr size_t unit = 24;
        static constexpr bool assignable = true;
        static type make(Env&, Nothing*) { return type(); }
    };

    template<int B> struct K1 : plain<cascading<LM<B>>> {};
    template<int B> struct K2 : plain<cascading<LO<B>>> {};
    template<int B> struct K3 : plain<fallback<LO<B>, LN<B + 1>>> {};
    template<int B> struct K4 : plain<fallback<cascading<LM<B>>, LO<B + 1>>> {};
    template<int B> struct K5 : plain<segragator<64, LN<B>, LN<B + 1>>> {};
    template<int B> struct K6 : plain<segragator<64, freelist<0, 64, SH<B>>, cascading<LM<B + 1>>>> {};
    template<int B> struct K7 : plain<freelist<16, 96, SH<B>>> {};
    template<int B> struct K8 : plain<freelist<0, 64, LO<B>>> {};
    template<int B> struct K9 : sunk<overflow<cascading<LM<B>>, Sink>> {};
    template<int B> struct K10 : plain<shared<fallback<freelist<0, 64, LO<B>>, cascading<LM<B + 1>>>>> {};
    template<int B> struct K11 : plain<atomic_shared<threaded<cascading<LO<B>>>>> {};
    template<int B> struct K12 : referring<fallback<cascading<LO<B>>, LO<B + 1>>> {};
    template<int B> struct K13 : plain<freelist<0, 64, freelist<0, 32, SH<B>>>> {};
    template<int B> struct K14 : plain<segragator<32, fallback<freelist<0, 16, SH<B>>, LO<B + 1>>, fallback<LO<B + 2>, cascading<freelist<0, 64, LO<B + 3>>>>>> {};
    template<int B> struct K15 : typed<shared<fallback<cascading<LO<B>>, freelist<0, 256, LO<B + 1>>>>> {};
    template<int B> struct K16 : referring<freelist<0, 64, LO<B>>> {};
    template<int B> struct K17 : plain<fallback<linear_allocator<256>, LN<B>>> {};
    template<int B> struct K18 : plain<segragator<48, linear_allocator<160>, cascading<LO<B>>>> {};
    template<int B> struct K19
    {
        using type = fallback<stack_allocator<512>, LO<B>>;
        using target = Nothing;
        static constexpr size_t unit = 1;
        static constexpr bool assignable = true;
        static type make(Env& e, Nothing*) { return type(stack_allocator<512>(e.block)); }
    };
    template<int B> struct K20
    {
        using type = freelist<16, 64, stack_allocator<512>>;
        using target = Nothing;
        static constexpr size_t unit = 1;
        static constexpr bool assignable = true;
        static type make(Env& e, Nothing*) { return type(e.block); }
    };
    template<int B> struct K21 : sunk<overflow<freelist<128, 256, SH<B>>, Sink>> {};
    template<int B> struct K22 : sunk<overflow<fallback<LO<B>, LN<B + 1>>, Sink>> {};
    template<int B> struct K23 : plain<segragator_builder_min<LO<B>, threshold<64>, freelist<64, 256, SH<B + 1>>, threshold<256>, cascading<LM<B + 2>>>> {};
    template<int B> struct K24 : plain<fallback<null_allocator, cascading<LM<B>>>> {};
    template<int B> struct K25 : plain<cascading<cascading<LM<B>>>> {};
    template<int B> struct K26 : plain<cascading<fallback<freelist<0, 32, LO<B>>, LO<B + 1>>>> {};
    template<int B> struct K27 : plain<freelist<0, 64, cascading<LO<B>>>> {};
    template<int B> struct K28 : plain<fallback<shared<cascading<LO<B>>>, shared<freelist<0, 128, LO<B + 1>>>>> {};
    template<int B> struct K29 : sunk<freelist<0, 64, overflow<SH<B>, Sink>>> { static constexpr bool assignable = false; }; // overflow cannot be assigned
    template<int B> struct K30 : plain<fallback<fallback<LO<B>, LO<B + 1>>, fallback<LO<B + 2>, LN<B + 3>>>> {};
    template<int B> struct K31 : typed<atomic_shared<cascading<LM<B>>>> {};
    template<int B> struct K32 : plain<cascading<linear_allocator<256>>> {};

    void build()
    {
        add<K1>("cascading<leaf max>", { 64, 300 });
        add<K2>("cascading<leaf>", { 64, 300 });
        add<K3>("fallback<leaf,leaf>", { 64 });
        add<K4>("fallback<cascading<leaf max>,leaf>", { 64, 300 });
        add<K5>("segragator<64,leaf,leaf>", { 64 });
        add<K6>("segragator<64,freelist<0,64,equal leaf>,cascading<leaf max>>", { 64 });
        add<K7>("freelist<16,96,equal leaf>", { 16, 96 });
        add<K8>("freelist<0,64,leaf>", { 64 }, CHAIN);
        add<K9>("overflow<cascading<leaf max>>", { 100 });
        add<K10>("shared<fallback<freelist<0,64,leaf>,cascading<leaf max>>>", { 64, 200 });
        add<K11>("atomic_shared<threaded<cascading<leaf>>>", { 200 });
        add<K12>("reference<fallback<cascading<leaf>,leaf>>", { 200 });
        add<K13>("freelist<0,64,freelist<0,32,equal leaf>>", { 32, 64 });
        add<K14>("segragator<32,fallback<freelist,leaf>,fallback<leaf,cascading<freelist<0,64,leaf>>>>", { 16, 32, 64 });
        add<K15>("type<24B,shared<fallback<cascading<leaf>,freelist<0,256,leaf>>>>", { 96, 240 }, COPY);
        add<K16>("reference<freelist<0,64,leaf>>", { 64 });
        add<K17>("fallback<linear<256>,leaf>", { 256, 64 }, IDLE);
        add<K18>("segragator<48,linear<160>,cascading<leaf>>", { 48, 160 }, IDLE);
        add<K19>("fallback<stack<512>,leaf>", { 512, 128 });
        add<K20>("freelist<16,64,stack<512>>", { 16, 64 });
        add<K21>("overflow<freelist<128,256,equal leaf>>", { 1, 128 });
        add<K22>("overflow<fallback<leaf,leaf>>", { 100 });
        add<K23>("segragator_builder_min<leaf,freelist<64,256,equal leaf>,cascading<leaf max>>", { 64, 256 });
        add<K24>("fallback<null,cascading<leaf max>>", { 100 });
        add<K25>("cascading<cascading<leaf max>>", { 100, 300 });
        add<K26>("cascading<fallback<freelist<0,32,leaf>,leaf>>", { 32, 100 });
        add<K27>("freelist<0,64,cascading<leaf>>", { 64 }, CHAIN);
        add<K28>("fallback<shared<cascading<leaf>>,shared<freelist<0,128,leaf>>>", { 128, 200 });
        add<K29>("freelist<0,64,overflow<equal leaf>>", { 64 });
        add<K30>("fallback<fallback<leaf,leaf>,fallback<leaf,leaf>>", { 64 });
        add<K31>("type<24B,atomic_shared<cascading<leaf max>>>", { 96, 240 }, COPY);
        add<K32>("cascading<linear<256>>", { 256, 64 });
    }

    struct Driver : Twins
    {
        const Kind& k;
        Rng& rng;
        Shadow sm, ss;           // contents of the blocks; both have the same order
        uint64_t trace = 0;

        struct Slot
        {
            std::unique_ptr<Any> m, s; // s is null when m was moved from
            bool from = false;
            long held = 0; // blocks its sources have outstanding on its behalf
            size_t live = 0;
        };
        Slot slots[4];

        Driver(const Kind& kind, Rng& r, uint64_t salt) : Twins(kind.name), k(kind), rng(r), sm(salt), ss(salt) {}

        void contents(const char* what)
        {
            size_t where = 0;
            const Block* b = sm.damaged(&where);
            VF_CHECK(!b, "contents", "%s: %s: a block of %zu bytes changed at %zu", k.name.c_str(), what, b ? b->n : 0, where);
            stat("blocks_verified", sm.live.size());
        }

        size_t size()
        {
            size_t n;
            switch (rng.below(6))
            {
            case 0: n = rng.below(17); break;
            case 1: n = k.sizes[rng.below(k.sizes.size())]; break;
            case 2: n = k.sizes[rng.below(k.sizes.size())] + rng.below(3); n = n ? n - 1 : 0; break;
            case 3: n = rng.below(400); break;
            default: n = rng.below(100); break;
            }
            return (n + k.unit - 1) / k.unit * k.unit;
        }

        void allocate(size_t i)
        {
            Slot& s = slots[i];
            const size_t n = size();
            const uint64_t seed = w.failSeed;
            void* p = s.m->allocate(n);
            Seen e;
            e.m = slice();
            w.failSeed = seed;
            void* q = s.s->allocate(n);
            e.s = slice();
            VF_CHECK(!p == !q, "served", "%s: %zu bytes were %s after moves, without moves they are not", k.name.c_str(), n, p ? "served" : "refused");
            s.held += compare("an allocation", e);
            stat(p ? "allocations" : "refusals");
            trace = mix(trace ^ n << 1 ^ (p != nullptr));
            if (!p) return;
            VF_CHECK(sm.add(p, n), "overlap", "%s: a block of %zu bytes overlaps a live one", k.name.c_str(), n);
            ss.add(q, n);
            sm.live.back().tag = ss.live.back().tag = unsigned(i);
            s.live++;
        }

        void give_back(size_t b)
        {
            const Block x = sm.takeFast(b), y = ss.takeFast(b);
            Slot& s = slots[x.tag];
            VF_CHECK(verify(x.p, x.n, x.id) == SIZE_MAX, "contents", "%s: a block of %zu bytes changed", k.name.c_str(), x.n);
            ask(s, x, y);
            s.m->deallocate(x.p, x.n);
            Seen e;
            e.m = slice();
            s.s->deallocate(y.p, y.n);
            e.s = slice();
            s.held += compare("a return", e);
            ledgers("a return");
            s.live--;
            stat("returns");
        }

        void ask(Slot& s, const Block& x, const Block& y)
        {
            if (!s.s) return;
            const int a = s.m->owns(x.p), b = s.s->owns(y.p);
            VF_CHECK(a == b, "owns", "%s: after moves it %s a block of %zu bytes, without moves not so", k.name.c_str(), a ? "owns" : "does not own", x.n);
            stat("ownership_questions");
        }

        void ask_all()
        {
            for (auto& s : slots)
            {
                if (!s.s) continue;
                size_t a = 0, b = 0;
                const bool o = s.m->max_size(&a), t = s.s->max_size(&b);
                VF_CHECK(o == t && a == b, "max-size", "%s: after moves the maximum is %zu, without moves %zu", k.name.c_str(), a, b);
                for (size_t i = 0; i < sm.live.size(); i++) ask(s, sm.live[i], ss.live[i]);
            }
        }

        void drain(size_t i)
        {
            for (size_t b = sm.live.size(); b-- > 0;)
                if (sm.live[b].tag == i) give_back(b);
        }

        bool may_move(size_t i)
        {
            Slot& s = slots[i];
            if ((k.flags & CHAIN) && s.held != long(s.live)) return false;
            if ((k.flags & IDLE) && s.live) return false;
            return true;
        }

        void retag(size_t from, size_t to)
        {
            for (auto& b : sm.live) if (b.tag == from) b.tag = unsigned(to);
            for (auto& b : ss.live) if (b.tag == from) b.tag = unsigned(to);
        }

        // The twin of slot j is gone; what it gave back, the assigned-to one must have given back as well
        void retire(size_t j, const char* what, std::vector<Event> m)
        {
            Seen e;
            e.m = std::move(m);
            slots[j].s.reset();
            e.s = slice();
            if (!e.s.empty()) stat("reserves_returned", e.s.size());
            compare(what, e);
        }

        void take_over(size_t i, size_t j)
        {
            slots[j].s = std::move(slots[i].s);
            slots[j].held = slots[i].held;
            slots[j].live = slots[i].live;
            slots[j].from = false;
            slots[i].from = true;
            slots[i].held = 0;
            slots[i].live = 0;
            retag(i, j);
            if (k.flags & COPY)
            {
                slots[i].m.reset();
                slots[i].from = false;
                no_events("destroying a moved-from allocator");
            }
            if (slots[j].live) stat("moved_with_blocks");
            if (slots[j].held > long(slots[j].live)) stat("moved_with_reserves");
        }

        void fresh(size_t i)
        {
            slots[i].m = k.make(false);
            slots[i].s = k.make(true);
            slots[i].from = false;
            slots[i].held = 0;
            slots[i].live = 0;
        }

        void destroy(size_t i)
        {
            Slot& s = slots[i];
            const std::string r = s.m->report();
            if (s.from)
            {
                s.m.reset();
                no_events("destroying a moved-from allocator");
                stat("moved_from_destroyed");
                s.from = false;
                return;
            }
            drain(i);
            s.m.reset();
            retire(i, "destroying an allocator", slice());
        }

        void step()
        {
            const size_t i = rng.below(4), j = rng.below(4);
            Slot& a = slots[i];
            Slot& b = slots[j];
            if (!a.m) { fresh(i); slice(); return; }
            const unsigned r = unsigned(rng.below(100));
            if (r < 45)
            {
                if (!a.from) allocate(i);
                return;
            }
            if (r < 70)
            {
                if (!sm.live.empty()) give_back(rng.chance(1, 2) ? sm.live.size() - 1 : rng.below(sm.live.size()));
                return;
            }
            if (r < 74) { destroy(i); ledgers("destroying"); contents("destroying an allocator"); trace = mix(trace ^ 74); return; }
            if (r < 77 && !a.from)
            {
                // The same allocator moved out and back in
                if (!may_move(i)) return;
                std::unique_ptr<Any> t = a.m->move_out();
                no_events("moving");
                if (!t->move_to(*a.m)) { a.m = std::move(t); no_events("destroying a moved-from allocator"); }
                else
                {
                    no_events("assigning to a moved-from allocator");
                    t.reset();
                    no_events("destroying a moved-from allocator");
                }
                stat("moved_out_and_back");
            }
            else if (r < 80 && j != i && !a.from && b.m && !b.from)
            {
                if (!may_move(i) || !may_move(j)) return;
                if (!a.m->exchange(*b.m)) return;
                no_events("exchanging two allocators");
                std::swap(a.s, b.s);
                std::swap(a.held, b.held);
                std::swap(a.live, b.live);
                retag(i, 100);
                retag(j, i);
                retag(100, j);
                stat("exchanges");
            }
            else if (r < 90 && j != i && !a.from && !b.m)
            {
                if (!may_move(i)) return;
                b.m = a.m->move_out();
                no_events("moving");
                take_over(i, j);
                stat("move_constructions");
            }
            else if (j != i && !a.from && b.m)
            {
                if (!may_move(i)) return;
                if (!b.from) drain(j);
                if (!a.m->move_to(*b.m)) return;
                if (b.from)
                {
                    no_events("assigning to a moved-from allocator");
                    stat("assigned_to_moved_from");
                }
                else retire(j, "a move assignment", slice());
                take_over(i, j);
                stat("move_assignments");
            }
            else return;
            trace = mix(trace ^ r << 8 ^ i << 4 ^ j);
            ledgers("a move");
            contents("a move");
            ask_all();
        }

        void run()
        {
            w.reset();
            w.logging = true;
            const uint64_t heap = memhook::get().live_blocks;
            for (int t = 0; t < TWIN; t++)
            {
                auto& c = w.cfg[t];
                if (rng.chance(2, 3)) c.cap = rng.range(16, rng.chance(1, 2) ? 300 : 2000);
                if (rng.chance(1, 3)) c.maxSingle = rng.range(0, 400);
                c.maxReport = rng.chance(1, 2) ? c.maxSingle : SIZE_MAX;
                if (rng.chance(1, 3)) c.failNum = uint32_t(rng.range(1, 1 << 14));
                w.cfg[t + TWIN] = c;
            }
            w.failSeed = rng.next();
            fresh(0);
            fresh(1);
            slice();
            const size_t steps = rng.range(10, 250);
            for (size_t n = 0; n < steps; n++)
            {
                vf::detail("%s, step %zu", k.name.c_str(), n);
                step();
            }
            for (size_t i : { 2, 0, 3, 1 })
                if (slots[i].m) destroy(i);
            ledgers("destroying everything");
            for (auto& e : envs())
                VF_CHECK(e->sink.text.empty(), "reported", "%s: a leak was reported though everything was returned: %.120s", k.name.c_str(), e->sink.text.c_str());
            envs().clear();
            Seen e;
            k.close();
            for (auto& x : slice()) (x.tag < TWIN ? e.m : e.s).push_back(x);
            compare("destroying what was referred to", e);
            ledgers("destroying what was referred to");
            VF_CHECK(w.liveBlocks == 0, "lost", "%s: %zu blocks were never returned to their sources", k.name.c_str(), size_t(w.liveBlocks));
            VF_CHECK(memhook::get().live_blocks == heap, "heap-lost", "%s: %lld blocks of the heap were not returned", k.name.c_str(), (long long)(memhook::get().live_blocks - heap));
            VF_CHECK(w.instances == w.sharedStates(), "instances-lost", "%s: %zu sources remain", k.name.c_str(), size_t(w.instances));
            stat("histories");
        }
    };
}

static void run_case(uint64_t idx, Rng& rng)
{
    if (kinds().empty()) build();
    const Kind& k = kinds()[idx % kinds().size()];
    Driver d(k, rng, idx + 1);
    d.run();
    sig(d.trace);
    digest(d.trace);
    if (idx < kinds().size()) sample(k.name);
    stat(("cases:" + k.name).c_str());
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c17", run_case); }
