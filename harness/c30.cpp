// C30: many handles to few states, against one plain allocator per state.
// Each operation goes through a random handle (raw or typed, copied, moved, converted, reassigned) of the state, and directly to the state's
// twin. Both must answer alike and ask their sources for the same things.
#include "leaf.h"
#include "memhook.h"
#include "shadow.h"
#include "subjects.h"
#include "twin.h"
#include "vf.h"
#include <ktl/ktl.h>

#include <algorithm>
#include <functional>
#include <memory>

using namespace vf;
using namespace ktl;

namespace
{
    struct P3 { char c[3]; };
    struct P24 { char c[24]; };
    constexpr size_t UNIT = 24; // every request is a multiple of every object size

    struct Handle
    {
        int kind = 0; // 0: raw, 1..4: typed
        virtual ~Handle() = default;
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual int owns(void* p) const = 0;
        virtual bool max_size(size_t* bytes, size_t* unit) const = 0;
        virtual std::unique_ptr<Handle> convert(int to, bool move) = 0; // to == kind: copy or move construction
        virtual bool assign(Handle& o, bool move) = 0;                  // of the same kind
        virtual void exchange(Handle& o) = 0;
        virtual bool install(const std::vector<size_t>&, std::vector<void*>&) { return false; }
        virtual void* direct(size_t n, bool* offered) = 0; // from the allocator behind it
        virtual bool direct_return(void* p, size_t n) = 0;
    };

    template<typename R, int K> struct handle_of;
    template<typename R> struct handle_of<R, 0> { using type = R; static constexpr size_t size = 1; };
    template<typename R> struct handle_of<R, 1> { using type = type_allocator<char, R>; static constexpr size_t size = 1; };
    template<typename R> struct handle_of<R, 2> { using type = type_allocator<P3, R>; static constexpr size_t size = 3; };
    template<typename R> struct handle_of<R, 3> { using type = type_allocator<uint64_t, R>; static constexpr size_t size = 8; };
    template<typename R> struct handle_of<R, 4> { using type = type_allocator<P24, R>; static constexpr size_t size = 24; };

    template<typename R, int K>
    struct Of : Handle
    {
        using A = typename handle_of<R, K>::type;
        static constexpr size_t size = handle_of<R, K>::size;
        A a;

        template<typename... X>
        explicit Of(X&&... x) : a(std::forward<X>(x)...) { kind = K; }

        void* allocate(size_t n) override { return a.allocate(n / size); }
        void deallocate(void* p, size_t n) override
        {
            if constexpr (K == 0) a.deallocate(p, n);
            else a.deallocate(static_cast<typename A::value_type*>(p), n / size);
        }
        int owns(void* p) const override
        {
            if constexpr (offers_owns<R>::value)
            {
                if constexpr (K == 0) return a.owns(p);
                else return a.owns(static_cast<typename A::value_type*>(p));
            }
            else return -1;
        }
        bool max_size(size_t* bytes, size_t* unit) const override
        {
            *unit = size;
            if constexpr (offers_max<A>::value) { *bytes = a.max_size(); return true; }
            else return false;
        }
        const R& raw() const
        {
            if constexpr (K == 0) return a;
            else return a.get_allocator();
        }
        R& raw()
        {
            if constexpr (K == 0) return a;
            else return a.get_allocator();
        }
        template<int To>
        std::unique_ptr<Handle> to(bool move)
        {
            using Y = Of<R, To>;
            if constexpr (To == 0 && K != 0) return std::unique_ptr<Handle>(new Y(static_cast<const R&>(raw())));
            else if (move) return std::unique_ptr<Handle>(new Y(std::move(a)));
            else return std::unique_ptr<Handle>(new Y(static_cast<const A&>(a)));
        }
        std::unique_ptr<Handle> convert(int k, bool move) override
        {
            switch (k)
            {
            case 0: return to<0>(move);
            case 1: return to<1>(move);
            case 2: return to<2>(move);
            case 3: return to<3>(move);
            default: return to<4>(move);
            }
        }
        bool assign(Handle& o, bool move) override
        {
            Of& x = static_cast<Of&>(o);
            if (move) a = std::move(x.a);
            else a = static_cast<const A&>(x.a);
            return true;
        }
        void exchange(Handle& o) override { std::swap(a, static_cast<Of&>(o).a); }
        void* direct(size_t n, bool* offered) override
        {
            if constexpr (has_inner<R>::value) { *offered = true; return raw().get_allocator().allocate(n); }
            else { *offered = false; return nullptr; }
        }
        bool direct_return(void* p, size_t n) override
        {
            if constexpr (has_inner<R>::value) { raw().get_allocator().deallocate(p, n); return true; }
            else return false;
        }
        bool install(const std::vector<size_t>& sizes, std::vector<void*>& blocks) override
        {
            if constexpr (is_global<R>::value)
            {
                typename is_global<R>::inner_type x;
                for (size_t n : sizes) blocks.push_back(x.allocate(n));
                raw().set_allocator(std::move(x));
                return true;
            }
            else return false;
        }
        template<typename G> struct is_global : std::false_type {};
        template<typename I> struct is_global<global<I>> : std::true_type { using inner_type = I; };
        template<typename G, typename = void> struct has_inner : std::false_type {};
        template<typename G> struct has_inner<G, std::void_t<decltype(std::declval<G&>().get_allocator())>> : std::true_type {};
    };

    struct Plain
    {
        virtual ~Plain() = default;
        virtual void* allocate(size_t n) = 0;
        virtual void deallocate(void* p, size_t n) = 0;
        virtual int owns(void* p) = 0;
        virtual bool max_size(size_t* out) = 0;
    };

    template<typename A>
    struct PlainOf : Plain
    {
        std::unique_ptr<Sink> sink;
        std::unique_ptr<stack<768>> block;
        A a;
        PlainOf() : sink(new Sink), block(new stack<768>), a(make<A>(*sink, *block)) {}
        template<typename X>
        static X make(Sink&, stack<768>& b)
        {
            if constexpr (std::is_constructible_v<X, stack<768>&>) return X(b);
            else return X();
        }
        void* allocate(size_t n) override { return a.allocate(n); }
        void deallocate(void* p, size_t n) override { a.deallocate(p, n); }
        int owns(void* p) override
        {
            if constexpr (offers_owns<A>::value) return static_cast<const A&>(a).owns(p);
            else return -1;
        }
        bool max_size(size_t* out) override
        {
            if constexpr (offers_max<A>::value) { *out = static_cast<const A&>(a).max_size(); return true; }
            else return false;
        }
    };

    struct Family
    {
        std::string name;
        bool counted;
        bool global;
        std::function<std::unique_ptr<Handle>()> make;  // a handle to a new state
        std::function<std::unique_ptr<Plain>()> twin;
        std::function<void()> close;
    };
    std::vector<Family>& families() { static auto* f = new std::vector<Family>; return *f; }

    template<typename T> std::vector<std::unique_ptr<T>>& kept() { static auto* v = new std::vector<std::unique_ptr<T>>; return *v; }

    template<typename X, typename Y> // X: handles, over the composition behind them; Y: the twin
    void add(const char* name, bool counted, std::function<std::unique_ptr<Handle>()> make, std::function<void()> close = [] {}, bool glob = false)
    {
        families().push_back({ name, counted, glob, std::move(make), [] { return std::unique_ptr<Plain>(new PlainOf<Y>); }, std::move(close) });
    }

    using leafs::leaf;
    using leafs::MAXSZ;
    using leafs::OWNS;
    template<int T> using LO = leaf<T, OWNS>;
    template<int T> using LM = leaf<T, OWNS | MAXSZ>;
    template<int T> using LN = leaf<T, 0>;

    template<int B> using Mixed = fallback<cascading<LO<B>>, freelist<0, 240, LO<B + 1>>>;
    template<int B> using Free = freelist<0, 120, LO<B>>;
    template<int B> using Casc = cascading<LM<B>>;
    template<int B> using Seg = segragator<96, fallback<LM<B>, LM<B + 1>>, cascading<LM<B + 2>>>;

    template<typename X, typename Y>
    void refer(const char* name)
    {
        add<reference<X>, Y>(name, false, [] {
            kept<X>().emplace_back(new X);
            return std::unique_ptr<Handle>(new Of<reference<X>, 0>(*kept<X>().back()));
        }, [] { kept<X>().clear(); });
    }
    template<typename S, typename Y>
    void count(const char* name)
    {
        add<S, Y>(name, true, [] { return std::unique_ptr<Handle>(new Of<S, 0>()); });
    }
    template<typename X, typename Y>
    void globally(const char* name)
    {
        add<global<X>, Y>(name, false, [] { return std::unique_ptr<Handle>(new Of<global<X>, 0>()); }, [] { global<X>().set_allocator(X()); }, true);
    }

    void build()
    {
        refer<Mixed<0>, Mixed<TWIN>>("reference<fallback<cascading,freelist>>");
        refer<Free<0>, Free<TWIN>>("reference<freelist>");
        refer<Casc<0>, Casc<TWIN>>("reference<cascading>");
        refer<linear_allocator<600>, linear_allocator<600>>("reference<linear<600>>");
        refer<Seg<0>, Seg<TWIN>>("reference<segragator>");
        refer<threaded<Mixed<0>>, Mixed<TWIN>>("reference<threaded<fallback>>");
        refer<shared<Casc<0>>, Casc<TWIN>>("reference<shared<cascading>>");
        count<shared<Mixed<0>>, Mixed<TWIN>>("shared<fallback<cascading,freelist>>");
        count<shared<Casc<0>>, Casc<TWIN>>("shared<cascading>");
        count<shared<linear_allocator<600>>, linear_allocator<600>>("shared<linear<600>>");
        count<atomic_shared<Seg<0>>, Seg<TWIN>>("atomic_shared<segragator>");
        count<atomic_shared<threaded<Mixed<0>>>, Mixed<TWIN>>("atomic_shared<threaded<fallback>>");
        count<shared<shared<Free<0>>>, Free<TWIN>>("shared<shared<freelist>>");
        count<fallback<shared<LO<0>>, shared<Free<1>>>, fallback<LO<TWIN>, Free<TWIN + 1>>>("fallback<shared<leaf>,shared<freelist>>");
        count<segragator<96, shared<Free<0>>, atomic_shared<Casc<1>>>, segragator<96, Free<TWIN>, Casc<TWIN + 1>>>("segragator<96,shared<freelist>,atomic_shared<cascading>>");
        add<stack_allocator<768>, stack_allocator<768>>("stack<768>", false, [] {
            kept<stack<768>>().emplace_back(new stack<768>);
            return std::unique_ptr<Handle>(new Of<stack_allocator<768>, 0>(*kept<stack<768>>().back()));
        }, [] { kept<stack<768>>().clear(); });
        using FS = fallback<stack_allocator<768>, shared<LO<0>>>;
        add<FS, fallback<stack_allocator<768>, LO<TWIN>>>("fallback<stack<768>,shared<leaf>>", true, [] {
            kept<stack<768>>().emplace_back(new stack<768>);
            return std::unique_ptr<Handle>(new Of<FS, 0>(stack_allocator<768>(*kept<stack<768>>().back()), shared<LO<0>>()));
        }, [] { kept<stack<768>>().clear(); });
        using FR = segragator<96, reference<Free<0>>, reference<LO<1>>>;
        add<FR, segragator<96, Free<TWIN>, LO<TWIN + 1>>>("segragator<96,reference<freelist>,reference<leaf>>", false, [] {
            kept<Free<0>>().emplace_back(new Free<0>);
            kept<LO<1>>().emplace_back(new LO<1>);
            return std::unique_ptr<Handle>(new Of<FR, 0>(reference<Free<0>>(*kept<Free<0>>().back()), reference<LO<1>>(*kept<LO<1>>().back())));
        }, [] { kept<Free<0>>().clear(); kept<LO<1>>().clear(); });
        globally<Mixed<0>, Mixed<TWIN>>("global<fallback<cascading,freelist>>");
        globally<Casc<0>, Casc<TWIN>>("global<cascading>");
        globally<shared<Seg<0>>, Seg<TWIN>>("global<shared<segragator>>");
        globally<LO<0>, LO<TWIN>>("global<leaf>");
    }

    struct Driver : Twins
    {
        const Family& f;
        Rng& rng;
        Shadow sm, ss;
        uint64_t trace = 0;

        struct State { std::unique_ptr<Plain> twin; size_t handles = 0; };
        std::vector<State> states;
        struct Slot { std::unique_ptr<Handle> h; int state = -1; }; // state -1 with a handle: empty after a move
        Slot slots[8];

        Driver(const Family& fam, Rng& r, uint64_t salt) : Twins(fam.name), f(fam), rng(r), sm(salt), ss(salt) {}

        size_t size()
        {
            const unsigned r = unsigned(rng.below(8));
            return UNIT * (r == 0 ? 0 : r < 6 ? 1 + rng.below(6) : 1 + rng.below(16));
        }

        int handle(int state)
        {
            int found[8], n = 0;
            for (int i = 0; i < 8; i++)
                if (slots[i].h && slots[i].state == state) found[n++] = i;
            return n ? found[rng.below(uint64_t(n))] : -1;
        }

        void contents(const char* what)
        {
            size_t where = 0;
            const Block* b = sm.damaged(&where);
            VF_CHECK(!b, "contents", "%s: %s: a block of %zu bytes changed at %zu", name.c_str(), what, b ? b->n : 0, where);
        }

        void allocate(int i)
        {
            const int g = slots[i].state;
            const size_t n = size();
            const uint64_t seed = w.failSeed;
            bool direct = false;
            void* p = rng.chance(1, 8) ? slots[i].h->direct(n, &direct) : nullptr;
            if (direct) stat("direct");
            else p = slots[i].h->allocate(n);
            Seen e;
            e.m = slice();
            w.failSeed = seed;
            void* q = states[size_t(g)].twin->allocate(n);
            e.s = slice();
            VF_CHECK(!p == !q, "served", "%s: %zu bytes were %s through a handle, the allocator alone would not have", name.c_str(), n, p ? "served" : "refused");
            compare("an allocation", e);
            stat(p ? "allocations" : "refusals");
            trace = mix(trace ^ n << 1 ^ (p != nullptr));
            if (!p) return;
            VF_CHECK(sm.add(p, n), "overlap", "%s: a block of %zu bytes overlaps a live one", name.c_str(), n);
            ss.add(q, n);
            sm.live.back().tag = ss.live.back().tag = unsigned(g) << 8 | unsigned(slots[i].h->kind);
        }

        void give_back(size_t b)
        {
            const Block x = sm.takeFast(b), y = ss.takeFast(b);
            const int g = int(x.tag >> 8), i = handle(g);
            VF_CHECK(verify(x.p, x.n, x.id) == SIZE_MAX, "contents", "%s: a block of %zu bytes changed", name.c_str(), x.n);
            if (int(x.tag & 255) != slots[i].h->kind) stat("returned_through_another_type");
            if (!rng.chance(1, 8) || !slots[i].h->direct_return(x.p, x.n)) slots[i].h->deallocate(x.p, x.n);
            Seen e;
            e.m = slice();
            states[size_t(g)].twin->deallocate(y.p, y.n);
            e.s = slice();
            compare("a return", e);
            ledgers("a return");
            stat("returns");
        }

        void drain(int g)
        {
            for (size_t b = sm.live.size(); b-- > 0;)
                if (int(sm.live[b].tag >> 8) == g) give_back(b);
        }

        // What has to be done before slot i stops being a handle of its state
        void before_leaving(int i)
        {
            const int g = slots[i].state;
            if (g >= 0 && states[size_t(g)].handles == 1) drain(g);
        }
        // Afterwards
        void left(int g, const char* what)
        {
            if (g < 0) { no_events(what); return; }
            if (--states[size_t(g)].handles || !f.counted) { no_events(what); return; }
            Seen e;
            e.m = slice();
            states[size_t(g)].twin.reset();
            e.s = slice();
            compare(what, e);
            ledgers(what);
            stat("states_ended");
        }

        void open(int i)
        {
            if (f.global)
            {
                if (states.empty()) states.push_back({ f.twin(), 0 });
                slots[i].h = f.make();
                slots[i].state = 0;
            }
            else
            {
                slots[i].h = f.make();
                states.push_back({ f.twin(), 0 });
                slots[i].state = int(states.size()) - 1;
            }
            states[size_t(slots[i].state)].handles++;
            no_events("making a handle");
        }

        void ask()
        {
            for (auto& s : slots)
            {
                if (!s.h || s.state < 0) continue;
                State& g = states[size_t(s.state)];
                size_t a = 0, unit = 1, b = 0;
                const bool o = s.h->max_size(&a, &unit), t = g.twin->max_size(&b);
                VF_CHECK(!o || !t || a == b / unit, "max-size", "%s: through a handle for objects of %zu bytes the maximum is %zu, of the allocator alone %zu bytes", name.c_str(), unit, a, b);
                for (size_t i = 0; i < sm.live.size(); i++)
                {
                    const int x = s.h->owns(sm.live[i].p), y = g.twin->owns(ss.live[i].p);
                    VF_CHECK(x < 0 || x == y, "owns", "%s: through a handle it %s a block of %zu bytes, the allocator alone answers otherwise", name.c_str(), x ? "owns" : "does not own", sm.live[i].n);
                    stat("ownership_questions");
                }
            }
        }

        void step()
        {
            const int i = int(rng.below(8)), j = int(rng.below(8));
            Slot& a = slots[i];
            Slot& b = slots[j];
            const unsigned r = unsigned(rng.below(100));
            if (r < 40)
            {
                if (a.h && a.state >= 0) allocate(i);
                return;
            }
            if (r < 60)
            {
                if (!sm.live.empty()) give_back(rng.chance(1, 2) ? sm.live.size() - 1 : rng.below(sm.live.size()));
                return;
            }
            trace = mix(trace ^ r << 8 ^ unsigned(i) << 4 ^ unsigned(j));
            if (!a.h) { if (states.size() < 200) open(i); return; }
            const bool moves = rng.chance(1, 2);
            const bool empties = moves && a.h->kind == 0 && f.counted; // only raw counted handles are emptied by a move
            if (r < 78) // a new handle from an old one
            {
                if (i == j) return;
                if (a.state < 0 && rng.chance(3, 4)) return;
                const int to = rng.chance(1, 3) ? a.h->kind : int(rng.below(5));
                if (a.state < 0 && to != a.h->kind) return; // converting an empty handle
                if (b.h)
                {
                    before_leaving(j);
                    const int g = b.state;
                    b.h.reset();
                    left(g, "destroying a handle");
                }
                b.h = a.h->convert(to, moves);
                no_events("making a handle from another");
                b.state = a.state;
                if (a.state >= 0)
                {
                    if (empties) a.state = -1;
                    else states[size_t(a.state)].handles++;
                }
                stat(to != a.h->kind ? "conversions" : moves ? "moves" : "copies");
            }
            else if (r < 92) // assignment
            {
                if (i == j || !b.h || b.h->kind != a.h->kind) return;
                if (a.state == b.state && a.state >= 0)
                {
                    b.h->assign(*a.h, moves);
                    no_events("assigning a handle of the same state");
                    if (empties) { states[size_t(a.state)].handles--; a.state = -1; }
                    stat("reassigned_to_the_same");
                }
                else
                {
                    before_leaving(j);
                    const int g = b.state;
                    b.h->assign(*a.h, moves);
                    left(g, "assigning another handle");
                    b.state = a.state;
                    if (a.state >= 0)
                    {
                        if (empties) a.state = -1;
                        else states[size_t(a.state)].handles++;
                    }
                    stat("reassignments");
                }
            }
            else if (r < 94)
            {
                if (i == j || !b.h || b.h->kind != a.h->kind) return;
                a.h->exchange(*b.h);
                std::swap(a.state, b.state);
                no_events("exchanging handles");
                stat("exchanges");
            }
            else if (r < 98 || !f.global)
            {
                before_leaving(i);
                const int g = a.state;
                a.h.reset();
                left(g, "destroying a handle");
            }
            else
            {
                drain(0);
                std::vector<size_t> sizes(rng.below(4));
                std::vector<void*> blocks;
                for (size_t& n : sizes) n = size();
                const uint64_t seed = w.failSeed;
                a.h->install(sizes, blocks);
                Seen e;
                e.m = slice();
                w.failSeed = seed;
                states[0].twin = f.twin();
                std::vector<void*> twins;
                for (size_t n : sizes) twins.push_back(states[0].twin->allocate(n));
                e.s = slice();
                compare("installing another allocator", e);
                for (size_t n = 0; n < sizes.size(); n++)
                {
                    VF_CHECK(!blocks[n] == !twins[n], "served", "%s: an allocator to be installed served %zu bytes otherwise than its twin", name.c_str(), sizes[n]);
                    if (!blocks[n]) continue;
                    VF_CHECK(sm.add(blocks[n], sizes[n]), "overlap", "%s: a block of %zu bytes overlaps a live one", name.c_str(), sizes[n]);
                    ss.add(twins[n], sizes[n]);
                    sm.live.back().tag = ss.live.back().tag = 9;
                    stat("installed_with_blocks");
                }
                stat("installations");
            }
            ledgers("a change of handles");
            contents("a change of handles");
            ask();
        }

        void run()
        {
            w.reset();
            w.logging = true;
            if (f.global) f.close();
            slice();
            const uint64_t instances = w.instances, heap = memhook::get().live_blocks;
            for (int t = 0; t < TWIN; t++)
            {
                auto& c = w.cfg[t];
                if (rng.chance(2, 3)) c.cap = rng.range(24, rng.chance(1, 2) ? 400 : 3000);
                if (rng.chance(1, 4)) c.maxSingle = rng.range(0, 400);
                c.maxReport = rng.chance(1, 2) ? c.maxSingle : SIZE_MAX;
                if (rng.chance(1, 4)) c.failNum = uint32_t(rng.range(1, 1 << 14));
                w.cfg[t + TWIN] = c;
            }
            w.failSeed = rng.next();
            open(0);
            open(4);
            const size_t steps = rng.range(10, 250);
            for (size_t n = 0; n < steps; n++)
            {
                vf::detail("%s, step %zu", name.c_str(), n);
                step();
            }
            // All handles go, the uncounted states after them
            while (!sm.live.empty())
            {
                const size_t b = rng.below(sm.live.size());
                if (handle(int(sm.live[b].tag >> 8)) < 0)
                {
                    // Nobody can return it any more: a state that outlives its handles is reached by its owner
                    VF_CHECK(false, "harness", "%s: a block without a handle", name.c_str());
                }
                give_back(b);
            }
            for (int i : { 3, 0, 6, 1, 7, 2, 5, 4 })
            {
                if (!slots[i].h) continue;
                const int g = slots[i].state;
                slots[i].h.reset();
                left(g, "destroying a handle");
            }
            f.close();
            Seen e;
            e.m = slice();
            for (auto& s : states) s.twin.reset();
            e.s = slice();
            compare("destroying the allocators", e);
            ledgers("destroying the allocators");
            VF_CHECK(w.liveBlocks == 0, "lost", "%s: %zu blocks were never returned to their sources", name.c_str(), size_t(w.liveBlocks));
            VF_CHECK(memhook::get().live_blocks == heap, "heap-lost", "%s: %lld blocks of the heap were not returned", name.c_str(), (long long)(memhook::get().live_blocks - heap));
            VF_CHECK(w.instances == instances, "instances-lost", "%s: %zu sources remain", name.c_str(), size_t(w.instances));
            stat("histories");
        }
    };
}

static void run_case(uint64_t idx, Rng& rng)
{
    if (families().empty()) build();
    const Family& f = families()[idx % families().size()];
    Driver d(f, rng, idx + 1);
    d.run();
    sig(d.trace);
    digest(d.trace);
    if (idx < families().size()) sample(f.name);
    stat(("cases:" + f.name).c_str());
}

int main(int argc, char** argv) { return vf::run_main(argc, argv, "c30", run_case); }
